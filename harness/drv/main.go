// drv executes cases (one JSON object per line) against the real code and writes one event per
// case (one JSON object per line).  It contains no oracle: events record what was asked and what
// was observed, and the TLA+ trace specifications judge them.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"sync"
	"time"
)

// M is a JSON object.
type M = map[string]interface{}

// Case is one line of the input.
type Case struct {
	ID   int             `json:"id"`
	K    string          `json:"k"`
	Body json.RawMessage `json:"-"`
}

var handlers = map[string]func(json.RawMessage) M{}

// guard runs f and converts panics into out="panic" and a blocked call into out="hang".
func guard(limit time.Duration, f func() M) M {
	ch := make(chan M, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- M{"out": "panic", "msg": fmt.Sprint(r)}
			}
		}()
		ch <- f()
	}()
	select {
	case m := <-ch:
		return m
	case <-time.After(limit):
		return M{"out": "hang", "msg": ""}
	}
}

func main() {
	in := flag.String("in", "", "cases")
	out := flag.String("out", "", "events")
	par := flag.Int("par", 1, "cases executed in parallel")
	skip := flag.Int("skip", 0, "cases to skip")
	limit := flag.Int("limit", 60, "seconds per case")
	flag.Parse()
	log.SetOutput(io.Discard)

	fi, err := os.Open(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	fo, err := os.OpenFile(*out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	// the code under test may print to stdout; keep it out of the way
	sc := bufio.NewReaderSize(fi, 1<<20)
	hangs := 0
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, *par)
	if *par > 1 {
		runtime.GOMAXPROCS(*par + 1)
	}
	n := 0
	for {
		line, err := sc.ReadBytes('\n')
		if len(line) > 1 {
			n++
			if n > *skip {
				var c Case
				if e := json.Unmarshal(line, &c); e != nil {
					fmt.Fprintln(os.Stderr, "bad case:", e)
					os.Exit(3)
				}
				h, ok := handlers[c.K]
				if !ok {
					fmt.Fprintln(os.Stderr, "unknown case kind:", c.K)
					os.Exit(3)
				}
				sem <- struct{}{}
				wg.Add(1)
				go func() {
					defer func() { <-sem; wg.Done() }()
					ev := guard(time.Duration(*limit)*time.Second, func() M { return h(line) })
					ev["id"], ev["k"] = c.ID, c.K
					b, e := json.Marshal(ev)
					if e != nil {
						fmt.Fprintln(os.Stderr, "marshal:", e)
						os.Exit(3)
					}
					mu.Lock()
					_, e = fo.Write(append(b, '\n'))
					if ev["out"] == "hang" {
						if hangs++; hangs >= 4 {
							os.Exit(4) // the rest would take too long
						}
					}
					mu.Unlock()
					if e != nil {
						fmt.Fprintln(os.Stderr, "write:", e)
						os.Exit(3)
					}
				}()
				if *par == 1 {
					wg.Wait()
				}
			}
		}
		if err != nil {
			break
		}
	}
	wg.Wait()
	if err := fo.Close(); err != nil {
		os.Exit(3)
	}
}
