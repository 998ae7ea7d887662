package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"io"
	"os"
	"runtime"
	"sync"
	"time"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/compressed"
	"github.com/yeqown/go-qrcode/writer/file"
	"github.com/yeqown/go-qrcode/writer/standard"
)

type nopCloser struct{ io.Writer }

func (nopCloser) Close() error { return nil }

// pictures is a digest of what the built-in writers emit for q.
func pictures(q *qrcode.QRCode) string {
	h := sha256.New()
	var b bytes.Buffer
	if err := q.Save(standard.NewWithWriter(nopCloser{&b}, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT), standard.WithQRWidth(3))); err != nil {
		return "standard:" + err.Error()
	}
	h.Write(b.Bytes())
	b.Reset()
	if err := q.Save(compressed.NewWithWriter(nopCloser{&b}, &compressed.Option{Padding: 2, BlockSize: 2})); err != nil {
		return "compressed:" + err.Error()
	}
	h.Write(b.Bytes())
	f, err := os.CreateTemp("", "pic")
	must(err)
	defer os.Remove(f.Name())
	defer f.Close()
	if err := q.Save(file.New(f)); err != nil {
		return "file:" + err.Error()
	}
	t, err := os.ReadFile(f.Name())
	must(err)
	h.Write(t)
	return hex.EncodeToString(h.Sum(nil))[:20]
}

// director imposes an order on the mask workers: the worker of rank r reports its score only after
// the worker of rank r-1 has.  Waiting is bounded, so that code without the hooks, or with another
// structure, still runs (then the order is simply not imposed).
type director struct {
	mu    sync.Mutex
	cond  *sync.Cond
	rank  [8]int
	sent  int
	waits time.Duration
	miss  int
	seen  []int
}

func newDirector(order []int, wait time.Duration) *director {
	d := &director{waits: wait}
	d.cond = sync.NewCond(&d.mu)
	for r, w := range order {
		d.rank[w] = r
	}
	return d
}

func (d *director) hook(point string, w int) {
	if w < 0 || w > 7 {
		return
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	switch point {
	case "score":
		deadline := time.Now().Add(d.waits)
		for d.sent < d.rank[w] {
			if time.Now().After(deadline) {
				d.miss++
				return
			}
			t := time.AfterFunc(d.waits, func() { d.cond.Broadcast() })
			d.cond.Wait()
			t.Stop()
		}
	case "sent":
		d.sent++
		d.seen = append(d.seen, w)
		d.cond.Broadcast()
	}
}

func init() {
	missed := 0
	// one request constructed once per imposed completion order
	handlers["sched"] = func(b json.RawMessage) M {
		var c struct {
			step
			Orders [][]int `json:"orders"`
			Procs  int     `json:"procs"`
		}
		must(json.Unmarshal(b, &c))
		if c.Procs > 0 {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
		}
		obs := []M{}
		imposed := 0
		for _, o := range append([][]int{{}}, c.Orders...) {
			wait := 20 * time.Millisecond
			if missed > 200 {
				wait = 200 * time.Microsecond
			}
			d := newDirector(o, wait)
			if len(o) == 8 {
				setHook(d.hook)
			}
			ev := runStep(c.step, options(c.Opts))
			setHook(nil)
			d.mu.Lock()
			missed += d.miss
			if len(o) == 8 && len(d.seen) == 8 && d.miss == 0 {
				imposed++
			}
			d.mu.Unlock()
			obs = append(obs, ev)
		}
		return M{"out": "ok", "obs": obs, "imposed": imposed}
	}

	// several goroutines each perform all the constructions, starting at different places
	handlers["conc"] = func(b json.RawMessage) M {
		var c struct {
			Steps []step `json:"steps"`
			G     int    `json:"g"`
			Procs int    `json:"procs"`
			Share bool   `json:"share"`
		}
		must(json.Unmarshal(b, &c))
		if c.Procs > 0 {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
		}
		shared := make([][]qrcode.EncodeOption, len(c.Steps))
		for i, s := range c.Steps {
			shared[i] = options(s.Opts)
		}
		all := make([][]M, c.G)
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for g := 0; g < c.G; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-gate
				for i := range c.Steps {
					k := (i + g) % len(c.Steps)
					o := shared[k]
					if !c.Share {
						o = options(c.Steps[k].Opts)
					}
					all[g] = append(all[g], runStep(c.Steps[k], o))
				}
			}(g)
		}
		close(gate)
		wg.Wait()
		obs := []M{}
		for _, l := range all {
			obs = append(obs, l...)
		}
		return M{"out": "ok", "obs": obs}
	}
}

var errInjected = errors.New("injected failure")
