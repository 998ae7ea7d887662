package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"image"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"syscall"
	"time"
)

// wasmArg is one argument of a JavaScript call: a text, an option object, or something odd.
type wasmArg struct {
	Raw []int                  `json:"raw"`
	Obj map[string]interface{} `json:"obj"`
	Odd string                 `json:"odd"`
}

type wasmResult struct {
	Shape   string  `json:"shape"`
	Success bool    `json:"success"`
	Bool    bool    `json:"bool"`
	Error   int     `json:"error"`
	Pic     *string `json:"pic"`
}

func (a wasmArg) event() M {
	switch {
	case a.Odd != "":
		return M{"t": "odd", "odd": a.Odd}
	case a.Obj != nil:
		l := []M{}
		keys := []string{}
		for k := range a.Obj {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			o := M{"f": k, "t": "odd", "n": 0, "s": []int{}}
			switch v := a.Obj[k].(type) {
			case float64:
				o["t"] = "num"
				switch w := math.Max(-2e9, math.Min(2e9, v)); {
				case v > 1e15 || v < -1e15 || v != math.Trunc(v):
					o["t"] = "odd"
				default:
					o["n"] = int(w)
				}
			case string:
				o["t"], o["s"] = "str", hexCodes(v)
			case bool:
				o["t"] = "bool"
				if v {
					o["n"] = 1
				}
			case nil:
				o["t"] = "missing"
			}
			l = append(l, o)
		}
		return M{"t": "obj", "obj": l}
	}
	return M{"t": "text", "raw": rawOrEmpty(a.Raw)}
}

func init() {
	handlers["wasm"] = func(b json.RawMessage) M {
		var c struct {
			Calls []struct {
				Args []wasmArg `json:"args"`
			} `json:"calls"`
		}
		must(json.Unmarshal(b, &c))
		dir, err := os.MkdirTemp("", "wasm")
		must(err)
		defer os.RemoveAll(dir)
		in, out := filepath.Join(dir, "case.json"), filepath.Join(dir, "result.json")
		must(os.WriteFile(in, b, 0o644))
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, "node", os.Getenv("VERIF_WASM_RUN"), os.Getenv("VERIF_WASM_EXEC"), os.Getenv("VERIF_WASM"), in, out)
		cmd.Dir = dir
		cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Pdeathsig: syscall.SIGKILL}
		cmd.Run() // the module may end the process; what counts is the results written
		res := []wasmResult{}
		if data, err := os.ReadFile(out); err == nil {
			must(json.Unmarshal(data, &res))
		}
		calls := []M{}
		for i, k := range c.Calls {
			args := []M{}
			for _, a := range k.Args {
				args = append(args, a.event())
			}
			ev := M{"args": args, "shape": "none", "success": false, "bool": false, "error": -1, "fmt": ""}
			if i < len(res) {
				r := res[i]
				ev["shape"], ev["success"], ev["bool"], ev["error"] = r.Shape, r.Success, r.Bool, r.Error
				if r.Pic != nil && r.Success {
					if data, err := base64.StdEncoding.DecodeString(*r.Pic); err == nil {
						if img, format, err := image.Decode(bytes.NewReader(data)); err == nil {
							ev["fmt"] = format
							if format == "png" {
								ev["pic"] = rasterOf(img).runs()
							} else {
								ev["pic"] = threshold(img).runs()
							}
						}
					}
				}
			}
			calls = append(calls, ev)
		}
		return M{"out": "ok", "calls": calls}
	}
}
