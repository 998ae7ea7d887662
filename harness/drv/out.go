package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"image"
	"image/png"
	"io"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	termbox "github.com/nsf/termbox-go"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/compressed"
	"github.com/yeqown/go-qrcode/writer/file"
	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/terminal"
)

type sinkBuf struct {
	bytes.Buffer
	closed int
}

func (s *sinkBuf) Close() error { s.closed++; return nil }

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

var termMu sync.Mutex

var termEvents = map[string]termbox.EventType{"key": termbox.EventKey, "resize": termbox.EventResize, "mouse": termbox.EventMouse,
	"error": termbox.EventError, "interrupt": termbox.EventInterrupt, "raw": termbox.EventRaw, "none": termbox.EventNone}

// termKeys are key presses as the terminal library reports them.
var termKeys = []termbox.Event{{Ch: 'q'}, {Ch: ' '}, {Key: termbox.KeySpace}, {Key: termbox.KeyEnter}, {Key: termbox.KeyCtrlC}, {Key: termbox.KeyEsc}, {Key: termbox.KeyTab},
	{}, {Mod: termbox.ModAlt, Ch: 'x'}, {Mod: termbox.ModAlt}, {Key: termbox.KeyArrowUp}, {Key: termbox.KeyF1}, {Key: termbox.KeyBackspace2}, {Ch: 'é'}, {Ch: '\U0001f600'},
	{Key: termbox.KeyDelete}, {Key: termbox.KeyPgdn}, {Key: termbox.KeyCtrlZ}, {Key: termbox.KeyCtrlD}, {Ch: '0'}, {Mod: termbox.ModMotion, Ch: 'y'}}

// termOther are details of events that are no key presses.
var termOther = []termbox.Event{{Ch: 'q', Err: errInjected, Width: 80, Height: 24}, {}, {Key: termbox.KeyEnter}, {Key: termbox.MouseLeft, MouseX: 3, MouseY: 2},
	{Key: termbox.MouseRelease}, {Width: 1, Height: 1}, {Err: io.EOF}, {N: 3}, {Mod: termbox.ModMotion, Key: termbox.MouseLeft}, {Err: io.ErrUnexpectedEOF, Key: termbox.KeyEsc}}

func init() {
	// compressed writer, to a stream and to a file
	handlers["comp"] = func(b json.RawMessage) M {
		var c struct {
			Req
			Pad   int  `json:"pad"`
			Block int  `json:"block"`
			Prior int  `json:"prior"`
			Busy  bool `json:"busy"`
		}
		must(json.Unmarshal(b, &c))
		ev := catch(func() M {
			q, err := construct(c.Req)
			if err != nil || q == nil {
				return M{"out": "err"}
			}
			dir, err := os.MkdirTemp("", "comp")
			must(err)
			defer os.RemoveAll(dir)
			sym := observe(q)
			opt := &compressed.Option{Padding: c.Pad, BlockSize: c.Block}
			s := &sinkBuf{}
			amid(q, c.Busy, func(d *qrcode.QRCode) {
				_ = d.Save(compressed.NewWithWriter(&sinkBuf{}, &compressed.Option{Padding: c.Pad, BlockSize: c.Block}))
			}, func() { err = q.Save(compressed.NewWithWriter(s, opt)) })
			if err != nil {
				return M{"out": "save-error"}
			}
			img, err := png.Decode(bytes.NewReader(s.Bytes()))
			if err != nil {
				return M{"out": "not-a-png"}
			}
			name := filepath.Join(dir, "out.png")
			if c.Prior > 0 {
				must(os.WriteFile(name, bytes.Repeat([]byte{0x5A}, c.Prior), 0o644))
			}
			w, err := compressed.New(name, opt)
			if err != nil {
				return M{"out": "create-error"}
			}
			if err := q.Save(w); err != nil {
				return M{"out": "save-error"}
			}
			fb, err := os.ReadFile(name)
			must(err)
			fimg, err := png.Decode(bytes.NewReader(fb))
			if err != nil {
				return M{"out": "file-not-a-png"}
			}
			r, fr := rasterOf(img), rasterOf(fimg)
			return M{"out": "ok", "d": sym["w"], "m": sym["m"], "pic": r.runs(), "same": r.digest() == fr.digest(),
				"opt": []int{opt.Padding, opt.BlockSize}}
		})
		ev["pad"], ev["block"] = c.Pad, c.Block
		return ev
	}

	// histories of one text file: saves of several symbols, the caller's own writes and seeks
	handlers["text"] = func(b json.RawMessage) M {
		var c struct {
			Syms  []Req `json:"syms"`
			Prior []int `json:"prior"`
			Flag  int   `json:"flag"` // 0 read-write, 1 append, 2 read-only
			Ops   []struct {
				Op string `json:"op"` // save write seek close nil
				N  int    `json:"n"`
			} `json:"ops"`
		}
		must(json.Unmarshal(b, &c))
		ev := catch(func() M {
			dir, err := os.MkdirTemp("", "text")
			must(err)
			defer os.RemoveAll(dir)
			name := filepath.Join(dir, "out.txt")
			must(os.WriteFile(name, rawBytes(c.Prior), 0o644))
			f, err := os.OpenFile(name, []int{os.O_RDWR, os.O_RDWR | os.O_APPEND, os.O_RDONLY}[c.Flag], 0o644)
			must(err)
			qs := []*qrcode.QRCode{}
			syms := []M{}
			for _, r := range c.Syms {
				q, err := construct(r)
				if err != nil {
					return M{"out": "err"}
				}
				s := observe(q)
				qs = append(qs, q)
				syms = append(syms, M{"d": s["w"], "m": s["m"]})
			}
			obs := []M{}
			w := file.New(f)
			if len(qs) > 0 {
				if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
					defer null.Close()
					amid(qs[0], false, func(d *qrcode.QRCode) { _ = d.Save(file.New(null)) }, func() {})
				}
			}
			for _, o := range c.Ops {
				ob := M{"op": o.Op, "n": o.N}
				switch o.Op {
				case "save":
					ob["err"] = qs[o.N].Save(w) != nil
				case "save2": // another writer for the same file
					ob["op"] = "save"
					ob["err"] = qs[o.N].Save(file.New(f)) != nil
				case "nil":
					ob["err"] = qs[o.N].Save(file.New(nil)) != nil
				case "write":
					_, err := f.Write([]byte(strings.Repeat("#", o.N)))
					ob["err"] = err != nil
				case "seek":
					_, err := f.Seek(int64(o.N), io.SeekStart)
					ob["err"] = err != nil
				case "close":
					ob["err"] = f.Close() != nil
				}
				got, err := os.ReadFile(name)
				must(err)
				ob["got"] = ints(got)
				obs = append(obs, ob)
			}
			f.Close()
			return M{"out": "ok", "syms": syms, "obs": obs}
		})
		ev["prior"], ev["flag"] = orEmptyI(c.Prior), c.Flag
		return ev
	}

	// terminal writer on the in-memory terminal
	handlers["term"] = func(b json.RawMessage) M {
		var c struct {
			Req
			Events []string `json:"events"`
			Kinds  []int    `json:"kinds"` // details of the events
			Flush  bool     `json:"flush"` // the flush fails
			Cols   int      `json:"cols"`
			Rows   int      `json:"rows"`
		}
		must(json.Unmarshal(b, &c))
		termMu.Lock()
		defer termMu.Unlock()
		ev := catch(func() M {
			q, err := construct(c.Req)
			if err != nil || q == nil {
				return M{"out": "err"}
			}
			sym := observe(q)
			if d := decoyOf(q, 1); d != nil {
				termbox.Rec = termbox.NewSized(c.Cols, c.Rows)
				termbox.Rec.Events = []termbox.Event{{Type: termbox.EventKey, Ch: 'q'}}
				_ = d.Save(terminal.New())
			}
			rec := termbox.NewSized(c.Cols, c.Rows)
			termbox.Rec = rec
			for i, e := range c.Events {
				k := 0
				if i < len(c.Kinds) {
					k = c.Kinds[i]
				}
				x := termOther[k%len(termOther)]
				if e == "key" {
					x = termKeys[k%len(termKeys)]
				}
				x.Type = termEvents[e]
				rec.Events = append(rec.Events, x)
			}
			if c.Flush {
				rec.FlushErr = errInjected
			}
			w := terminal.New()
			out := "ok"
			err = func() (err error) {
				defer func() {
					if r := recover(); r != nil {
						if r != termbox.ErrOverPoll {
							panic(r)
						}
						out = "waits" // still waiting for a key after the last event
					}
				}()
				return q.Save(w)
			}()
			cells := [][]int{}
			for _, s := range [][]termbox.Cell{rec.Flushed, rec.Screen} {
				if s == nil {
					continue
				}
				for p, x := range rec.Cells(s) {
					cells = append(cells, []int{p.X, p.Y, int(x.Ch), int(x.Fg), int(x.Bg)})
				}
				break
			}
			late := rec.Flushed != nil && !slices.Equal(rec.Flushed, rec.Screen)
			return M{"out": out, "d": sym["w"], "m": sym["m"], "calls": rec.Calls, "cells": cells, "late": late,
				"left": len(rec.Events), "err": err != nil, "same": err == errInjected}
		})
		ev["events"], ev["flush"], ev["cols"], ev["rows"] = c.Events, c.Flush, c.Cols, c.Rows
		if ev["events"] == nil || len(c.Events) == 0 {
			ev["events"] = []string{}
		}
		return ev
	}
	initSink()
}

// faulty is a stream whose k-th write fails.
type faulty struct {
	n, k   int
	mode   string // zero: nothing written; short: half written; all: everything written, and an error
	failed bool
	err    error
}

func (f *faulty) Write(p []byte) (int, error) {
	f.n++
	if f.n != f.k && !(f.failed && f.mode == "sticky") {
		return len(p), nil
	}
	f.failed = true
	switch f.mode {
	case "short":
		return len(p) / 2, f.err
	case "all":
		return len(p), f.err
	}
	return 0, f.err
}
func (f *faulty) Close() error { return nil }

type failingEncoder struct{ err error }

func (f failingEncoder) Encode(w io.Writer, _ image.Image) error {
	_, _ = w.Write([]byte("half a picture"))
	return f.err
}

var sinkErrs = []error{errInjected, io.EOF, io.ErrShortWrite, syscall.ENOSPC, syscall.EPIPE, os.ErrClosed, fmt.Errorf("wrapped: %w", syscall.EIO), io.ErrUnexpectedEOF, io.ErrClosedPipe}

// memFile is an anonymous file that cannot grow beyond size bytes.
func memFile(size int64, sealed bool) (*os.File, error) {
	name := []byte("sink\x00")
	fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 3, 0) // memfd_create, CLOEXEC | ALLOW_SEALING
	if e != 0 {
		return nil, e
	}
	f := os.NewFile(fd, "sink")
	if err := f.Truncate(size); err != nil {
		return nil, err
	}
	if sealed {
		if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, fd, 1033, 4); e != 0 { // F_ADD_SEALS, F_SEAL_GROW
			return nil, e
		}
	}
	return f, nil
}

// writerFor makes a built-in writer of the given kind on a stream.
func writerFor(kind string, s io.WriteCloser) qrcode.Writer {
	switch kind {
	case "jpeg":
		return standard.NewWithWriter(s, standard.WithQRWidth(4))
	case "png":
		return standard.NewWithWriter(s, standard.WithQRWidth(4), standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
	case "comp":
		return compressed.NewWithWriter(s, &compressed.Option{Padding: 3, BlockSize: 2})
	}
	panic("driver: bad writer kind " + kind)
}

func fileWriterFor(kind, name string) (qrcode.Writer, error) {
	switch kind {
	case "jpeg":
		return standard.New(name, standard.WithQRWidth(4))
	case "png":
		return standard.New(name, standard.WithQRWidth(4), standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
	case "comp":
		return compressed.New(name, &compressed.Option{Padding: 3, BlockSize: 2})
	}
	panic("driver: bad writer kind " + kind)
}

func openOn(name string) int {
	n := 0
	if real, err := filepath.EvalSymlinks(name); err == nil {
		name = real
	}
	ents, err := os.ReadDir("/proc/self/fd")
	must(err)
	for _, e := range ents {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && t == name {
			n++
		}
	}
	return n
}

func initSink() {
	// every write of a built-in writer fails once, in the given way; then every size of a file that cannot grow
	handlers["sink"] = func(b json.RawMessage) M {
		var c struct {
			Req
			Kind string `json:"kind"` // jpeg png comp text
			Sink string `json:"sink"` // stream file
			Mode string `json:"mode"`
			Err  int    `json:"err"`
			Max  int    `json:"max"` // at most that many places
		}
		must(json.Unmarshal(b, &c))
		ev := catch(func() M {
			q, err := construct(c.Req)
			if err != nil || q == nil {
				return M{"out": "err"}
			}
			obs := []M{}
			if c.Sink == "stream" {
				good := &faulty{k: -1}
				obs = append(obs, M{"at": 0, "failed": false, "err": q.Save(writerFor(c.Kind, good)) != nil})
				step := 1
				if c.Max > 0 && good.n > c.Max {
					step = good.n/c.Max + 1
				}
				for k := 1; k <= good.n; k++ {
					if k%step != 0 && k > 6 && k < good.n-3 {
						continue
					}
					f := &faulty{k: k, mode: c.Mode, err: sinkErrs[c.Err%len(sinkErrs)]}
					err := q.Save(writerFor(c.Kind, f))
					obs = append(obs, M{"at": k, "failed": f.failed, "err": err != nil})
				}
				return M{"out": "ok", "obs": obs, "writes": good.n}
			}
			// an anonymous file that takes the first bytes only
			mk := func(f *os.File) qrcode.Writer {
				if c.Kind == "text" {
					return file.New(f)
				}
				return writerFor(c.Kind, f)
			}
			f, err := memFile(0, false)
			if err != nil {
				return M{"out": "ok", "obs": obs, "writes": 0}
			}
			dup, err := syscall.Dup(int(f.Fd()))
			must(err)
			df := os.NewFile(uintptr(dup), "dup")
			obs = append(obs, M{"at": 0, "failed": false, "err": q.Save(mk(f)) != nil})
			st, err := df.Stat()
			must(err)
			df.Close()
			f.Close()
			size := int(st.Size())
			at := []int{0, 1, size - 1, size - 2, size, size / 2}
			n := c.Max
			for i := 1; i < n; i++ {
				at = append(at, size*i/n+i%3)
			}
			for i := 3; i < size && i < 1200; i += 1 + i/2 {
				at = append(at, size-i) // most of them inside the last line of a text
			}
			for _, s := range at {
				if s < 0 || s > size {
					continue
				}
				for _, part := range []int{0, 1, 5} {
					// where the file takes part of a write: the bytes up to a page boundary, just before its limit
					off := 0
					if part > 0 && s > part {
						off = 8192 - (s-part)%4096
					}
					f, err := memFile(int64(off+s), true)
					must(err)
					_, err = f.Seek(int64(off), io.SeekStart)
					must(err)
					err = q.Save(mk(f))
					f.Close()
					obs = append(obs, M{"at": s, "failed": s < size, "err": err != nil})
				}
			}
			return M{"out": "ok", "obs": obs, "writes": size}
		})
		return ev
	}

	// sinks that fail in other ways
	handlers["sinkother"] = func(b json.RawMessage) M {
		var c struct {
			Req
			What string `json:"what"`
			Kind string `json:"kind"`
			Err  int    `json:"err"`
		}
		must(json.Unmarshal(b, &c))
		ev := catch(func() M {
			q, err := construct(c.Req)
			if err != nil || q == nil {
				return M{"out": "err"}
			}
			dir, err := os.MkdirTemp("", "sink")
			must(err)
			defer os.RemoveAll(dir)
			one := func(failed bool, err error) M {
				return M{"out": "ok", "obs": []M{{"at": 0, "failed": failed, "err": err != nil}}, "writes": 1}
			}
			create := func(name string) M {
				_, err := fileWriterFor(c.Kind, name)
				return one(true, err)
			}
			must(os.WriteFile(filepath.Join(dir, "plain"), []byte("x"), 0o644))
			switch c.What {
			case "encoder":
				return one(true, q.Save(standard.NewWithWriter(&sinkBuf{}, standard.WithCustomImageEncoder(failingEncoder{sinkErrs[c.Err%len(sinkErrs)]}))))
			case "encoder-ok":
				return one(false, q.Save(standard.NewWithWriter(&sinkBuf{}, standard.WithCustomImageEncoder(failingEncoder{nil}))))
			case "full":
				w, err := fileWriterFor(c.Kind, "/dev/full")
				if err != nil {
					return one(true, err)
				}
				return one(true, q.Save(w))
			case "twice": // the file has been closed by the first Save
				w, err := fileWriterFor(c.Kind, filepath.Join(dir, "out"))
				must(err)
				if err := q.Save(w); err != nil {
					return one(false, err)
				}
				return one(true, q.Save(w))
			case "nodir":
				return create(filepath.Join(dir, "missing", "out.png"))
			case "isdir":
				return create(dir)
			case "empty":
				return create("")
			case "underfile":
				return create(filepath.Join(dir, "plain", "out.png"))
			case "long":
				return create(filepath.Join(dir, strings.Repeat("n", 300)))
			case "nul":
				return create(filepath.Join(dir, "a\x00b"))
			case "loop":
				must(os.Symlink(filepath.Join(dir, "loop"), filepath.Join(dir, "loop")))
				return create(filepath.Join(dir, "loop"))
			case "textfull":
				f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
				must(err)
				defer f.Close()
				return one(true, q.Save(file.New(f)))
			case "textreadonly":
				f, err := os.Open(filepath.Join(dir, "plain"))
				must(err)
				defer f.Close()
				return one(true, q.Save(file.New(f)))
			case "textclosed":
				f, err := os.Create(filepath.Join(dir, "out.txt"))
				must(err)
				f.Close()
				return one(true, q.Save(file.New(f)))
			case "textpipe":
				r, w, err := os.Pipe()
				must(err)
				r.Close()
				defer w.Close()
				return one(true, q.Save(file.New(w)))
			case "textnil":
				return one(true, q.Save(file.New(nil)))
			case "pipe":
				r, w, err := os.Pipe()
				must(err)
				r.Close()
				return one(true, q.Save(writerFor(c.Kind, w)))
			}
			panic("driver: bad sink " + c.What)
		})
		return ev
	}

	// histories of output files
	handlers["store"] = func(b json.RawMessage) M {
		var c struct {
			Syms []Req `json:"syms"`
			Ops  []struct {
				Op   string `json:"op"` // put remove hard sym save
				F    int    `json:"f"`
				Kind string `json:"kind"`
				Sym  int    `json:"sym"`
				P    int    `json:"p"`   // half, logo: the name of the picture
				Len  string `json:"len"` // put: length relative to what the next save will write
			} `json:"ops"`
		}
		must(json.Unmarshal(b, &c))
		ev := catch(func() M {
			dir, err := os.MkdirTemp("", "store")
			must(err)
			defer os.RemoveAll(dir)
			qs := []*qrcode.QRCode{}
			for _, r := range c.Syms {
				q, err := construct(r)
				if err != nil {
					return M{"out": "err"}
				}
				qs = append(qs, q)
			}
			nameOf := func(f int) string { return filepath.Join(dir, fmt.Sprint("file", f, ".png")) }
			over := func(kind string, p int) []standard.ImageOption {
				if kind == "half" {
					return []standard.ImageOption{standard.WithQRWidth(3), standard.WithBuiltinImageEncoder(standard.PNG_FORMAT), standard.WithHalftone(nameOf(p))}
				}
				return []standard.ImageOption{standard.WithQRWidth(14), standard.WithBuiltinImageEncoder(standard.PNG_FORMAT), standard.WithLogoSizeMultiplier(1),
					standard.WithLogoImageFilePNG(nameOf(p))}
			}
			stream := func(kind string, sym, p int) []byte {
				s := &sinkBuf{}
				if kind == "half" || kind == "logo" {
					must(qs[sym].Save(standard.NewWithWriter(s, over(kind, p)...)))
				} else {
					must(qs[sym].Save(writerFor(kind, s)))
				}
				return append([]byte(nil), s.Bytes()...)
			}
			obs := []M{}
			for i, o := range c.Ops {
				name, other := nameOf(o.F), nameOf(1-o.F)
				ob := M{"op": o.Op, "f": o.F, "err": false, "open": 0, "want": "", "wantlen": 0}
				switch o.Op {
				case "put":
					next := 50
					for _, p := range c.Ops[i:] {
						if p.Op == "save" && p.F == o.F {
							next = len(stream(p.Kind, p.Sym, p.P))
							break
						}
					}
					n := map[string]int{"empty": 0, "shorter": next / 2, "equal": next, "longer": 2*next + 17, "plus1": next + 1, "minus1": next - 1}[o.Len]
					data := bytes.Repeat([]byte("old content "), n/12+1)[:n]
					must(os.WriteFile(name, data, 0o644))
					ob["want"], ob["wantlen"] = dig(data), len(data)
				case "remove":
					os.Remove(name)
				case "hard":
					os.Remove(name)
					must(os.Link(other, name))
				case "sym":
					os.Remove(name)
					must(os.Symlink(other, name))
				case "save":
					s := stream(o.Kind, o.Sym, o.P)
					var w qrcode.Writer
					var err error
					if o.Kind == "half" || o.Kind == "logo" {
						w, err = standard.New(name, over(o.Kind, o.P)...)
					} else {
						w, err = fileWriterFor(o.Kind, name)
					}
					if err == nil {
						err = qs[o.Sym].Save(w)
					}
					ob["err"] = err != nil
					ob["want"], ob["wantlen"] = dig(s), len(s)
					ob["open"] = openOn(name)
				}
				got := []M{}
				for f := 0; f < 2; f++ {
					x, err := os.ReadFile(nameOf(f))
					if errors.Is(err, os.ErrNotExist) {
						got = append(got, M{"dg": "", "len": -1})
					} else {
						must(err)
						got = append(got, M{"dg": dig(x), "len": len(x)})
					}
				}
				ob["files"] = got
				obs = append(obs, ob)
			}
			return M{"out": "ok", "obs": obs}
		})
		return ev
	}
}
