package main

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"sync"
	"syscall"

	qrcode "github.com/yeqown/go-qrcode/v2"
)

func dig(v interface{}) string {
	h := sha256.Sum256([]byte(fmt.Sprint(v)))
	return hex.EncodeToString(h[:])[:12]
}

type grabber struct{ mat qrcode.Matrix }

func (g *grabber) Write(m qrcode.Matrix) error { g.mat = m; return nil }
func (g *grabber) Close() error                { return nil }

// view is something a reader obtained from a matrix.
type view struct {
	kind string
	line []qrcode.QRValue
	bits [][]bool
	mat  *qrcode.Matrix
}

func valuesOf(l []qrcode.QRValue) []int {
	r := make([]int, len(l))
	for i, v := range l {
		r[i] = int(v)
	}
	return r
}

// iterate returns one number per visit: x*65536 + y*256 + value, plus 2^24 if IsSet or Type do not
// fit the value; -1 for impossible coordinates.
func iterate(m *qrcode.Matrix, row bool) []int { return iterateWith(m, row, func(int) {}) }

// iterateWith calls then after each visit.
func iterateWith(m *qrcode.Matrix, row bool, then func(n int)) []int {
	r := []int{}
	f := func(x, y int, v qrcode.QRValue) {
		code := x<<16 | y<<8 | int(v)
		if v.IsSet() != (int(v)%2 == 1) || int(v.Type()) != int(v)&^1 {
			code |= 1 << 24
		}
		if x < 0 || y < 0 || x > 255 || y > 255 {
			code = -1
		}
		r = append(r, code)
		then(len(r) - 1)
	}
	if row {
		m.Iterate(qrcode.IterDirection_ROW, f)
	} else {
		m.Iterate(qrcode.IterDirection_COLUMN, f)
	}
	return r
}

func bitsOf(b [][]bool) [][]int {
	r := [][]int{}
	for _, l := range b {
		q := []int{}
		for _, x := range l {
			if x {
				q = append(q, 1)
			} else {
				q = append(q, 0)
			}
		}
		r = append(r, q)
	}
	return r
}

func (v *view) digest() string {
	switch v.kind {
	case "row", "col":
		return dig(valuesOf(v.line))
	case "bitmap":
		return dig(v.bits)
	}
	return dig(fmt.Sprint(v.mat.Width(), v.mat.Height(), iterate(v.mat, false)))
}

type matOp struct {
	Op string `json:"op"` // row col bitmap copy iterrow itercol mutate save openrow opencol end other
	M  int    `json:"m"`  // view number of the matrix operated on (0 = the one given to the writer)
	K  int    `json:"k"`  // row/column: -2 = -1, -1 = last, 1000 = dimension, 1001 = dimension+1; else modulo
	P  int    `json:"p"`  // position to overwrite; openrow, opencol: visit in whose callback the next operations happen
}

func init() {
	handlers["matrix"] = func(b json.RawMessage) M {
		var c struct {
			Req
			Ops []matOp `json:"ops"`
		}
		must(json.Unmarshal(b, &c))
		return catch(func() M {
			q, err := construct(c.Req)
			if err != nil {
				return M{"out": "err"}
			}
			g := &grabber{}
			if err := q.Save(g); err != nil {
				return M{"out": "saveerr"}
			}
			views := []*view{{kind: "matrix", mat: &g.mat}}
			mats := []int{0}
			digests := func() []string {
				r := []string{}
				for _, v := range views {
					r = append(r, v.digest())
				}
				return r
			}
			obs := []M{{"op": "itercol", "m": 0, "seq": iterate(&g.mat, false), "w": g.mat.Width(), "h": g.mat.Height(), "dim": q.Dimension(), "dgs": digests()}}
			next, depth := 0, 0
			var run func(in int)
			run = func(in int) {
				for next < len(c.Ops) {
					o := c.Ops[next]
					if o.Op == "end" && in == 0 {
						next++
						continue
					}
					next++
					if o.Op == "end" {
						return
					}
					src := mats[o.M%len(mats)]
					m := views[src].mat
					d := m.Width()
					k := o.K
					switch {
					case k == -2:
						k = -1
					case k == -1:
						k = d - 1
					case k >= 1000:
						k = d + k - 1000
					default:
						k = k % d
					}
					ob := M{"op": o.Op, "m": src, "k": k, "view": len(views)}
					switch o.Op {
					case "row", "col":
						var l []qrcode.QRValue
						if o.Op == "row" {
							l = m.Row(k)
						} else {
							l = m.Col(k)
						}
						ob["nil"], ob["line"] = l == nil, valuesOf(l)
						views = append(views, &view{kind: o.Op, line: l})
					case "bitmap":
						t := m.Bitmap()
						ob["bits"] = bitsOf(t)
						views = append(views, &view{kind: "bitmap", bits: t})
					case "copy":
						n := m.Copy()
						ob["seq"], ob["w"], ob["h"] = iterate(n, false), n.Width(), n.Height()
						views = append(views, &view{kind: "matrix", mat: n})
						mats = append(mats, len(views)-1)
					case "iterrow":
						ob["seq"] = iterate(m, true)
					case "itercol":
						ob["seq"], ob["w"], ob["h"], ob["dim"] = iterate(m, false), m.Width(), m.Height(), q.Dimension()
					case "save":
						g2 := &grabber{}
						if err := q.Save(g2); err != nil {
							panic("driver: save failed")
						}
						views = append(views, &view{kind: "matrix", mat: &g2.mat})
						mats = append(mats, len(views)-1)
						ob["seq"], ob["w"], ob["h"] = iterate(&g2.mat, false), g2.mat.Width(), g2.mat.Height()
					case "openrow", "opencol":
						ob["dgs"] = digests()
						obs = append(obs, ob)
						row := o.Op == "openrow"
						p := o.P
						if p < 0 {
							p = 0
						}
						seq := iterateWith(m, row, func(n int) {
							if n == p%(d*d) {
								depth++
								run(depth)
								depth--
							}
						})
						ob = M{"op": "end", "m": src, "k": 0, "view": len(views), "row": row, "seq": seq, "w": m.Width(), "h": m.Height()}
					case "other":
						r := c.Req
						if len(r.Raw) > 0 {
							r.Raw = append([]int{}, r.Raw...)
							r.Raw[0] = map[bool]int{true: 49, false: 50}[r.Raw[0] == 50]
						} else {
							r.Raw = []int{49}
						}
						if q2, err := construct(r); err == nil && q2 != nil {
							_ = q2.Save(&grabber{})
						}
					case "mutate":
						// overwrite what a view returned; matrices have no way to be written through
						v := views[o.M%len(views)]
						ob["m"] = o.M % len(views)
						done := false
						switch {
						case v.kind == "row" || v.kind == "col":
							for i := range v.line {
								if o.P < 0 || i == o.P%len(v.line) {
									v.line[i] ^= 1
									done = true
								}
							}
							if v.line != nil && o.P%5 == 0 {
								_ = append(v.line, 0xff)
								_ = append(v.line[:len(v.line)/2], 0xfe, 0xfe)
							}
						case v.kind == "bitmap":
							n := 0
							for y := range v.bits {
								for x := range v.bits[y] {
									if o.P < 0 || n == o.P%(len(v.bits)*len(v.bits)) {
										v.bits[y][x] = !v.bits[y][x]
										done = true
									}
									n++
								}
							}
						}
						ob["done"] = done
					default:
						panic("driver: bad matrix op")
					}
					ob["dgs"] = digests()
					obs = append(obs, ob)
				}
			}
			run(0)
			return M{"out": "ok", "obs": obs}
		})
	}

	var errs = []error{errInjected, io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, os.ErrClosed, fs.ErrNotExist,
		syscall.EPIPE, syscall.ENOSPC, context.Canceled, fmt.Errorf("wrapped: %w", io.EOF), &os.PathError{Op: "write", Path: "x", Err: syscall.EIO},
		errors.Join(io.EOF, errInjected), emptyErr{}, os.ErrDeadlineExceeded, qrcode.ErrNotSupportCharacter}

	// a sequence of Saves of one QR code to scripted writers
	handlers["save"] = func(b json.RawMessage) M {
		var c struct {
			Req
			Saves []saveOp `json:"saves"`
		}
		must(json.Unmarshal(b, &c))
		return catch(func() M {
			q, err := construct(c.Req)
			if err != nil {
				return M{"out": "err"}
			}
			first := &capture{}
			if q.Save(first) != nil || first.mat == nil {
				return M{"out": "saveerr"}
			}
			r := c.Req // another text, often giving a symbol of the same size
			r.Raw = append([]int{}, r.Raw...)
			for i := range r.Raw {
				r.Raw[i] ^= 1
			}
			other, _ := construct(r)
			log := &[]M{}
			ws := map[int]*scripted{}
			for _, s := range c.Saves {
				*log = append(*log, M{"call": "save", "w": s.W})
				var err error
				panicked := false
				if s.W == 0 {
					err = q.Save(nil)
				} else {
					w := ws[s.W]
					if w == nil {
						w = &scripted{id: s.W, log: log, q: q}
						ws[s.W] = w
					}
					w.werr, w.cerr, w.nest, w.scribble = nil, nil, s.Nest, s.Scribble
					w.boom = s.Werr == len(errs)+1
					if s.Werr > 0 {
						w.werr = errs[(s.Werr-1)%len(errs)]
					}
					if s.Cerr > 0 {
						w.cerr = errs[(s.Cerr-1)%len(errs)]
					}
					func() {
						defer func() {
							if r := recover(); r != nil {
								if _, mine := r.(boom); !mine {
									panic(r)
								}
								panicked = true
							}
						}()
						switch {
						case s.W%3 == 2:
							err = q.Save(holder{w, nil})
						case s.W >= 3: // a writer that is itself a nil pointer or a nil map
							ghosts.Lock()
							defer ghosts.Unlock()
							ghostly = w
							if s.W == 3 {
								err = q.Save((*ghost)(nil))
							} else {
								err = q.Save(ghostMap(nil))
							}
						default:
							err = q.Save(w)
						}
					}()
				}
				if other != nil && s.Other {
					_ = other.Save(&capture{})
				}
				res := -1
				if panicked {
					res = -2
				} else if err == nil {
					res = 0
				} else {
					for i, e := range errs {
						if same(err, e) {
							res = i + 1
						}
					}
				}
				*log = append(*log, M{"call": "return", "w": s.W, "res": res})
			}
			kept := []string{} // what the matrices the writers kept show now
			for _, w := range ws {
				for _, m := range w.kept {
					kept = append(kept, dig(flat(&m)))
				}
			}
			return M{"out": "ok", "dg": dig(flat(first.mat)), "kept": kept, "log": *log, "saves": c.Saves, "nerrs": len(errs)}
		})
	}
}

func same(a, b error) (r bool) {
	defer func() { recover() }() // uncomparable errors are never the same
	return a == b
}

type emptyErr struct{}

func (emptyErr) Error() string { return "" }

type saveOp struct {
	W        int  `json:"w"` // 0 = nil writer
	Werr     int  `json:"werr"`
	Cerr     int  `json:"cerr"`
	Nest     bool `json:"nest"`     // Write itself saves the QR code to another writer
	Other    bool `json:"other"`    // another QR code is saved afterwards
	Scribble bool `json:"scribble"` // Write overwrites everything the views of the matrix return
}

type scripted struct {
	id             int
	log            *[]M
	q              *qrcode.QRCode
	werr, cerr     error
	nest, scribble bool
	boom           bool // Write panics
	kept           []qrcode.Matrix
}

// boom is what a failing writer panics with.
type boom struct{}

// ghost and ghostMap are writers whose zero values work: the writer meant is kept elsewhere.
type ghost struct{}
type ghostMap map[string]int

var (
	ghosts  sync.Mutex
	ghostly *scripted
)

func (*ghost) Write(m qrcode.Matrix) error   { return ghostly.Write(m) }
func (*ghost) Close() error                  { return ghostly.Close() }
func (ghostMap) Write(m qrcode.Matrix) error { return ghostly.Write(m) }
func (ghostMap) Close() error                { return ghostly.Close() }

// holder is a writer that cannot be compared.
type holder struct {
	*scripted
	more []int
}

func (s *scripted) Write(m qrcode.Matrix) error {
	*s.log = append(*s.log, M{"call": "write", "w": s.id, "dg": dig(flat(m.Copy()))})
	if s.nest {
		in := &capture{}
		err := s.q.Save(in)
		d := ""
		if in.mat != nil {
			d = dig(flat(in.mat))
		}
		*s.log = append(*s.log, M{"call": "nested", "w": s.id, "dg": d, "good": err == nil && in.writes == 1 && in.closes == 1})
	}
	if s.scribble {
		for i := 0; i < m.Width(); i++ {
			for _, l := range [][]qrcode.QRValue{m.Row(i), m.Col(i)} {
				for k := range l {
					l[k] ^= 1
				}
			}
		}
		for _, l := range m.Bitmap() {
			for k := range l {
				l[k] = !l[k]
			}
		}
		m = *m.Copy()
	}
	s.kept = append(s.kept, m)
	if s.boom {
		panic(boom{})
	}
	return s.werr
}

func (s *scripted) Close() error {
	*s.log = append(*s.log, M{"call": "close", "w": s.id})
	return s.cerr
}
