package main

import (
	"encoding/json"

	qrcode "github.com/yeqown/go-qrcode/v2"
)

// Req is a request for a symbol.
type Req struct {
	Raw  []int    `json:"raw"`  // bytes of the text
	As   string   `json:"as"`   // representation: "" or "string", "bytes", "mystring", "mybytes", "aliasbytes"
	Opts []OptReq `json:"opts"` // options in order
	New  bool     `json:"new"`  // use New instead of NewWith
}

// OptReq is one encoding option.
type OptReq struct {
	O string `json:"o"` // mode ec ver min
	N int    `json:"n"`
}

// applyInt calls an option constructor whose parameter has an unexported integer type.
func optU[T ~uint](f func(T) qrcode.EncodeOption, n int) qrcode.EncodeOption { return f(T(n)) }
func optI[T ~int](f func(T) qrcode.EncodeOption, n int) qrcode.EncodeOption  { return f(T(n)) }

func option(o OptReq) qrcode.EncodeOption {
	switch o.O {
	case "mode":
		return optU(qrcode.WithEncodingMode, o.N)
	case "ec":
		return optI(qrcode.WithErrorCorrectionLevel, o.N)
	case "ver":
		return qrcode.WithVersion(o.N)
	case "min":
		return qrcode.WithMinimumVersion(o.N)
	}
	panic("driver: bad option " + o.O)
}

func options(os []OptReq) []qrcode.EncodeOption {
	r := make([]qrcode.EncodeOption, 0, len(os))
	for _, o := range os {
		r = append(r, option(o))
	}
	return r
}

func rawBytes(raw []int) []byte {
	b := make([]byte, len(raw))
	for i, x := range raw {
		b[i] = byte(x)
	}
	return b
}

type myString string
type myBytes []byte
type myString2 myString
type myElem = byte
type aliasBytes = []myElem

func construct(r Req) (*qrcode.QRCode, error) {
	b := rawBytes(r.Raw)
	opts := options(r.Opts)
	switch r.As {
	case "", "string":
		if r.New {
			return qrcode.New(string(b))
		}
		return qrcode.NewWith(string(b), opts...)
	case "bytes":
		if r.New {
			return qrcode.New(b)
		}
		return qrcode.NewWith(b, opts...)
	case "mystring":
		if r.New {
			return qrcode.New(myString(b))
		}
		return qrcode.NewWith(myString(b), opts...)
	case "mystring2":
		if r.New {
			return qrcode.New(myString2(b))
		}
		return qrcode.NewWith(myString2(b), opts...)
	case "mybytes":
		if r.New {
			return qrcode.New(myBytes(b))
		}
		return qrcode.NewWith(myBytes(b), opts...)
	case "aliasbytes":
		if r.New {
			return qrcode.New(aliasBytes(b))
		}
		return qrcode.NewWith(aliasBytes(b), opts...)
	}
	panic("driver: bad representation " + r.As)
}

// capture is a Writer that keeps the matrix it is given.
type capture struct {
	mat    *qrcode.Matrix
	writes int
	closes int
}

func (c *capture) Write(mat qrcode.Matrix) error {
	c.writes++
	c.mat = mat.Copy()
	return nil
}
func (c *capture) Close() error { c.closes++; return nil }

// flat returns the values of the matrix, row by row, by iterating it (the view writers use).
func flat(m *qrcode.Matrix) []int {
	w, h := m.Width(), m.Height()
	out := make([]int, w*h)
	for i := range out {
		out[i] = -1
	}
	m.Iterate(qrcode.IterDirection_COLUMN, func(x, y int, v qrcode.QRValue) {
		if x >= 0 && y >= 0 && x < w && y < h {
			out[y*w+x] = int(v)
		}
	})
	return out
}

func orEmpty(o []OptReq) []OptReq {
	if o == nil {
		return []OptReq{}
	}
	return o
}
func orEmptyI(o []int) []int {
	if o == nil {
		return []int{}
	}
	return o
}

// observe saves the QR code into a capturing writer.
func observe(q *qrcode.QRCode) M {
	c := &capture{}
	err := q.Save(c)
	m := M{"out": "ok", "dim": q.Dimension(), "w": 0, "h": 0, "m": []int{}, "saved": err == nil && c.writes == 1}
	if c.mat != nil {
		m["w"], m["h"], m["m"] = c.mat.Width(), c.mat.Height(), flat(c.mat)
	}
	return m
}

func (r Req) echo(ev M) M {
	ev["raw"], ev["opts"] = orEmptyI(r.Raw), orEmpty(r.Opts)
	return ev
}

// head keeps only what tells version, level, mask and first mode indicator.
func head(ev M) M {
	m, ok := ev["m"].([]int)
	d, _ := ev["w"].(int)
	if !ok || len(m) != d*d || d < 21 {
		ev["head"] = []int{}
		delete(ev, "m")
		return ev
	}
	at := func(x, y int) int { return m[y*d+x] & 1 }
	hd := []int{}
	// first copy of the format information, most significant bit first
	for _, p := range [][2]int{{0, 8}, {1, 8}, {2, 8}, {3, 8}, {4, 8}, {5, 8}, {7, 8}, {8, 8}, {8, 7}, {8, 5}, {8, 4}, {8, 3}, {8, 2}, {8, 1}, {8, 0}} {
		hd = append(hd, at(p[0], p[1]))
	}
	// modules of the first four data bits, still masked
	hd = append(hd, at(d-1, d-1), at(d-2, d-1), at(d-1, d-2), at(d-2, d-2))
	ev["head"] = hd
	delete(ev, "m")
	return ev
}

func init() {
	type symCase struct {
		Req
		Head bool  `json:"head"`
		Pre  []Req `json:"pre"` // symbols made before this one
		Mid  []Req `json:"mid"` // symbols made between its construction and its Save
	}
	others := func(l []Req) {
		for _, r := range l {
			if q, err := construct(r); err == nil && q != nil {
				observe(q)
			}
		}
	}
	handlers["sym"] = func(b json.RawMessage) M {
		var c symCase
		must(json.Unmarshal(b, &c))
		ev := catch(func() M {
			others(c.Pre)
			q, err := construct(c.Req)
			if err != nil {
				return M{"out": "err", "nilq": q == nil}
			}
			if q == nil {
				return M{"out": "nil"}
			}
			others(c.Mid)
			return observe(q)
		})
		if c.Head {
			ev = head(ev)
		}
		ev["msg"] = ""
		return c.Req.echo(ev)
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// catch converts a panic of the code under test into an event.
func catch(f func() M) (ev M) {
	defer func() {
		if r := recover(); r != nil {
			ev = M{"out": "panic"}
		}
	}()
	return f()
}
