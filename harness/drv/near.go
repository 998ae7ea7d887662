package main

import (
	"encoding/json"
	"math/rand"

	qrcode "github.com/yeqown/go-qrcode/v2"
)

// Finding texts whose masks' penalties are close to each other, where the choice of the mask
// is sensitive to every part of the evaluation.  This only selects inputs; nothing is judged here.

type grid struct {
	d    int
	c    []uint8 // colours, row by row
	data []bool  // cells a mask applies to
}

func gridOf(q *qrcode.QRCode) *grid {
	var m qrcode.Matrix
	if err := q.Save(matOf(func(x qrcode.Matrix) { m = x })); err != nil {
		return nil
	}
	g := &grid{d: m.Width(), c: make([]uint8, m.Width()*m.Height()), data: make([]bool, m.Width()*m.Height())}
	m.Iterate(qrcode.IterDirection_ROW, func(x, y int, v qrcode.QRValue) {
		if v.IsSet() {
			g.c[y*g.d+x] = 1
		}
		g.data[y*g.d+x] = v.Type() == qrcode.QRType_DATA
	})
	return g
}

type matOf func(qrcode.Matrix)

func (f matOf) Write(m qrcode.Matrix) error { f(m); return nil }
func (f matOf) Close() error                { return nil }

func maskAt(k, x, y int) bool {
	switch k {
	case 0:
		return (x+y)%2 == 0
	case 1:
		return y%2 == 0
	case 2:
		return x%3 == 0
	case 3:
		return (x+y)%3 == 0
	case 4:
		return (y/2+x/3)%2 == 0
	case 5:
		return (x*y)%2+(x*y)%3 == 0
	case 6:
		return ((x*y)%2+(x*y)%3)%2 == 0
	}
	return ((x+y)%2+(x*y)%3)%2 == 0
}

// formatCells are the cells of the first copy of the format information, highest bit first.
func formatCells() (r [][2]int) {
	for _, x := range []int{0, 1, 2, 3, 4, 5, 7, 8} {
		r = append(r, [2]int{x, 8})
	}
	for _, y := range []int{7, 5, 4, 3, 2, 1, 0} {
		r = append(r, [2]int{8, y})
	}
	return r
}

func formatWord(data int) int {
	r := data << 10
	for i := 14; i >= 10; i-- {
		if r>>i&1 == 1 {
			r ^= 0x537 << (i - 10)
		}
	}
	return (data<<10 | r) ^ 0x5412
}

func (g *grid) format() int {
	w := 0
	for _, p := range formatCells() {
		w = w<<1 | int(g.c[p[1]*g.d+p[0]])
	}
	for data := 0; data < 32; data++ {
		if formatWord(data) == w {
			return data
		}
	}
	return -1
}

func (g *grid) masked(from, to, level int) *grid {
	n := &grid{d: g.d, c: append([]uint8(nil), g.c...)}
	for i, is := range g.data {
		if is && maskAt(from, i%g.d, i/g.d) != maskAt(to, i%g.d, i/g.d) {
			n.c[i] ^= 1
		}
	}
	w := formatWord(level<<3 | to)
	for i, p := range formatCells() {
		b := uint8(w >> (14 - i) & 1)
		n.c[p[1]*g.d+p[0]] = b
		if i < 7 {
			n.c[(g.d-1-i)*g.d+8] = b
		} else {
			n.c[8*g.d+g.d-15+i] = b
		}
	}
	return n
}

func (g *grid) penalty() int {
	d, s, dark := g.d, 0, 0
	line := func(at func(int) uint8) {
		run := 0
		for i := 0; i < d; i++ {
			if i > 0 && at(i) == at(i-1) {
				run++
			} else {
				run = 1
			}
			if run == 5 {
				s += 3
			} else if run > 5 {
				s++
			}
			if i >= 10 {
				w := 0
				for k := i - 10; k <= i; k++ {
					w = w<<1 | int(at(k))
				}
				if w == 0x5d0 || w == 0x05d {
					s += 40
				}
			}
		}
	}
	for k := 0; k < d; k++ {
		k := k
		line(func(i int) uint8 { return g.c[k*d+i] })
		line(func(i int) uint8 { return g.c[i*d+k] })
	}
	for y := 0; y < d; y++ {
		for x := 0; x < d; x++ {
			v := g.c[y*d+x]
			dark += int(v)
			if x+1 < d && y+1 < d && v == g.c[y*d+x+1] && v == g.c[y*d+d+x] && v == g.c[y*d+d+x+1] {
				s += 3
			}
		}
	}
	dev := 2*dark - d*d
	if dev < 0 {
		dev = -dev
	}
	return s + 10*(10*dev/(d*d)) // whole steps of five percent
}

// gap is how much higher the penalties of the other masks are, nothing if it cannot be found out.
func gap(q *qrcode.QRCode) (int, bool) {
	g := gridOf(q)
	if g == nil || g.d < 21 {
		return 0, false
	}
	f := g.format()
	if f < 0 {
		return 0, false
	}
	low := 1 << 30
	for k := 0; k < 8; k++ {
		if k == f&7 {
			continue
		}
		if p := g.masked(f&7, k, f>>3).penalty(); p < low {
			low = p
		}
	}
	return low - g.masked(f&7, f&7, f>>3).penalty(), true
}

// lowest are the masks that share the lowest penalty.
func lowest(q *qrcode.QRCode) (r []int) {
	g := gridOf(q)
	if g == nil || g.d < 21 {
		return nil
	}
	f := g.format()
	if f < 0 {
		return nil
	}
	low := 1 << 30
	for k := 0; k < 8; k++ {
		switch p := g.masked(f&7, k, f>>3).penalty(); {
		case p < low:
			low, r = p, []int{k}
		case p == low:
			r = append(r, k)
		}
	}
	return r
}

// balanced tells whether ten points more or less for the balance of one mask would change the choice, and whether
// its proportion of dark modules is just beside a multiple of five percent (2) or ten percent or more off half (1).
func balanced(q *qrcode.QRCode) int {
	g := gridOf(q)
	if g == nil || g.d < 21 {
		return 0
	}
	f := g.format()
	if f < 0 {
		return 0
	}
	var pen, dark [8]int
	for k := range pen {
		m := g.masked(f&7, k, f>>3)
		pen[k] = m.penalty()
		for _, v := range m.c {
			dark[k] += int(v)
		}
	}
	first := func() (r int) {
		for k, p := range pen {
			if p < pen[r] {
				r = k
			}
		}
		return r
	}
	kind, best, total := 0, first(), g.d*g.d
	for k := range pen {
		changes := false
		for _, by := range []int{-10, 10} {
			pen[k] += by
			changes = changes || first() != best
			pen[k] -= by
		}
		off := 20*dark[k] - 10*total
		if off < 0 {
			off = -off
		}
		beside := off % total // in twentieths of a step
		if !changes || beside == 0 {
			continue
		}
		if off > total/2 && (beside*g.d < total || (total-beside)*g.d < total) {
			kind = 2
		} else if off >= 2*total && kind == 0 {
			kind = 1
		}
	}
	return kind
}

func init() {
	// texts whose symbols have several best masks
	handlers["ties"] = func(b json.RawMessage) M {
		var c struct {
			Seed  int64 `json:"seed"`
			Tries int   `json:"tries"`
		}
		must(json.Unmarshal(b, &c))
		return catch(func() M {
			rnd := rand.New(rand.NewSource(c.Seed))
			found := []M{}
			for k := 0; k < c.Tries; k++ {
				raw, n, ec := []int{}, 1+rnd.Intn(24), 1+rnd.Intn(4)
				letters := []string{"0123456789", "ABCDEFGHIJ $%-", "abcdefghijklmnopqrstuvwxyz ,.!"}[rnd.Intn(3)]
				for len(raw) < n {
					raw = append(raw, int(letters[rnd.Intn(len(letters))]))
				}
				q, err := construct(Req{Raw: raw, Opts: []OptReq{{O: "ec", N: ec}}})
				if err != nil || q == nil {
					continue
				}
				if l := lowest(q); len(l) > 1 {
					found = append(found, M{"raw": raw, "ec": ec, "tied": l})
				}
			}
			return M{"found": found}
		})
	}
	// texts for which the balance of dark and light modules decides, close to a multiple of five percent or far from half
	handlers["balance"] = func(b json.RawMessage) M {
		var c struct {
			Seed  int64 `json:"seed"`
			Tries int   `json:"tries"`
		}
		must(json.Unmarshal(b, &c))
		return catch(func() M {
			rnd := rand.New(rand.NewSource(c.Seed))
			found := []M{}
			for k := 0; k < c.Tries; k++ {
				ec, ver := 1+rnd.Intn(4), 1+rnd.Intn(6)
				raw, part := []int{}, []int{}
				for len(part) < 1+k%3 {
					part = append(part, rnd.Intn(256))
				}
				for n := 1 + rnd.Intn([]int{7, 14, 24, 34, 44, 58}[ver-1]); len(raw) < n; {
					raw = append(raw, part[len(raw)%len(part)])
				}
				q, err := construct(Req{Raw: raw, Opts: []OptReq{{O: "ec", N: ec}, {O: "ver", N: ver}}})
				if err != nil || q == nil {
					continue
				}
				if kind := balanced(q); kind > 0 {
					found = append(found, M{"raw": raw, "ec": ec, "ver": ver, "kind": kind})
				}
			}
			return M{"found": found}
		})
	}
	handlers["near"] = func(b json.RawMessage) M {
		var c struct {
			Req
			Seed   int64 `json:"seed"`
			Tries  int   `json:"tries"`
			Enough int   `json:"enough"`
		}
		must(json.Unmarshal(b, &c))
		return catch(func() M {
			rnd := rand.New(rand.NewSource(c.Seed))
			rs := []rune(string(rawBytes(c.Raw)))
			best, bestGap, known := c.Raw, 1<<30, false
			for k := 0; k < c.Tries && bestGap > c.Enough; k++ {
				r := c.Req
				if k > 0 {
					rnd.Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
					r.Raw = []int{}
					for _, x := range []byte(string(rs)) {
						r.Raw = append(r.Raw, int(x))
					}
				}
				q, err := construct(r)
				if err != nil || q == nil {
					break
				}
				if n, ok := gap(q); ok && n < bestGap {
					best, bestGap, known = r.Raw, n, true
				}
			}
			return M{"raw": best, "gap": bestGap, "known": known}
		})
	}
}
