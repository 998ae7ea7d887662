package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"image"
	"image/color"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/compressed"
	"github.com/yeqown/go-qrcode/writer/file"
	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/shapes"
)

// saveJob is one Save of a set that run at the same time.
type saveJob struct {
	Sym   int      `json:"sym"`
	Kind  string   `json:"kind"` // std comp file custom
	Opts  []imgOpt `json:"opts"`
	Pad   int      `json:"pad"`
	Block int      `json:"block"`
	Fault bool     `json:"fault"`
}

// gate stops a Save at chosen points until the schedule lets it go on.
type gate struct {
	job    int
	events chan<- gateEvent
	rel    chan struct{}
	drawn  int32
	half   int32
}

type gateEvent struct {
	job  int
	done bool
}

func (g *gate) pass() {
	if g == nil {
		return
	}
	g.events <- gateEvent{g.job, false}
	<-g.rel
}

type gateShape struct {
	inner standard.IShape
	g     *gate
}

func (s *gateShape) at() {
	if s.g != nil && atomic.AddInt32(&s.g.drawn, 1) == s.g.half {
		s.g.pass()
	}
}
func (s *gateShape) Draw(c *standard.DrawContext)       { s.at(); s.inner.Draw(c) }
func (s *gateShape) DrawFinder(c *standard.DrawContext) { s.at(); s.inner.DrawFinder(c) }

// gatePicture stops whoever reads it, once per Save, after some pixels.
type gatePicture struct {
	image.Image
	mu    sync.Mutex
	gates map[string]*gate // by goroutine
	seen  map[string]int
}

func goid() string {
	b := make([]byte, 40)
	b = b[:runtime.Stack(b, false)]
	return string(bytes.Fields(b)[1])
}

func (p *gatePicture) At(x, y int) color.Color {
	p.mu.Lock()
	var g *gate
	if len(p.gates) > 0 {
		id := goid()
		if p.seen[id]++; p.seen[id] == 7 {
			g = p.gates[id]
		}
	}
	p.mu.Unlock()
	g.pass()
	return p.Image.At(x, y)
}

// enter makes the calling goroutine stop at g, the returned function ends that.
func (p *gatePicture) enter(g *gate) func() {
	if p == nil || g == nil {
		return func() {}
	}
	id := goid()
	p.mu.Lock()
	p.gates[id], p.seen[id] = g, 0
	p.mu.Unlock()
	return func() {
		p.mu.Lock()
		delete(p.gates, id)
		p.mu.Unlock()
	}
}

type gateSink struct {
	bytes.Buffer
	g      *gate
	fault  bool
	once   sync.Once
	closed int
	late   bool
}

func (s *gateSink) Write(p []byte) (int, error) {
	s.once.Do(s.g.pass)
	if s.closed > 0 {
		s.late = true
	}
	if s.fault {
		return 0, errInjected
	}
	return s.Buffer.Write(p)
}

func (s *gateSink) Close() error { s.g.pass(); s.closed++; return nil }

// gateWriter is a writer of the caller's own that reads the matrix in every way and spoils what it may.
type gateWriter struct {
	gateSink
	dg string
}

func (w *gateWriter) Write(mat qrcode.Matrix) error {
	d, n := mat.Width(), 0
	m := make([]int, d*d)
	mat.Iterate(qrcode.IterDirection_ROW, func(x, y int, v qrcode.QRValue) {
		if n == d*d/2 {
			w.g.pass()
		}
		n++
		m[y*d+x] = int(v)
	})
	bm := mat.Bitmap()
	for y := range bm {
		for x := range bm[y] {
			if bm[y][x] != (m[y*d+x]&1 == 1) {
				m[0] = -2
			}
			bm[y][x] = !bm[y][x]
		}
	}
	row := mat.Row(d / 2)
	for i := range row {
		row[i] ^= 1
	}
	w.g.pass()
	col := mat.Col(d / 3)
	for y, v := range col {
		if int(v) != m[y*d+d/3] {
			m[0] = -3
		}
	}
	w.dg = digestInts(m)
	if w.fault {
		return errInjected
	}
	return nil
}

func digestInts(m []int) string {
	b := make([]byte, len(m))
	for i, x := range m {
		b[i] = byte(x)
	}
	return digestBytes(b)
}

func digestBytes(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:])[:16]
}

func stdOptions(l []imgOpt) []standard.ImageOption {
	r := []standard.ImageOption{}
	for _, o := range l {
		if o.O != "shape" && o.O != "halftone" {
			r = append(r, imgOption(o, nil, ""))
		}
	}
	return r
}

// run performs the Save and tells what came out.
func (j saveJob) run(q *qrcode.QRCode, g *gate, shared []standard.ImageOption, shape standard.IShape, pic *gatePicture) M {
	res := func(got string, err error, closed int, late bool) M {
		code := 0
		if err != nil {
			code = 2
			if errors.Is(err, errInjected) {
				code = 1
			}
		}
		return M{"got": got, "err": code, "closes": closed, "late": late}
	}
	switch j.Kind {
	case "std":
		if shared == nil {
			shared = stdOptions(j.Opts)
		}
		opts := append([]standard.ImageOption{}, shared...)
		for _, o := range j.Opts {
			if o.O == "shape" {
				if shape == nil {
					shape = shapes.Assemble(finderShape(o.X), blockShape(o.Y, o.N))
				}
				opts = append(opts, standard.WithCustomShape(&gateShape{shape, g}))
			}
			if o.O == "halftone" {
				switch {
				case o.T == "plain":
					opts = append(opts, standard.WithHalftoneImage(plainPicture(o)))
				case pic != nil:
					opts = append(opts, standard.WithHalftoneImage(pic))
					defer pic.enter(g)()
				default:
					opts = append(opts, standard.WithHalftoneImage(&gatePicture{Image: halfPicture(o)}))
				}
			}
		}
		if g != nil {
			g.half = int32(q.Dimension() * q.Dimension() / 2)
		}
		s := &gateSink{g: g, fault: j.Fault}
		err := q.Save(standard.NewWithWriter(s, opts...))
		return res(digestBytes(s.Bytes()), err, s.closed, s.late)
	case "comp":
		s := &gateSink{g: g, fault: j.Fault}
		err := q.Save(compressed.NewWithWriter(s, &compressed.Option{Padding: j.Pad, BlockSize: j.Block}))
		return res(digestBytes(s.Bytes()), err, s.closed, s.late)
	case "file":
		f, err := os.CreateTemp("", "conc")
		must(err)
		defer os.Remove(f.Name())
		defer f.Close()
		err = q.Save(file.New(f))
		b, e := os.ReadFile(f.Name())
		must(e)
		return res(digestBytes(b), err, 1, false)
	}
	w := &gateWriter{gateSink: gateSink{g: g, fault: j.Fault}}
	err := q.Save(w)
	return res(w.dg, err, w.closed, false)
}

var plainPics sync.Map

// plainPicture is the same picture object whenever the same one is asked for.
func plainPicture(o imgOpt) image.Image {
	b, _ := json.Marshal(o)
	p, _ := plainPics.LoadOrStore(string(b), halfPicture(o))
	return p.(image.Image)
}

type concCase struct {
	Syms  []Req     `json:"syms"`
	Jobs  []saveJob `json:"jobs"`
	Sched []int     `json:"sched"` // jobs, 1-based, in the order in which they advance
	Share bool      `json:"share"`
	G     int       `json:"g"`
	Procs int       `json:"procs"`
}

func (c concCase) prepare() (qs []*qrcode.QRCode, dgs []string, shared [][]standard.ImageOption, shapeOf []standard.IShape, pics []*gatePicture, ok bool) {
	for _, r := range c.Syms {
		q, err := construct(r)
		if err != nil || q == nil {
			return
		}
		m := observe(q)
		qs, dgs = append(qs, q), append(dgs, digestInts(m["m"].([]int)))
	}
	shared, shapeOf = make([][]standard.ImageOption, len(c.Jobs)), make([]standard.IShape, len(c.Jobs))
	pics = make([]*gatePicture, len(c.Jobs))
	if c.Share { // jobs with the same options use the very same option values
		byKey, shapeBy, picBy := map[string][]standard.ImageOption{}, map[string]standard.IShape{}, map[string]*gatePicture{}
		for i, j := range c.Jobs {
			if j.Kind != "std" {
				continue
			}
			b, _ := json.Marshal(j.Opts)
			if byKey[string(b)] == nil {
				byKey[string(b)] = append([]standard.ImageOption{}, stdOptions(j.Opts)...)
				for _, o := range j.Opts {
					if o.O == "shape" {
						shapeBy[string(b)] = shapes.Assemble(finderShape(o.X), blockShape(o.Y, o.N))
					}
					if o.O == "halftone" && o.T != "plain" {
						picBy[string(b)] = &gatePicture{Image: halfPicture(o), gates: map[string]*gate{}, seen: map[string]int{}}
					}
				}
			}
			shared[i], shapeOf[i], pics[i] = byKey[string(b)], shapeBy[string(b)], picBy[string(b)]
		}
	}
	return qs, dgs, shared, shapeOf, pics, true
}

func init() {
	handlers["concsave"] = func(b json.RawMessage) M {
		var c concCase
		must(json.Unmarshal(b, &c))
		return catch(func() M {
			qs, dgs, shared, shapeOf, pics, ok := c.prepare()
			if !ok {
				return M{"out": "err"}
			}
			alone := func() (r []M) {
				for _, j := range c.Jobs {
					j.Fault = false
					r = append(r, j.run(qs[j.Sym], nil, nil, nil, nil))
				}
				return
			}
			before := alone()
			n := len(c.Jobs)
			events := make(chan gateEvent, 4*n)
			gates := make([]*gate, n)
			got := make([]M, n)
			state := make([]string, n) // "" not started, run, gate, done
			left := n
			take := func(e gateEvent) {
				state[e.job] = "gate"
				if e.done {
					state[e.job] = "done"
					left--
				}
			}
			steps := 0
			advance := func(k int, wait time.Duration) {
				for drained := false; !drained; {
					select {
					case e := <-events:
						take(e)
					default:
						drained = true
					}
				}
				switch state[k] {
				case "":
					gates[k] = &gate{job: k, events: events, rel: make(chan struct{})}
					state[k] = "run"
					go func() {
						defer func() {
							if r := recover(); r != nil {
								got[k] = M{"got": "panic", "err": 3, "closes": 0, "late": false}
							}
							events <- gateEvent{k, true}
						}()
						j := c.Jobs[k]
						got[k] = j.run(qs[j.Sym], gates[k], shared[k], shapeOf[k], pics[k])
					}()
				case "gate":
					state[k] = "run"
					gates[k].rel <- struct{}{}
				default:
					return
				}
				steps++
				t := time.NewTimer(wait)
				defer t.Stop()
				for state[k] == "run" {
					select {
					case e := <-events:
						take(e)
					case <-t.C: // it waits for another one, or is slow: go on
						return
					}
				}
			}
			for _, k := range c.Sched {
				if k >= 1 && k <= n {
					advance(k-1, 1500*time.Millisecond)
				}
			}
			deadline := time.Now().Add(40 * time.Second)
			for left > 0 && time.Now().Before(deadline) {
				for k := range state {
					advance(k, 200*time.Millisecond)
				}
				select {
				case e := <-events:
					take(e)
				case <-time.After(20 * time.Millisecond):
				}
			}
			if left > 0 {
				return M{"out": "hang"}
			}
			after := alone()
			jobs := []M{}
			for k, j := range c.Jobs {
				jobs = append(jobs, M{"kind": j.Kind, "fault": j.Fault, "dg": dgs[j.Sym], "alone": []interface{}{before[k]["got"], before[k]["err"], before[k]["closes"]},
					"obs": got[k], "after": after[k]["got"]})
			}
			return M{"out": "ok", "jobs": jobs, "steps": steps}
		})
	}

	// all jobs at once from several goroutines, unscheduled
	handlers["concfree"] = func(b json.RawMessage) M {
		var c concCase
		must(json.Unmarshal(b, &c))
		if c.Procs > 0 {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
		}
		return catch(func() M {
			qs, dgs, shared, shapeOf, pics, ok := c.prepare()
			if !ok {
				return M{"out": "err"}
			}
			obs := make([][]M, c.G)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for g := 0; g < c.G; g++ {
				wg.Add(1)
				obs[g] = make([]M, len(c.Jobs))
				go func(g int) {
					defer wg.Done()
					<-start
					for i := range c.Jobs {
						k := (i + g) % len(c.Jobs)
						func() {
							defer func() {
								if r := recover(); r != nil {
									obs[g][k] = M{"got": "panic", "err": 3, "closes": 0, "late": false}
								}
							}()
							obs[g][k] = c.Jobs[k].run(qs[c.Jobs[k].Sym], nil, shared[k], shapeOf[k], pics[k])
						}()
					}
				}(g)
			}
			close(start)
			wg.Wait()
			jobs := []M{}
			for k, j := range c.Jobs {
				plain := j
				plain.Fault = false
				alone := plain.run(qs[j.Sym], nil, nil, nil, nil)
				for g := range obs {
					jobs = append(jobs, M{"kind": j.Kind, "fault": j.Fault, "dg": dgs[j.Sym], "alone": []interface{}{alone["got"], alone["err"], alone["closes"]},
						"obs": obs[g][k], "after": alone["got"]})
				}
			}
			return M{"out": "ok", "jobs": jobs, "steps": 0}
		})
	}
}
