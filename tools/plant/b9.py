S=[]
def add(**k): S.append(k)
g={}; exec(open('/tmp/exp/seed/t10.py').read(),g)
E={t[0]:t[2] for t in g['T']}
c20=open('/verif/seeded/C20-frame-after/demo.sh').read()
stub=open('/verif/seeded/C20-frame-after/stub.go.txt').read()
stub=stub.replace('Size() (int, int)                  { return 80, 25 }','Size() (int, int)                  { return Columns, 60 }').replace('// Cells are','// Columns is the width of the screen.\nvar Columns = 300\n\n// Cells are').replace('''{ Cells[[2]int{x, y}] = Cell{Ch: ch, Fg: fg, Bg: bg} }''','''{
	if x >= 0 && y >= 0 && x < Columns && y < 60 {
		Cells[[2]int{x, y}] = Cell{Ch: ch, Fg: fg, Bg: bg}
	}
}''')
assert 'Columns && y' in stub
add(id="C20-narrow-columns",prop="C20",edits=E["term-narrow"],needs="a terminal of more than 80 columns, but fewer than the symbol needs",breaks="the modules beyond the edge are painted over the last columns of the part that fits",demo_sh=c20,files={"stub.go.txt":stub,"demo_test.go.txt":'''package terminal

import (
	"testing"

	termbox "github.com/nsf/termbox-go"
	"github.com/yeqown/go-qrcode/v2"
)

func TestDemo(t *testing.T) {
	q, err := qrcode.NewWith("text", qrcode.WithVersion(10))
	if err != nil {
		t.Fatal(err)
	}
	termbox.Columns = 300
	if err := q.Save(New()); err != nil {
		t.Fatal(err)
	}
	wide := termbox.Cells
	for _, n := range []int{100, 90, 81, 60} {
		termbox.Cells, termbox.Columns = map[[2]int]termbox.Cell{}, n
		if err := q.Save(New()); err != nil {
			t.Fatal(err)
		}
		wrong := 0
		for p, c := range wide {
			if p[0] < n && termbox.Cells[p] != c {
				wrong++
			}
		}
		if wrong > 0 {
			t.Errorf("%d columns: %d cells differ", n, wrong)
		}
	}
}
'''})
HEAD='''package standard

import (
	"bytes"
	"image"
	"image/color"
	"image/png"
	"testing"

	"github.com/yeqown/go-qrcode/v2"
)

type sink struct{ bytes.Buffer }

func (s *sink) Close() error { return nil }

var _ = color.Black
var _ = png.Encode

func pic(t *testing.T, opts ...ImageOption) image.Image {
	q, err := qrcode.NewWith("text", qrcode.WithVersion(1))
	if err != nil {
		t.Fatal(err)
	}
	s := &sink{}
	if err := q.Save(NewWithWriter(s, append(opts, WithBuiltinImageEncoder(PNG_FORMAT))...)); err != nil {
		t.Fatal(err)
	}
	img, err := png.Decode(&s.Buffer)
	if err != nil {
		t.Fatal(err)
	}
	return img
}

func differ(a, b image.Image) int {
	n := 0
	for y := 0; y < a.Bounds().Dy(); y++ {
		for x := 0; x < a.Bounds().Dx(); x++ {
			r, g, bl, al := a.At(x, y).RGBA()
			r2, g2, bl2, al2 := b.At(x, y).RGBA()
			if r != r2 || g != g2 || bl != bl2 || al != al2 {
				n++
			}
		}
	}
	return n
}
'''
add(id="C17-two-colours",prop="C17",edits=E["half-alpha"],needs="a halftone picture with a palette of at most two colours, not of three dots per module",breaks="the picture is not fitted to the symbol",pkg="writer/standard",demo=HEAD+'''
func TestDemo(t *testing.T) {
	p := image.NewPaletted(image.Rect(0, 0, 126, 126), color.Palette{color.White, color.Black})
	m := image.NewRGBA(p.Rect)
	for y := 0; y < 126; y++ {
		for x := 0; x < 126; x++ {
			if x/2%3 == y/2%2 {
				p.Set(x, y, color.Black)
			}
			m.Set(x, y, p.At(x, y))
		}
	}
	if n := differ(pic(t, WithQRWidth(6), WithHalftoneImage(p)), pic(t, WithQRWidth(6), WithHalftoneImage(m))); n > 0 {
		t.Fatalf("%d pixels depend on the type of the picture", n)
	}
}
''')
add(id="C17-flat-unscaled",prop="C17",edits=E["half-rgba-direct"],needs="a halftone picture three dots wide per module, but of another height",breaks="the picture is not fitted to the symbol's height",pkg="writer/standard",demo=HEAD+'''
func TestDemo(t *testing.T) {
	p, m := image.NewRGBA(image.Rect(0, 0, 63, 126)), image.NewRGBA(image.Rect(0, 0, 126, 126))
	for y := 0; y < 126; y++ {
		for x := 0; x < 126; x++ {
			c := color.RGBA{255, 255, 255, 255}
			if x/2%3 == y/2%2 {
				c = color.RGBA{0, 0, 0, 255}
			}
			m.SetRGBA(x, y, c)
			p.SetRGBA(x/2, y, c)
		}
	}
	if n := differ(pic(t, WithQRWidth(6), WithHalftoneImage(p)), pic(t, WithQRWidth(6), WithHalftoneImage(m))); n > 0 {
		t.Fatalf("%d pixels depend on the width of the dots", n)
	}
}
''')
add(id="C14-logo-moved",prop="C14",edits=E["logo-jpeg-gray"],needs="an opaque NRGBA logo whose bounds do not start at the origin",breaks="drawing moves the bounds of the picture the caller gave",pkg="writer/standard",demo=HEAD+'''
func TestDemo(t *testing.T) {
	l := image.NewNRGBA(image.Rect(5, 7, 25, 27))
	for i := range l.Pix {
		l.Pix[i] = 255
	}
	pic(t, WithLogoImage(l))
	if l.Rect != image.Rect(5, 7, 25, 27) {
		t.Fatalf("the caller's picture now has bounds %v", l.Rect)
	}
}
''')
add(id="C23-circle-halftone",prop="C23",edits=E["cli-stat-output"],needs="--circle together with --halftone",breaks="the halftone picture is silently left off",demo_sh='''#!/bin/bash
# Draws circles with and without a halftone picture.
. /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -r -- "$T"' EXIT
export TMPDIR="$T"
( cd cmd/qrcode && go build -o "$T/qr" . ) || exit 3
cd "$T" || exit 3
"$T/qr" -o dark.png -s 21 text || exit 3
"$T/qr" -o plain.png -s 15 --circle text || exit 3
"$T/qr" -o half.png -s 15 --circle --halftone dark.png text || exit 3
if cmp -s plain.png half.png; then echo "the halftone picture makes no difference"; exit 1; fi
''')
add(id="C21-last-line",prop="C21",edits=E["text-buffered"],needs="a file that takes part of the last line only",breaks="Save reports success for a text without its end",pkg="writer/file",demo='''package file

import (
	"os"
	"syscall"
	"testing"
	"unsafe"

	"github.com/yeqown/go-qrcode/v2"
)

// room is a file that cannot grow beyond size bytes, positioned at off.
func room(t *testing.T, size, off int64) *os.File {
	name := []byte("room\\x00")
	fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 3, 0)
	if e != 0 {
		t.Skip(e)
	}
	f := os.NewFile(fd, "room")
	if err := f.Truncate(size); err != nil {
		t.Fatal(err)
	}
	if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, fd, 1033, 4); e != 0 {
		t.Skip(e)
	}
	if _, err := f.Seek(off, 0); err != nil {
		t.Fatal(err)
	}
	return f
}

func TestDemo(t *testing.T) {
	q, err := qrcode.NewWith("text", qrcode.WithVersion(1))
	if err != nil {
		t.Fatal(err)
	}
	p := t.TempDir() + "/x"
	f, err := os.Create(p)
	if err != nil {
		t.Fatal(err)
	}
	if err := q.Save(New(f)); err != nil {
		t.Fatal(err)
	}
	st, err := os.Stat(p)
	if err != nil {
		t.Fatal(err)
	}
	n := st.Size()
	for cut := int64(1); cut < 40; cut++ {
		f := room(t, 8192, 8192-(n-cut))
		if err := q.Save(New(f)); err == nil {
			t.Errorf("no error with room for %d of %d bytes", n-cut, n)
		}
		f = room(t, 8193, 8192-(n-cut-1))
		if err := q.Save(New(f)); err == nil {
			t.Errorf("no error with room for %d of %d bytes", n-cut, n)
		}
	}
}
''')
add(id="C05-rule2-wide",prop="C05",edits=E["rule2-words"],needs="a symbol of more than 129 modules per side, version 29 or higher, whose best masks differ there",breaks="blocks in the right part of wide symbols add no penalty, so another mask is chosen",demo='''package qrcode

import "testing"

func TestDemo(t *testing.T) {
	for _, v := range []int{1, 28, 29, 40} {
		q, err := NewWith("some text", WithVersion(v))
		if err != nil {
			t.Fatal(err)
		}
		b, want := q.mat.Bitmap(), 0
		for y := 1; y < len(b); y++ {
			for x := 1; x < len(b); x++ {
				if b[y][x] == b[y][x-1] && b[y][x] == b[y-1][x] && b[y][x] == b[y-1][x-1] {
					want += 3
				}
			}
		}
		if got := rule2(q.mat); got != want {
			t.Errorf("version %d: rule 2 gives %d, want %d", v, got, want)
		}
	}
}
''')
add(id="C29-png-buffer",prop="C29",edits=E["png-buffer-pool"],needs="two PNG pictures encoded at the same time",breaks="their encoders share one buffer, which damages the pictures or panics",pkg="writer/standard",demo='''package standard

import (
	"bytes"
	"sync"
	"testing"

	"github.com/yeqown/go-qrcode/v2"
)

type sink struct{ bytes.Buffer }

func (s *sink) Close() error { return nil }

func TestDemo(t *testing.T) {
	qs, want := []*qrcode.QRCode{}, [][]byte{}
	save := func(q *qrcode.QRCode) []byte {
		s := &sink{}
		if err := q.Save(NewWithWriter(s, WithBuiltinImageEncoder(PNG_FORMAT))); err != nil {
			t.Error(err)
		}
		return s.Bytes()
	}
	for i := 0; i < 4; i++ {
		q, err := qrcode.NewWith("text", qrcode.WithVersion(5*i+1))
		if err != nil {
			t.Fatal(err)
		}
		qs = append(qs, q)
		want = append(want, save(q))
	}
	var wg sync.WaitGroup
	bad := make([]int, 16)
	for k := range bad {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					bad[k]++
				}
			}()
			for i := 0; i < 20; i++ {
				if !bytes.Equal(save(qs[k%4]), want[k%4]) {
					bad[k]++
				}
			}
		}(k)
	}
	wg.Wait()
	for _, n := range bad {
		if n > 0 {
			t.Fatalf("wrong pictures: %v", bad)
		}
	}
}
''')
