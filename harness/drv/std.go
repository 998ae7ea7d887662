package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"image/color/palette"
	"image/draw"
	"image/jpeg"
	"image/png"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/shapes"
)

// imgOpt is one option of the standard writer.
type imgOpt struct {
	O string  `json:"o"`
	T string  `json:"t"` // representation of a colour, source of a picture, format
	N int     `json:"n"` // logo: 0 plain, 1 with holes, 2 partly half transparent, 3 partly of colour c
	C []int   `json:"c"` // colour r g b a
	L []int   `json:"l"` // borders; logo: w h minx miny; halftone: size; gradient: p q turns
	S [][]int `json:"s"` // gradient stops: 100*t r g b
	X string  `json:"x"` // hex colour; finder shape; custom shape; type of a logo or halftone picture
	Y string  `json:"y"` // block shape
}

// raster is what an encoder was given.
type raster struct {
	w, h int
	pix  []uint32 // r<<24 g<<16 b<<8 a, premultiplied; 0 wherever a is 0
}

func rasterOf(img image.Image) *raster {
	b := img.Bounds()
	r := &raster{w: b.Dx(), h: b.Dy(), pix: make([]uint32, b.Dx()*b.Dy())}
	if m, ok := img.(*image.RGBA); ok {
		for y := 0; y < r.h; y++ {
			l := m.Pix[y*m.Stride:]
			for x := 0; x < r.w; x++ {
				if l[4*x+3] != 0 {
					r.pix[y*r.w+x] = uint32(l[4*x])<<24 | uint32(l[4*x+1])<<16 | uint32(l[4*x+2])<<8 | uint32(l[4*x+3])
				}
			}
		}
		return r
	}
	i := 0
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			c := color.RGBAModel.Convert(img.At(x, y)).(color.RGBA)
			if c.A != 0 {
				r.pix[i] = uint32(c.R)<<24 | uint32(c.G)<<16 | uint32(c.B)<<8 | uint32(c.A)
			}
			i++
		}
	}
	return r
}

func (r *raster) digest() string {
	b := make([]byte, 4*len(r.pix)+8)
	binary.LittleEndian.PutUint32(b, uint32(r.w))
	binary.LittleEndian.PutUint32(b[4:], uint32(r.h))
	for i, p := range r.pix {
		binary.LittleEndian.PutUint32(b[8+4*i:], p)
	}
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:])[:16]
}

// straight is the digest of what a decoder of a PNG (straight alpha) can tell.
func (r *raster) straight() string {
	s := &raster{w: r.w, h: r.h, pix: make([]uint32, len(r.pix))}
	for i, p := range r.pix {
		if p&255 == 255 {
			s.pix[i] = p
			continue
		}
		c := color.NRGBAModel.Convert(color.RGBA{uint8(p >> 24), uint8(p >> 16), uint8(p >> 8), uint8(p)}).(color.NRGBA)
		if c.A != 0 {
			s.pix[i] = uint32(c.R)<<24 | uint32(c.G)<<16 | uint32(c.B)<<8 | uint32(c.A)
		}
	}
	return s.digest()
}

func straightOf(img image.Image) string {
	b := img.Bounds()
	s := &raster{w: b.Dx(), h: b.Dy(), pix: make([]uint32, b.Dx()*b.Dy())}
	i := 0
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			c := color.NRGBAModel.Convert(img.At(x, y)).(color.NRGBA)
			if c.A != 0 {
				s.pix[i] = uint32(c.R)<<24 | uint32(c.G)<<16 | uint32(c.B)<<8 | uint32(c.A)
			}
			i++
		}
	}
	return s.digest()
}

// runs describes the picture: palette, and groups of equal rows [count, [end, index, end, index ...]].
func (r *raster) runs() M {
	pal := [][]int{}
	idx := map[uint32]int{}
	rows := []interface{}{}
	for y := 0; y < r.h; {
		n := 1
		row := r.pix[y*r.w : (y+1)*r.w]
		for y+n < r.h {
			next := r.pix[(y+n)*r.w : (y+n+1)*r.w]
			same := true
			for i := range row {
				if row[i] != next[i] {
					same = false
					break
				}
			}
			if !same {
				break
			}
			n++
		}
		l := []int{}
		for x := 0; x < r.w; x++ {
			if x+1 == r.w || row[x+1] != row[x] {
				k, ok := idx[row[x]]
				if !ok {
					p := row[x]
					pal = append(pal, []int{int(p >> 24), int(p >> 16 & 255), int(p >> 8 & 255), int(p & 255)})
					k = len(pal)
					idx[p] = k
				}
				l = append(l, x+1, k)
			}
		}
		rows = append(rows, []interface{}{n, l})
		y += n
	}
	return M{"w": r.w, "h": r.h, "pal": pal, "rows": rows}
}

// sparse describes a picture of blocks by the colours at the centres of the blocks, all colours that occur
// in the borders, and (for blocks of three sub-blocks a side) the colours at the centres of the sub-blocks.
func (r *raster) sparse(n, bw int, b [4]int) M {
	at := func(x, y int) []int {
		if x < 0 || y < 0 || x >= r.w || y >= r.h {
			return []int{-1, -1, -1, -1}
		}
		p := r.pix[y*r.w+x]
		return []int{int(p >> 24), int(p >> 16 & 255), int(p >> 8 & 255), int(p & 255)}
	}
	cen, sub := [][]int{}, [][]int{}
	for y := 0; y < n; y++ {
		for x := 0; x < n; x++ {
			cen = append(cen, at(b[3]+x*bw+bw/2, b[0]+y*bw+bw/2))
		}
	}
	if s := bw / 3; bw%3 == 0 {
		for y := 0; y < 3*n; y++ {
			for x := 0; x < 3*n; x++ {
				sub = append(sub, at(b[3]+x*s+s/2, b[0]+y*s+s/2))
			}
		}
	}
	seen := map[uint32]bool{}
	bord := [][]int{}
	for y := 0; y < r.h; y++ {
		for x := 0; x < r.w; x++ {
			if p := r.pix[y*r.w+x]; (y < b[0] || y >= r.h-b[2] || x < b[3] || x >= r.w-b[1]) && !seen[p] {
				seen[p] = true
				bord = append(bord, at(x, y))
			}
		}
	}
	return M{"w": r.w, "h": r.h, "cen": cen, "sub": sub, "bord": bord}
}

// against samples two pictures: [x, y, this pixel, other pixel] at n places, and the colours the other one has
// wherever they differ.
func (r *raster) against(o *raster, n int, seed int64) M {
	rnd := rand.New(rand.NewSource(seed))
	l, changed, seen := [][]int{}, []int{}, map[int]bool{}
	a, b := r.packed(), o.packed()
	if len(a) != len(b) {
		return M{"at": l, "changed": []int{-999}}
	}
	for k := 0; k < n; k++ {
		i := rnd.Intn(len(a))
		l = append(l, []int{i % r.w, i / r.w, a[i], b[i]})
	}
	for i := range a {
		if a[i] != b[i] && !seen[b[i]] {
			seen[b[i]] = true
			changed = append(changed, b[i])
		}
	}
	return M{"at": l, "changed": changed}
}

// packed is the picture as one number per pixel (r g b; -1 where not opaque).
func (r *raster) packed() []int {
	l := make([]int, len(r.pix))
	for i, p := range r.pix {
		if p&255 == 255 {
			l[i] = int(p >> 8)
		} else {
			l[i] = -1 - int(p&255)
		}
	}
	return l
}

// camera is an image encoder that keeps the picture.
type camera struct{ r *raster }

func (c *camera) Encode(_ io.Writer, img image.Image) error { c.r = rasterOf(img); return nil }

// recorder is a custom shape that notes how it is called and paints the block.
type recorder struct {
	calls [][]int
	given []func() bool // whether what was given to the options is unchanged
}

func (r *recorder) note(finder int, ctx *standard.DrawContext) {
	x, y := ctx.UpperLeft()
	w, h := ctx.Edge()
	c := color.NRGBAModel.Convert(ctx.Color()).(color.NRGBA)
	if x != math.Trunc(x) || y != math.Trunc(y) {
		x, y = -1000, -1000
	}
	r.calls = append(r.calls, []int{finder, int(x), int(y), w, h, int(ctx.Neighbours()), int(c.R), int(c.G), int(c.B), int(c.A)})
	ctx.DrawRectangle(x, y, float64(w), float64(h))
	ctx.SetColor(ctx.Color())
	ctx.Fill()
}
func (r *recorder) Draw(ctx *standard.DrawContext)       { r.note(0, ctx) }
func (r *recorder) DrawFinder(ctx *standard.DrawContext) { r.note(1, ctx) }

func colorOf(t string, c []int) color.Color {
	r, g, b, a := uint8(c[0]), uint8(c[1]), uint8(c[2]), uint8(c[3])
	switch t {
	case "nrgba":
		return color.NRGBA{r, g, b, a}
	case "gray":
		return color.Gray{r}
	case "ptr":
		p := &color.RGBA{r, g, b, a}
		return p
	}
	return color.RGBA{r, g, b, a}
}

// logoPicture tells every pixel of a logo apart.
func logoPicture(o imgOpt) *image.RGBA {
	w, h, mx, my := o.L[0], o.L[1], o.L[2], o.L[3]
	img := image.NewRGBA(image.Rect(mx, my, mx+w, my+h))
	for i := 0; i < w; i++ {
		for j := 0; j < h; j++ {
			if o.N == 1 && (i+j)%5 == 0 {
				continue
			}
			c := color.RGBA{uint8(7 + 16*(i/256) + j/256), uint8(i), uint8(j), 255}
			if o.N == 2 && (i+j)%3 == 0 { // half transparent, premultiplied
				c = color.RGBA{100, 20, 0, 128}
			}
			if o.N == 3 && (i+j)%5 == 0 { // a colour of the symbol
				c = color.RGBA{uint8(o.C[0]), uint8(o.C[1]), uint8(o.C[2]), 255}
			}
			img.SetRGBA(mx+i, my+j, c)
		}
	}
	return img
}

// recast stores a picture as another type of image, or as a part of a larger one.
func recast(img *image.RGBA, typ string) image.Image {
	b := img.Bounds()
	var m draw.Image
	switch typ {
	case "":
		return img
	case "plain":
		return plainImage{img}
	case "sub":
		m = image.NewRGBA(image.Rect(b.Min.X-3, b.Min.Y-1, b.Max.X+2, b.Max.Y+4))
	case "nrgba":
		m = image.NewNRGBA(b)
	case "rgba64":
		m = image.NewRGBA64(b)
	case "nrgba64":
		m = image.NewNRGBA64(b)
	case "gray":
		m = image.NewGray(b)
	case "gray16":
		m = image.NewGray16(b)
	case "cmyk":
		m = image.NewCMYK(b)
	case "two": // lighter first
		m = image.NewPaletted(b, color.Palette{color.Gray{255}, color.Gray{0}})
	case "owt":
		m = image.NewPaletted(b, color.Palette{color.Gray{0}, color.Gray{255}})
	case "paletted":
		m = image.NewPaletted(b, palette.Plan9)
	case "ycbcr":
		ratio := image.YCbCrSubsampleRatio420
		if b.Min.X < 0 || b.Min.Y < 0 { // package image cannot address subsampled pixels at negative coordinates
			ratio = image.YCbCrSubsampleRatio444
		}
		y := image.NewYCbCr(b, ratio)
		for i := range y.Cb {
			y.Cb[i], y.Cr[i] = 128, 128
		}
		for j := b.Min.Y; j < b.Max.Y; j++ {
			for i := b.Min.X; i < b.Max.X; i++ {
				y.Y[y.YOffset(i, j)] = img.RGBAAt(i, j).R
			}
		}
		return y
	default:
		panic("driver: bad type of image " + typ)
	}
	for y := m.Bounds().Min.Y; y < m.Bounds().Max.Y; y++ {
		for x := m.Bounds().Min.X; x < m.Bounds().Max.X; x++ {
			if (image.Point{x, y}.In(b)) {
				m.Set(x, y, img.At(x, y))
			} else {
				m.Set(x, y, color.RGBA{uint8(x * 90), 77, uint8(y * 50), 255})
			}
		}
	}
	if typ == "sub" {
		return m.(*image.RGBA).SubImage(b)
	}
	return m
}

// halfPicture is a picture of strongly dark and strongly light pixels.
func halfPicture(o imgOpt) *image.RGBA {
	s, mx, my := o.L[0], o.L[1], o.L[2]
	ax, ay := 1, 1 // every dot is ax times ay pixels
	if len(o.L) > 4 {
		ax, ay = o.L[3], o.L[4]
	}
	g := image.NewRGBA(image.Rect(mx, my, mx+s*ax, my+s*ay))
	for px := 0; px < s*ax; px++ {
		for py := 0; py < s*ay; py++ {
			x, y := px/ax, py/ay
			v := uint8(235 + (x+y)%20)
			if (x*7+y*13+x*y+o.N)%5 < 2 && o.N < 100 || o.N == 101 {
				v = uint8((x + y) % 20)
			}
			c := color.RGBA{v, v, v, 255}
			if o.Y == "tint" {
				c = color.RGBA{v, v - v/4*uint8(x%2), v - v/5*uint8(y%2), 255}
			}
			g.SetRGBA(mx+px, my+py, c)
		}
	}
	return g
}

func ratio(n int) float64 { return float64(n) / 100 }

func finderShape(s string) func(*standard.DrawContext) {
	if s == "rounded" {
		return shapes.RoundedFinder()
	}
	return shapes.SquareFinder()
}

func blockShape(s string, n int) func(*standard.DrawContext) {
	switch s {
	case "liquid":
		return shapes.LiquidBlock()
	case "hstripe":
		return shapes.HStripeBlock(ratio(n))
	case "vstripe":
		return shapes.VStripeBlock(ratio(n))
	case "chain":
		return shapes.ChainBlock()
	case "vchain":
		return shapes.VChainBlock()
	case "hchain":
		return shapes.HChainBlock()
	case "square":
		return shapes.SquareBlocks(ratio(n))
	case "circle":
		return shapes.CircleBlocks(ratio(n))
	}
	panic("driver: bad block shape " + s)
}

func pngFile(img image.Image, dir, name string) string {
	p := filepath.Join(dir, name)
	f, err := os.Create(p)
	must(err)
	if strings.HasPrefix(filepath.Ext(name), ".j") != strings.Contains(name, "-as-") {
		must(jpeg.Encode(f, img, &jpeg.Options{Quality: 100}))
	} else {
		must(png.Encode(f, img))
	}
	must(f.Close())
	return p
}

// keep watches what is given to an option.
func (r *recorder) keep(look func() string) {
	if r == nil {
		return
	}
	was := look()
	r.given = append(r.given, func() bool { return look() == was })
}

func (r *recorder) picture(img image.Image) image.Image {
	r.keep(func() string { return img.Bounds().String() + rasterOf(img).digest() })
	return img
}

func imgOption(o imgOpt, rec *recorder, dir string) standard.ImageOption {
	switch o.O {
	case "fg":
		if o.T == "nil" {
			return standard.WithFgColor(nil)
		}
		return standard.WithFgColor(colorOf(o.T, o.C))
	case "bg":
		if o.T == "nil" {
			return standard.WithBgColor(nil)
		}
		return standard.WithBgColor(colorOf(o.T, o.C))
	case "fghex":
		return standard.WithFgColorRGBHex(o.X)
	case "bghex":
		return standard.WithBgColorRGBHex(o.X)
	case "transparent":
		return standard.WithBgTransparent()
	case "width":
		return standard.WithQRWidth(uint8(o.N))
	case "border":
		// a part of a longer list, all of which stays as it is
		all := append(append([]int{}, o.L...), 91, 92, 93, 94)
		rec.keep(func() string { return fmt.Sprint(all) })
		return standard.WithBorderWidth(all[:len(o.L)]...)
	case "circle":
		return standard.WithCircleShape()
	case "shape":
		return standard.WithCustomShape(shapes.Assemble(finderShape(o.X), blockShape(o.Y, o.N)))
	case "rec":
		return standard.WithCustomShape(rec)
	case "logo":
		switch o.T {
		case "nil":
			return standard.WithLogoImage(nil)
		case "png":
			return standard.WithLogoImageFilePNG(pngFile(recast(logoPicture(o), o.X), dir, "logo.png"))
		case "jpeg":
			img := image.NewRGBA(image.Rect(0, 0, o.L[0], o.L[1]))
			for i := range img.Pix {
				img.Pix[i] = []uint8{200, 40, 40, 255}[i%4]
			}
			return standard.WithLogoImageFileJPEG(pngFile(img, dir, "logo.jpg"))
		case "missing":
			return standard.WithLogoImageFilePNG(filepath.Join(dir, "no-such-logo.png"))
		case "notpng":
			must(os.WriteFile(filepath.Join(dir, "bad.png"), []byte("not a picture"), 0o644))
			return standard.WithLogoImageFilePNG(filepath.Join(dir, "bad.png"))
		}
		return standard.WithLogoImage(rec.picture(recast(logoPicture(o), o.X)))
	case "mult":
		if o.T == "huge" { // far above any picture's size, given as o.N in the events
			return standard.WithLogoSizeMultiplier([]int{math.MaxInt, 1 << 62, 1 << 61, 1 << 60, math.MaxInt/3*2 + 2, 1 << 33, 1 << 32, 1 << 31, math.MaxInt32}[o.L[0]%9])
		}
		return standard.WithLogoSizeMultiplier(o.N)
	case "safe":
		return standard.WithLogoSafeZone()
	case "halftone":
		switch o.T {
		case "file": // the kind of picture is told by its content
			name := []string{"half.png", "half.png", "half.PNG", "png-as-half.jpg", "half.gif", "half"}[(o.N+len(o.L))%6]
			return standard.WithHalftone(pngFile(recast(halfPicture(o), o.X), dir, name))
		case "jpeg":
			name := []string{"half.jpg", "jpg-as-half.png", "half.jpeg", "jpg-as-half"}[(o.N+o.L[0])%4]
			return standard.WithHalftone(pngFile(recast(halfPicture(o), o.X), dir, name))
		case "missing":
			return standard.WithHalftone(filepath.Join(dir, "no-such-picture.png"))
		case "nil":
			return standard.WithHalftoneImage(nil)
		}
		return standard.WithHalftoneImage(rec.picture(recast(halfPicture(o), o.X)))
	case "grad":
		if o.T == "nil" {
			return standard.WithFgGradient(nil)
		}
		stops := make([]standard.ColorStop, 0, len(o.S)+3)
		for _, s := range o.S {
			stops = append(stops, standard.ColorStop{T: ratio(s[0]), Color: color.RGBA{uint8(s[1]), uint8(s[2]), uint8(s[3]), 255}})
		}
		deg := math.Atan2(float64(o.L[0]), float64(o.L[1]))*180/math.Pi + 360*float64(o.L[2])
		g := standard.NewGradient(deg, stops...)
		given := append([]standard.ColorStop{}, stops...)
		rec.keep(func() string { return fmt.Sprint(g.Angle, g.Stops, stops[:cap(stops)], given) })
		return standard.WithFgGradient(g)
	case "enc":
		switch o.T {
		case "png":
			return standard.WithBuiltinImageEncoder(standard.PNG_FORMAT)
		case "jpeg":
			return standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT)
		}
		return standard.WithCustomImageEncoder(nil)
	}
	panic("driver: bad image option " + o.O)
}

type stdCase struct {
	Req
	Img   []imgOpt `json:"img"`
	Runs  bool     `json:"runs"`   // describe the picture by runs
	Pack  bool     `json:"pack"`   // one number per pixel, with and without the gradient
	Files bool     `json:"files"`  // encode as well and decode again
	Busy  bool     `json:"busy"`   // other symbols are drawn at the same time
	Spar  bool     `json:"sparse"` // describe the picture by the centres and borders only
	Some  int      `json:"some"`   // with pack: only so many pixels
	Pre   string   `json:"pre"`    // what was drawn before: another "width" with the same options, another "symbol" with the same writer, or "both"
	Lum   bool     `json:"lum"`    // luminances of the decoded picture at the module centres
}

func (o imgOpt) norm() imgOpt {
	if o.C == nil {
		o.C = []int{}
	}
	if o.L == nil {
		o.L = []int{}
	}
	if o.S == nil {
		o.S = [][]int{}
	}
	return o
}

// hexCodes gives the characters of a string as numbers (TLC does not index strings).
func hexCodes(s string) []int {
	r := []int{}
	for _, c := range []byte(s) {
		r = append(r, int(c))
	}
	return r
}

func init() {
	handlers["std"] = func(b json.RawMessage) M {
		var c stdCase
		must(json.Unmarshal(b, &c))
		ev := catch(func() M {
			q, err := construct(c.Req)
			if err != nil || q == nil {
				return M{"out": "err"}
			}
			dir, err := os.MkdirTemp("", "std")
			must(err)
			defer os.RemoveAll(dir)
			sym := observe(q)
			rec := &recorder{}
			opts := []standard.ImageOption{}
			for _, o := range c.Img {
				opts = append(opts, imgOption(o, rec, dir))
			}
			ev := M{"out": "ok", "d": sym["w"], "m": sym["m"]}
			cam := &camera{}
			sink := nopCloser{Writer: io.Discard}
			w := standard.NewWithWriter(&sink, append(append([]standard.ImageOption{}, opts...), standard.WithCustomImageEncoder(cam))...)
			at := w.Attribute(q.Dimension())
			ev["attr"] = []int{at.W, at.H, at.Borders[0], at.Borders[1], at.Borders[2], at.Borders[3], at.BlockWidth}
			if c.Pre == "width" || c.Pre == "both" {
				for i, bw := range []int{1 + (at.BlockWidth+2)%9, 3, 12} {
					d := q
					if i > 0 {
						d = resized(q, i)
					}
					_ = d.Save(standard.NewWithWriter(&nopCloser{Writer: io.Discard}, append(append([]standard.ImageOption{}, opts...), standard.WithQRWidth(uint8(bw)), standard.WithCustomImageEncoder(&camera{}))...))
				}
			}
			if c.Pre == "symbol" || c.Pre == "both" {
				for i := 0; i < 2; i++ {
					must(resized(q, i).Save(w))
				}
			}
			cam.r, rec.calls = nil, nil
			amid(q, c.Busy, func(d *qrcode.QRCode) {
				others := []standard.ImageOption{}
				for _, o := range c.Img {
					others = append(others, imgOption(o, &recorder{}, dir))
				}
				_ = d.Save(standard.NewWithWriter(&nopCloser{Writer: io.Discard}, append(others, standard.WithCustomImageEncoder(&camera{}))...))
			}, func() { err = q.Save(w) })
			if err != nil {
				return M{"out": "save-error"}
			}
			first := cam.r
			ev["calls"] = append([][]int{}, rec.calls...)
			dgs := []string{first.digest()}
			// the same writer draws another symbol, then the first one again
			if q2 := decoyOf(q, 1); q2 != nil {
				cam.r = nil
				must(q2.Save(w))
			}
			if c.Pre != "" {
				must(resized(q, len(c.Img)%2).Save(w))
			}
			cam.r = nil
			if err := q.Save(w); err != nil {
				return M{"out": "save-error"}
			}
			dgs = append(dgs, cam.r.digest())
			ev["dgs"] = dgs
			ev["fmt"], ev["files"] = "", []string{}
			if c.Files {
				var buf bytes.Buffer
				// the same option objects, once as they are and once for a PNG
				for i, x := range [][]standard.ImageOption{opts, append(append([]standard.ImageOption{}, opts...), standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))} {
					buf.Reset()
					if err := q.Save(standard.NewWithWriter(&nopCloser{Writer: &buf}, x...)); err != nil {
						return M{"out": "save-error"}
					}
					img, f, err := image.Decode(bytes.NewReader(buf.Bytes()))
					if err != nil {
						return M{"out": "undecodable"}
					}
					ev[fmt.Sprint("fmt", i)] = f
					r := rasterOf(img)
					ev[fmt.Sprint("size", i)] = []int{r.w, r.h}
					if f == "png" {
						ev[fmt.Sprint("same", i)] = straightOf(img) == first.straight()
					} else {
						ev[fmt.Sprint("same", i)] = true
					}
					if c.Lum && i == 0 {
						l := []int{}
						n, bw := q.Dimension(), at.BlockWidth
						for y := 0; y < n; y++ {
							for x := 0; x < n; x++ {
								px, py := at.Borders[3]+x*bw+bw/2, at.Borders[0]+y*bw+bw/2
								v := -1
								if px < r.w && py < r.h {
									v = int(color.GrayModel.Convert(img.At(px, py)).(color.Gray).Y)
								}
								l = append(l, v)
							}
						}
						ev["lum"] = l
					}
				}
			}
			if c.Runs {
				ev["pic"] = first.runs()
			}
			if c.Spar {
				ev["sparse"] = first.sparse(q.Dimension(), at.BlockWidth, at.Borders)
			}
			if c.Pack {
				base := []standard.ImageOption{}
				for i, o := range c.Img {
					if o.O != "grad" {
						base = append(base, opts[i])
					}
				}
				q.Save(standard.NewWithWriter(&sink, append(base, standard.WithCustomImageEncoder(cam))...))
				if c.Some > 0 {
					ev["some"] = first.against(cam.r, c.Some, int64(c.Some)*7+int64(first.w))
				} else {
					ev["grad"], ev["base"] = first.packed(), cam.r.packed()
				}
				ev["size"] = []int{first.w, first.h, cam.r.w, cam.r.h}
			}
			ev["kept"] = true
			for _, same := range rec.given {
				ev["kept"] = ev["kept"].(bool) && same()
			}
			return ev
		})
		l := []interface{}{}
		for _, o := range c.Img {
			o = o.norm()
			l = append(l, M{"o": o.O, "t": o.T, "n": o.N, "c": o.C, "l": o.L, "s": o.S, "x": o.X, "hex": hexCodes(o.X), "y": o.Y})
		}
		ev["img"] = l
		ev["files"], ev["lumd"] = c.Files, c.Lum
		return ev
	}
}
