package main

import (
	"bytes"
	"encoding/json"
	"image"
	"image/color"
	"image/color/palette"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/yeqown/go-qrcode/writer/standard/imgkit"
	"golang.org/x/image/draw"
)

// kitImage is the source of a pipeline: kind of picture, size, where its bounds start, content.
type kitImage struct {
	Type string `json:"type"`
	W    int    `json:"w"`
	H    int    `json:"h"`
	X    int    `json:"x"`
	Y    int    `json:"y"`
	Fill string `json:"fill"` // uniform, ramp, noise
	Seed int64  `json:"seed"`
}

type kitOp struct {
	Op     string `json:"op"`
	N      int    `json:"n"`    // threshold, or what is painted
	R      []int  `json:"r"`    // x y w h of the wanted rectangle
	Scaler string `json:"how"`  // scaler
	Name   string `json:"name"` // file name
	Prior  int    `json:"prior"`
	Bad    string `json:"bad"` // why the file cannot be written
}

// paintOver changes a picture in place: all of it or some pixels.
func paintOver(img image.Image, seed int64) {
	rnd := rand.New(rand.NewSource(seed))
	some := 1 + rnd.Intn(3)
	b := img.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			if rnd.Intn(some) > 0 {
				continue
			}
			c := color.NRGBA{uint8(rnd.Intn(256)), uint8(rnd.Intn(256)), uint8(rnd.Intn(256)), 255}
			switch m := img.(type) {
			case plainImage:
				m.Image.(draw.Image).Set(x, y, c)
			case draw.Image:
				m.Set(x, y, c)
			case *image.YCbCr:
				m.Y[m.YOffset(x, y)] = c.R
				m.Cb[m.COffset(x, y)] = c.G
			}
		}
	}
}

// plainImage hides the concrete type.
type plainImage struct{ image.Image }

func (p plainImage) At(x, y int) color.Color {
	if !(image.Point{x, y}.In(p.Bounds())) {
		return color.NRGBA{9, 9, 9, 255}
	}
	return p.Image.At(x, y)
}

func (k kitImage) build() image.Image {
	rnd := rand.New(rand.NewSource(k.Seed))
	outer := image.Rect(k.X, k.Y, k.X+k.W, k.Y+k.H)
	sub := rnd.Intn(2) == 0 && k.X >= 0 && k.Y >= 0
	if sub {
		outer = image.Rect(0, 0, k.X+k.W+3, k.Y+k.H+2)
	}
	var m draw.Image
	switch k.Type {
	case "rgba":
		m = image.NewRGBA(outer)
	case "nrgba", "plain", "translucent":
		m = image.NewNRGBA(outer)
	case "gray":
		m = image.NewGray(outer)
	case "gray16":
		m = image.NewGray16(outer)
	case "rgba64":
		m = image.NewRGBA64(outer)
	case "nrgba64":
		m = image.NewNRGBA64(outer)
	case "cmyk":
		m = image.NewCMYK(outer)
	case "paletted":
		m = image.NewPaletted(outer, palette.Plan9)
	case "ycbcr":
		ratio := image.YCbCrSubsampleRatio444
		if k.X >= 0 && k.Y >= 0 { // package image cannot address subsampled pixels at negative coordinates
			ratio = image.YCbCrSubsampleRatio(rnd.Intn(6))
		}
		y := image.NewYCbCr(outer, ratio)
		rnd.Read(y.Y)
		rnd.Read(y.Cb)
		rnd.Read(y.Cr)
		if k.Fill == "uniform" {
			for i := range y.Y {
				y.Y[i] = y.Y[0]
			}
			for i := range y.Cb {
				y.Cb[i], y.Cr[i] = y.Cb[0], y.Cr[0]
			}
		}
		if sub {
			return y.SubImage(image.Rect(k.X, k.Y, k.X+k.W, k.Y+k.H))
		}
		return y
	default:
		panic("driver: bad image type " + k.Type)
	}
	one := color.NRGBA64{uint16(rnd.Intn(65536)), uint16(rnd.Intn(65536)), uint16(rnd.Intn(65536)), 65535}
	for y := outer.Min.Y; y < outer.Max.Y; y++ {
		for x := outer.Min.X; x < outer.Max.X; x++ {
			c := one
			switch k.Fill {
			case "ramp":
				v := uint16(((x-k.X)+(y-k.Y)*k.W)%256) * 257
				c = color.NRGBA64{v, v, v, 65535}
			case "noise":
				c = color.NRGBA64{uint16(rnd.Intn(65536)), uint16(rnd.Intn(65536)), uint16(rnd.Intn(65536)), 65535}
			}
			if k.Type == "translucent" {
				c.A = uint16(rnd.Intn(256)) * 257
			}
			m.Set(x, y, c)
		}
	}
	var img image.Image = m
	if sub {
		img = m.(interface {
			SubImage(image.Rectangle) image.Image
		}).SubImage(image.Rect(k.X, k.Y, k.X+k.W, k.Y+k.H))
	}
	if k.Type == "plain" {
		return plainImage{img}
	}
	return img
}

func kitEvent(img image.Image) M {
	b := img.Bounds()
	px := [][]int{}
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			r, g, bl, a := img.At(x, y).RGBA()
			px = append(px, []int{int(r), int(g), int(bl), int(a)})
		}
	}
	return M{"x": b.Min.X, "y": b.Min.Y, "w": b.Dx(), "h": b.Dy(), "px": px}
}

func init() {
	handlers["kit"] = func(b json.RawMessage) M {
		var c struct {
			Img kitImage `json:"img"`
			Ops []kitOp  `json:"ops"`
		}
		must(json.Unmarshal(b, &c))
		dir, err := os.MkdirTemp("", "kit")
		must(err)
		defer os.RemoveAll(dir)
		return catch(func() M {
			img := c.Img.build()
			imgs := []M{kitEvent(img)}
			ops := []M{}
			apply := func(o kitOp) image.Image {
				switch o.Op {
				case "gray":
					return imgkit.Gray(img)
				case "bin":
					return imgkit.Binaryzation(img, uint8(o.N))
				case "scale":
					rect := image.Rect(o.R[0], o.R[1], o.R[0]+o.R[2], o.R[1]+o.R[3])
					var s draw.Scaler
					switch o.Scaler {
					case "nearest":
						s = draw.NearestNeighbor
					case "bilinear":
						s = draw.BiLinear
					case "catmull":
						s = draw.CatmullRom
					}
					return imgkit.Scale(img, rect, s)
				case "save": // somewhere else
					_ = imgkit.Save(img, filepath.Join(dir, "elsewhere-"+o.Name))
				}
				return nil
			}
			for i, o := range c.Ops {
				ev := M{"op": o.Op, "n": o.N, "r": o.R, "how": o.Scaler, "err": false, "kind": "", "bad": "", "same": true}
				if o.R == nil {
					ev["r"] = []int{}
				}
				before := img
				var out image.Image
				switch o.Op {
				case "gray", "bin", "scale":
					out = apply(o)
				case "paint": // the next operation was called before, too
					if i+1 < len(c.Ops) {
						apply(c.Ops[i+1])
					}
					paintOver(img, int64(o.N))
					out = img
				case "save":
					name := filepath.Join(dir, o.Name)
					ev["bad"] = o.Bad
					if o.Bad == "full" || o.Bad == "isdir" {
						_ = os.Remove(name)
					}
					switch {
					case o.Bad == "full":
						must(os.Symlink("/dev/full", name))
					case o.Bad == "nodir":
						name = filepath.Join(dir, "none", o.Name)
					case o.Bad == "isdir":
						must(os.Mkdir(name, 0o755))
					case o.Prior > 0:
						must(os.WriteFile(name, bytes.Repeat([]byte("prior "), o.Prior), 0o644))
					}
					there := leftAt(name)
					ext := filepath.Ext(o.Name)
					ev["kind"] = map[string]string{".png": "png", ".jpg": "jpeg", ".jpeg": "jpeg"}[ext]
					if err := imgkit.Save(img, name); err != nil {
						ev["err"] = true
						ev["same"] = leftAt(name) == there
						break
					}
					fresh := filepath.Join(dir, "fresh", o.Name)
					must(os.MkdirAll(filepath.Dir(fresh), 0o755))
					_ = os.Remove(fresh)
					if err := imgkit.Save(img, fresh); err != nil {
						ev["err"] = true
						break
					}
					ev["whole"] = leftAt(name) == leftAt(fresh)
					ev["found"] = ""
					if f, err := os.Open(name); err == nil {
						_, format, err := image.DecodeConfig(f)
						f.Close()
						if err == nil {
							ev["found"] = format
						}
					}
					out, err = imgkit.Read(name)
					if err != nil {
						return M{"out": "unreadable"}
					}
				}
				after := kitEvent(before)
				ops = append(ops, ev)
				if out == nil {
					break
				}
				img = out
				imgs = append(imgs, kitEvent(img))
				ev["intact"] = o.Op == "paint" || sameEvent(after, imgs[len(imgs)-2])
			}
			return M{"out": "ok", "imgs": imgs, "ops": ops}
		})
	}
}

// leftAt tells what is found under a name: nothing, no plain file, or its content.
func leftAt(name string) string {
	if i, err := os.Lstat(name); err != nil {
		return "none"
	} else if !i.Mode().IsRegular() {
		return "other"
	}
	b, err := os.ReadFile(name)
	must(err)
	return "file " + string(b)
}

func sameEvent(a, b M) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}
