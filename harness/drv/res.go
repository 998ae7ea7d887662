package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"image"
	"image/color"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/compressed"
	"github.com/yeqown/go-qrcode/writer/file"
	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/imgkit"
)

// openFiles lists what the process has open, by descriptor.
func openFiles() map[string]string {
	r := map[string]string{}
	l, err := os.ReadDir("/proc/self/fd")
	must(err)
	for _, d := range l {
		if t, err := os.Readlink("/proc/self/fd/" + d.Name()); err == nil && !strings.HasPrefix(t, "/proc/") {
			r[d.Name()] = t
		}
	}
	return r
}

// held tells how many goroutines and which files there are more than at the start; goroutines get some time to end.
func held(base int, files map[string]string, wait time.Duration) (int, []string) {
	end := time.Now().Add(wait)
	for runtime.NumGoroutine() > base && time.Now().Before(end) {
		time.Sleep(200 * time.Microsecond)
	}
	l := []string{}
	for fd, t := range openFiles() {
		if files[fd] != t && !strings.HasPrefix(t, "anon_inode:") {
			if strings.HasPrefix(t, "/") && t != "/dev/full" {
				t = filepath.Base(t)
			}
			l = append(l, t)
		}
	}
	sort.Strings(l)
	return runtime.NumGoroutine() - base, l
}

type badSink struct{}

func (badSink) Write([]byte) (int, error) { return 0, errors.New("no room") }
func (badSink) Close() error              { return errors.New("no end") }

func init() {
	handlers["res"] = func(b json.RawMessage) M {
		var c struct {
			Req
			Debug bool `json:"debug"`
			Conc  int  `json:"conc"`
			Ops   []struct {
				Op   string `json:"op"`
				S    int    `json:"s"`
				Kind string `json:"kind"`
			} `json:"ops"`
		}
		must(json.Unmarshal(b, &c))
		return catch(func() M {
			dir, err := os.MkdirTemp("", "res")
			must(err)
			defer os.RemoveAll(dir)
			at := func(n string) string { return filepath.Join(dir, n) }
			pic := image.NewRGBA(image.Rect(0, 0, 30, 30))
			pic.Set(3, 4, color.White)
			pngFile(pic, dir, "ok.png")
			pngFile(pic, dir, "ok.jpg")
			must(os.WriteFile(at("bad.png"), []byte("\x89PNG\r\n\x1a\nand no more"), 0o644))
			must(os.Mkdir(at("isdir.png"), 0o755))
			if c.Debug {
				_ = os.MkdirAll("draft", 0o755)
			}
			q, err := construct(c.Req)
			if err != nil || q == nil {
				return M{"out": "err"}
			}
			q.Save(&fdKeeper{})
			// descriptors must not be closed behind the scenes
			defer debug.SetGCPercent(debug.SetGCPercent(-1))
			time.Sleep(time.Millisecond)
			base := runtime.NumGoroutine()
			for i := 0; i < 20; i++ { // what ends on its own at the start
				time.Sleep(200 * time.Microsecond)
				if n := runtime.NumGoroutine(); n < base {
					base = n
				}
			}
			files := openFiles()
			ws := map[int]qrcode.Writer{}
			obs := []M{}
			opt := []standard.ImageOption{standard.WithQRWidth(3)}
			png := standard.WithBuiltinImageEncoder(standard.PNG_FORMAT)
			for k, o := range c.Ops {
				var err error
				name := ""
				one := func() error {
					r := c.Req
					switch o.Kind {
					case "big":
						r.Opts = append([]OptReq{{"ver", 25}}, r.Opts...)
					case "toolong":
						_, err := qrcode.New(strings.Repeat("x", 3000))
						return err
					case "badmode":
						_, err := qrcode.NewWith("x", qrcode.WithEncodingMode(qrcode.EncModeNumeric))
						return err
					case "badchars":
						_, err := qrcode.NewWith("\xff\xfe", qrcode.WithEncodingMode(qrcode.EncModeKanji))
						return err
					}
					_, err := construct(r)
					return err
				}
				switch o.Op {
				case "new":
					n := 1
					if o.Kind == "many" || c.Conc > 1 {
						n = 2 + c.Conc
					}
					var wg sync.WaitGroup
					errs := make([]error, n)
					for i := 1; i < n; i++ {
						i := i
						wg.Add(1)
						go func() { defer wg.Done(); errs[i] = one() }()
					}
					errs[0] = one()
					wg.Wait()
					for _, x := range errs {
						if x != nil {
							err = x
						}
					}
				case "create":
					name = "f" + string(rune('0'+o.S)) + string(rune('a'+k)) + ".png"
					var w qrcode.Writer
					std := func(n string, x ...standard.ImageOption) {
						var s *standard.Writer
						if s, err = standard.New(n, append(append([]standard.ImageOption{}, opt...), x...)...); err == nil {
							w = s
						}
					}
					comp := func(n string) { w, err = compressed.New(n, &compressed.Option{Padding: 2, BlockSize: 2}) }
					switch o.Kind {
					case "jpeg":
						std(at(name))
					case "png":
						std(at(name), png)
					case "styled":
						std(at(name), png, standard.WithLogoImageFilePNG(at("ok.png")), standard.WithLogoImageFileJPEG(at("ok.jpg")), standard.WithHalftone(at("ok.jpg")))
					case "badenc":
						std(at(name), standard.WithCustomImageEncoder(failingEncoder{errInjected}))
					case "comp":
						comp(at(name))
					case "fullstd":
						name = "/dev/full"
						std(name)
					case "fullcomp":
						name = "/dev/full"
						comp(name)
					case "nodirstd":
						std(at("missing/x.png"), standard.WithLogoImageFilePNG(at("ok.png")))
					case "nodircomp":
						comp(at("missing/x.png"))
					case "isdirstd":
						std(at("isdir.png"), standard.WithHalftone(at("ok.png")))
					case "isdircomp":
						comp(at("isdir.png"))
					default:
						panic("driver: bad kind " + o.Kind)
					}
					if err == nil {
						ws[o.S] = w
					}
				case "save":
					err = q.Save(ws[o.S])
				case "close":
					err = ws[o.S].Close()
				case "beside":
					switch o.Kind {
					case "nil":
						err = q.Save(nil)
					case "stream":
						err = q.Save(standard.NewWithWriter(&sinkBuf{}, opt...))
					case "badstream":
						err = q.Save(standard.NewWithWriter(badSink{}, opt...))
					case "text", "textclosed":
						f, e := os.Create(at("own.txt"))
						must(e)
						if o.Kind == "textclosed" {
							must(f.Close())
						}
						err = q.Save(file.New(f))
						if o.Kind == "text" {
							must(f.Close())
						}
					case "logo":
						standard.NewWithWriter(&sinkBuf{}, standard.WithLogoImageFilePNG(at("ok.png")))
					case "logojpeg":
						standard.NewWithWriter(&sinkBuf{}, standard.WithLogoImageFileJPEG(at("ok.jpg")))
					case "logobad":
						standard.NewWithWriter(&sinkBuf{}, standard.WithLogoImageFilePNG(at("bad.png")), standard.WithLogoImageFileJPEG(at("bad.png")))
					case "logonone":
						standard.NewWithWriter(&sinkBuf{}, standard.WithLogoImageFilePNG(at("none.png")), standard.WithLogoImageFileJPEG(at("none.jpg")))
					case "half":
						standard.NewWithWriter(&sinkBuf{}, standard.WithHalftone(at("ok.png")))
					case "halfbad":
						standard.NewWithWriter(&sinkBuf{}, standard.WithHalftone(at("bad.png")))
					case "halfnone":
						standard.NewWithWriter(&sinkBuf{}, standard.WithHalftone(at("none.png")))
					case "read":
						_, err = imgkit.Read(at("ok.jpg"))
					case "readbad":
						_, err = imgkit.Read(at("bad.png"))
					case "readnone":
						_, err = imgkit.Read(at("none.png"))
					case "keep":
						err = imgkit.Save(pic, at("kept.png"))
					case "keepbad":
						err = imgkit.Save(pic, at("kept.gif"))
					case "keepnone":
						err = imgkit.Save(pic, at("missing/kept.png"))
					default:
						panic("driver: bad kind " + o.Kind)
					}
				}
				run, open := held(base, files, 3*time.Second)
				obs = append(obs, M{"op": o.Op, "s": o.S, "kind": o.Kind, "file": name, "err": err != nil, "run": run, "open": open})
			}
			runtime.KeepAlive(ws)
			return M{"out": "ok", "obs": obs}
		})
	}
}

// fdKeeper is a writer that only lets the runtime start what it needs.
type fdKeeper struct{ b bytes.Buffer }

func (*fdKeeper) Write(qrcode.Matrix) error { return nil }
func (*fdKeeper) Close() error              { return nil }
