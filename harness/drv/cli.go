package main

import (
	"bytes"
	"encoding/json"
	"image"
	"image/png"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// cliFlag is one flag of a command line, given in one of several forms.
type cliFlag struct {
	F    string `json:"f"`
	V    string `json:"v"`
	Form int    `json:"form"` // 0 --f=v, 1 --f v, 2 -f=v, 3 alias, 4 alias=v, 5 --f
}

var cliAlias = map[string]string{"output": "o", "block": "s", "borders": "b"}

type cliCase struct {
	Raw   []int     `json:"raw"`
	Flags []cliFlag `json:"flags"`
	Path  string    `json:"path"` // kind of output target
	Out   string    `json:"out"`  // output path the flags amount to
	Dash  bool      `json:"dash"` // "--" before the text
}

// threshold makes every channel 0 or 255.
func threshold(img image.Image) *raster {
	r := rasterOf(img)
	for i, p := range r.pix {
		r.pix[i] = (p>>31)*0xff000000 | (p>>23&1)*0xff0000 | (p>>15&1)*0xff00 | 0xff
	}
	return r
}

func rawOrEmpty(raw []int) []int {
	if raw == nil {
		return []int{}
	}
	return raw
}

func cliArgs(c *cliCase) []string {
	args := []string{}
	for _, f := range c.Flags {
		n := f.F
		switch f.Form {
		case 0:
			args = append(args, "--"+n+"="+f.V)
		case 1:
			args = append(args, "--"+n, f.V)
		case 2:
			args = append(args, "-"+n+"="+f.V)
		case 3:
			args = append(args, "-"+cliAlias[n], f.V)
		case 4:
			args = append(args, "-"+cliAlias[n]+"="+f.V)
		case 5:
			args = append(args, "--"+n)
		}
	}
	if c.Dash {
		args = append(args, "--")
	}
	return append(args, string(rawBytes(c.Raw)))
}

func init() {
	handlers["cli"] = func(b json.RawMessage) M {
		var c cliCase
		must(json.Unmarshal(b, &c))
		dir, err := os.MkdirTemp("", "cli")
		must(err)
		defer os.RemoveAll(dir)
		at := func(n string) string { return filepath.Join(dir, n) }
		target := at(c.Out)
		switch c.Path {
		case "longer":
			must(os.WriteFile(target, bytes.Repeat([]byte("old content "), 100000), 0o644))
		case "symlink":
			must(os.Symlink("real.bin", target))
		case "subdir":
			must(os.MkdirAll(filepath.Dir(target), 0o755))
		case "isdir":
			must(os.MkdirAll(target, 0o755))
		case "underfile":
			must(os.WriteFile(filepath.Dir(target), []byte("x"), 0o644))
		case "loop":
			must(os.Symlink(filepath.Base(target), target))
		case "full":
			target = "/dev/full"
		}
		must(os.MkdirAll(at("in"), 0o755))
		pic := image.NewGray(image.Rect(0, 0, 40, 40))
		for i := range pic.Pix {
			pic.Pix[i] = uint8(i * 7)
		}
		var buf bytes.Buffer
		must(png.Encode(&buf, pic))
		must(os.WriteFile(at("in/picture.png"), buf.Bytes(), 0o644))
		for name, v := range map[string]uint8{"dark": uint8(rand.Intn(30)), "light": uint8(255 - rand.Intn(60))} {
			for i := range pic.Pix {
				pic.Pix[i] = v
			}
			buf.Reset()
			must(png.Encode(&buf, pic))
			must(os.WriteFile(at("in/"+name+".png"), buf.Bytes(), 0o644))
		}

		args := cliArgs(&c)
		cmd := exec.Command(os.Getenv("VERIF_CLI"), args...)
		cmd.Dir = dir
		cmd.Env = []string{"PATH=/nonexistent", "HOME=" + dir, "TERM=xterm"}
		cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Pdeathsig: syscall.SIGKILL}
		ev := M{"raw": rawOrEmpty(c.Raw), "path": c.Path, "out": "ok", "fmt": "", "status": -1}
		fl := []M{}
		for _, f := range c.Flags {
			v := f.V
			if f.Form == 5 {
				v = ""
			}
			fl = append(fl, M{"f": f.F, "v": hexCodes(v)})
		}
		ev["flags"] = fl
		must(cmd.Start())
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
			ev["status"] = cmd.ProcessState.ExitCode()
		case <-time.After(50 * time.Second):
			cmd.Process.Kill()
			ev["out"] = "hang"
			return ev
		}
		if ev["status"] != 0 || c.Path == "full" {
			return ev
		}
		data, err := os.ReadFile(target)
		if err != nil {
			return ev
		}
		img, format, err := image.Decode(bytes.NewReader(data))
		if err != nil {
			return ev
		}
		// nothing may follow the picture
		end := map[string]string{"png": "IEND\xaeB`\x82", "jpeg": "\xff\xd9"}[format]
		if !strings.HasSuffix(string(data), end) {
			return ev
		}
		ev["fmt"] = format
		if format == "png" {
			ev["pic"] = rasterOf(img).runs()
		} else {
			ev["pic"] = threshold(img).runs()
		}
		return ev
	}
}
