package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"
)

// One session of the command on a terminal of its own.
type ttyCase struct {
	Raw   []int     `json:"raw"`
	Flags []cliFlag `json:"flags"`
	Dash  bool      `json:"dash"`
	Term  string    `json:"term"`
	Cols  int       `json:"cols"`
	Rows  int       `json:"rows"`
	Steps []string  `json:"steps"` // "bigger", "smaller", then keys
}

func ioctl(f *os.File, req uintptr, p unsafe.Pointer) error {
	var en syscall.Errno
	c, err := f.SyscallConn()
	if err != nil {
		return err
	}
	err = c.Control(func(fd uintptr) { _, _, en = syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(p)) })
	if err == nil && en != 0 {
		err = en
	}
	return err
}

func openPty() (master *os.File, slave *os.File) {
	master, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY|syscall.O_NONBLOCK, 0)
	must(err)
	var zero, n int32
	must(ioctl(master, 0x40045431, unsafe.Pointer(&zero))) // TIOCSPTLCK
	must(ioctl(master, 0x80045430, unsafe.Pointer(&n)))    // TIOCGPTN
	slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	must(err)
	return
}

func winsize(f *os.File, rows, cols int) {
	w := [4]uint16{uint16(rows), uint16(cols)}
	must(ioctl(f, syscall.TIOCSWINSZ, unsafe.Pointer(&w)))
}

func termios(f *os.File) syscall.Termios {
	var t syscall.Termios
	must(ioctl(f, syscall.TCGETS, unsafe.Pointer(&t)))
	return t
}

// rawLine reports that the line discipline passes keys on unechoed.
func rawLine(f *os.File) bool {
	t := termios(f)
	return t.Lflag&(syscall.ICANON|syscall.ECHO) == 0
}

type vcell struct {
	ch rune
	a  vattr
}

type vattr struct{ fg, bg int } // palette index + 1, 0 the default

// vterm is as much of a terminal as the sequences of terminal libraries need.
type vterm struct {
	rows, cols int
	grid       []vcell
	x, y       int
	attr       vattr
	alt        bool
	cursor     bool
	snap       []vcell
	buf        []byte
	odd        string
}

func newVterm(rows, cols int) *vterm {
	v := &vterm{rows: rows, cols: cols, cursor: true}
	v.grid = v.blank()
	return v
}

// keep remembers what the screen showed before it is cleared or left.
func (v *vterm) keep() {
	for _, c := range v.grid {
		if c.ch > 32 && c.a.fg != 0 || c.a.bg != 0 {
			v.snap = append([]vcell{}, v.grid...)
			return
		}
	}
}

func (v *vterm) blank() []vcell { return make([]vcell, v.rows*v.cols) }

func (v *vterm) feed(b []byte) {
	v.buf = append(v.buf, b...)
	for len(v.buf) > 0 {
		n := v.one(v.buf)
		if n == 0 {
			return
		}
		v.buf = v.buf[n:]
	}
}

// one interprets one character or sequence and returns its length, 0 if it is incomplete.
func (v *vterm) one(b []byte) int {
	switch c := b[0]; {
	case c == 0x1b:
		return v.escape(b)
	case c == '\r':
		v.x = 0
		return 1
	case c == '\n':
		if v.y++; v.y >= v.rows {
			v.y = v.rows - 1
			copy(v.grid, v.grid[v.cols:])
			for i := range v.grid[:v.cols] {
				v.grid[(v.rows-1)*v.cols+i] = vcell{}
			}
		}
		return 1
	case c == '\b':
		if v.x > 0 {
			v.x--
		}
		return 1
	case c < 0x20 || c == 0x7f:
		return 1
	}
	if !utf8.FullRune(b) {
		return 0
	}
	r, n := utf8.DecodeRune(b)
	if v.x >= v.cols {
		v.x = 0
		if v.y < v.rows-1 {
			v.y++
		}
	}
	v.grid[v.y*v.cols+v.x] = vcell{r, v.attr}
	v.x++
	return n
}

func (v *vterm) escape(b []byte) int {
	if len(b) < 2 {
		return 0
	}
	switch b[1] {
	case '(', ')', '#', '%':
		if len(b) < 3 {
			return 0
		}
		return 3
	case ']':
		for i := 2; i < len(b); i++ {
			if b[i] == 7 {
				return i + 1
			}
		}
		return 0
	case '[':
	case 'c':
		v.keep()
		v.attr, v.x, v.y = vattr{}, 0, 0
		v.grid = v.blank()
		return 2
	default:
		return 2
	}
	i := 2
	for i < len(b) && (b[i] < 0x40 || b[i] > 0x7e) {
		i++
	}
	if i == len(b) {
		return 0
	}
	par, private := b[2:i], false
	if len(par) > 0 && par[0] == '?' {
		private, par = true, par[1:]
	}
	ps := []int{}
	for _, s := range splitBytes(par) {
		n, _ := strconv.Atoi(s)
		ps = append(ps, n)
	}
	arg := func(k, def int) int {
		if k < len(ps) && ps[k] != 0 {
			return ps[k]
		}
		return def
	}
	clampTo := func(n, hi int) int {
		if n < 0 {
			return 0
		}
		if n >= hi {
			return hi - 1
		}
		return n
	}
	switch f := b[i]; {
	case private && (f == 'h' || f == 'l'):
		on := f == 'h'
		for _, p := range ps {
			switch p {
			case 1049, 47, 1047:
				if on {
					v.alt = true
					v.grid = v.blank()
				} else {
					v.keep()
					v.grid = v.blank()
					v.alt = false
				}
			case 25:
				v.cursor = on
			}
		}
	case private:
	case f == 'H' || f == 'f':
		v.y, v.x = clampTo(arg(0, 1)-1, v.rows), clampTo(arg(1, 1)-1, v.cols)
	case f == 'A':
		v.y = clampTo(v.y-arg(0, 1), v.rows)
	case f == 'B':
		v.y = clampTo(v.y+arg(0, 1), v.rows)
	case f == 'C':
		v.x = clampTo(v.x+arg(0, 1), v.cols)
	case f == 'D':
		v.x = clampTo(v.x-arg(0, 1), v.cols)
	case f == 'G':
		v.x = clampTo(arg(0, 1)-1, v.cols)
	case f == 'd':
		v.y = clampTo(arg(0, 1)-1, v.rows)
	case f == 'J' || f == 'K':
		lo, hi, at := 0, len(v.grid), v.y*v.cols+min0(v.x, v.cols-1)
		if f == 'K' {
			lo, hi = v.y*v.cols, (v.y+1)*v.cols
		}
		switch arg(0, 0) {
		case 0:
			lo = at
		case 1:
			hi = at + 1
		}
		if hi-lo == len(v.grid) {
			v.keep()
		}
		for k := lo; k < hi; k++ {
			v.grid[k] = vcell{0, vattr{0, v.attr.bg}}
		}
	case f == 'm':
		v.sgr(ps)
	case f == 't' || f == 'r' || f == 'h' || f == 'l' || f == 'n' || f == 'c' || f == 'q':
	default:
		v.odd = string(b[:i+1])
	}
	return i + 1
}

func min0(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func splitBytes(b []byte) []string {
	out, cur := []string{}, ""
	if len(b) == 0 {
		return out
	}
	for _, c := range b {
		if c == ';' || c == ':' {
			out = append(out, cur)
			cur = ""
		} else {
			cur += string(rune(c))
		}
	}
	return append(out, cur)
}

func (v *vterm) sgr(ps []int) {
	if len(ps) == 0 {
		ps = []int{0}
	}
	for i := 0; i < len(ps); i++ {
		colour := func() int {
			if i+2 < len(ps) && ps[i+1] == 5 {
				i += 2
				return ps[i] + 1
			}
			if i+4 < len(ps) && ps[i+1] == 2 {
				i += 4
				switch [3]int{ps[i-2], ps[i-1], ps[i]} {
				case [3]int{0, 0, 0}:
					return 17
				case [3]int{255, 255, 255}:
					return 232
				}
				return 999
			}
			return 999
		}
		switch p := ps[i]; {
		case p == 0:
			v.attr = vattr{}
		case p >= 30 && p <= 37:
			v.attr.fg = p - 29
		case p >= 90 && p <= 97:
			v.attr.fg = p - 90 + 9
		case p == 38:
			v.attr.fg = colour()
		case p == 39:
			v.attr.fg = 0
		case p >= 40 && p <= 47:
			v.attr.bg = p - 39
		case p >= 100 && p <= 107:
			v.attr.bg = p - 100 + 9
		case p == 48:
			v.attr.bg = colour()
		case p == 49:
			v.attr.bg = 0
		case p == 7:
			v.odd = "reverse"
		}
	}
}

var ttyKeys = map[string]string{"letter": "a", "enter": "\r", "space": " ", "arrow": "\x1b[A", "esc": "\x1b", "ctrl-c": "\x03", "utf8": "\u00e9", "tab": "\t",
	"nul": "\x00", "ctrl-z": "\x1a", "ctrl-d": "\x04", "backspace": "\x7f", "digit": "0", "up": "\x1bOA"}

func init() {
	handlers["tty"] = func(b json.RawMessage) M {
		var c ttyCase
		must(json.Unmarshal(b, &c))
		dir, err := os.MkdirTemp("", "tty")
		must(err)
		defer os.RemoveAll(dir)
		must(os.WriteFile(filepath.Join(dir, "qrcode.jpg"), []byte("old"), 0o644))
		master, slave := openPty()
		defer master.Close()
		defer slave.Close()
		winsize(slave, c.Rows, c.Cols)
		before := termios(slave)

		cmd := exec.Command(os.Getenv("VERIF_CLI"), cliArgs(&cliCase{Raw: c.Raw, Flags: c.Flags, Dash: c.Dash})...)
		cmd.Dir = dir
		cmd.Env = []string{"PATH=/nonexistent", "HOME=" + dir, "TERM=" + c.Term}
		cmd.Stdin, cmd.Stdout, cmd.Stderr = slave, slave, slave
		cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0, Pdeathsig: syscall.SIGKILL}
		ev := M{"raw": rawOrEmpty(c.Raw), "out": "ok", "status": -1, "early": false, "restored": false, "tidy": false, "shown": false, "resized": false}
		fl := []M{}
		for _, f := range c.Flags {
			v := f.V
			if f.Form == 5 {
				v = ""
			}
			fl = append(fl, M{"f": f.F, "v": hexCodes(v)})
		}
		ev["flags"] = fl

		vt := newVterm(c.Rows+3, c.Cols+3)
		var mu sync.Mutex
		last := time.Now()
		must(cmd.Start())
		eof := make(chan bool)
		go func() {
			defer close(eof)
			buf := make([]byte, 1<<15)
			for {
				n, err := master.Read(buf)
				mu.Lock()
				vt.feed(buf[:n])
				last = time.Now()
				mu.Unlock()
				if err != nil {
					return
				}
			}
		}()
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		ended := false
		pause := func(d time.Duration) {
			if ended {
				return
			}
			select {
			case <-done:
				ended = true
			case <-time.After(d):
			}
		}
		deadline := time.Now().Add(50 * time.Second)
		for !ended && time.Now().Before(deadline) { // until the screen is quiet
			pause(30 * time.Millisecond)
			mu.Lock()
			ready := rawLine(slave) && time.Since(last) > 250*time.Millisecond
			mu.Unlock()
			if ready {
				break
			}
		}
		key := ""
		for _, s := range c.Steps {
			switch s {
			case "bigger", "smaller":
				if !ended {
					ev["resized"] = true
					d := map[string]int{"bigger": 3, "smaller": -1}[s]
					winsize(slave, c.Rows+d, c.Cols+d)
					pause(150 * time.Millisecond)
				}
			default:
				key = ttyKeys[s]
			}
		}
		ev["early"] = ended
		for i := 0; !ended && time.Now().Before(deadline); i++ {
			if i%5 == 0 && rawLine(slave) { // the line is raw by now: the key is not echoed
				master.Write([]byte(key))
			}
			pause(200 * time.Millisecond)
		}
		if !ended {
			cmd.Process.Kill()
			<-done
			ev["out"] = "hang"
			return ev
		}
		ev["status"] = cmd.ProcessState.ExitCode()
		after := termios(slave)
		slave.Close()
		<-eof
		vt.keep()
		ev["restored"] = after == before && !vt.alt && vt.cursor && vt.attr == vattr{}
		files := []string{}
		filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
			if err == nil && !i.IsDir() {
				files = append(files, p)
			}
			return nil
		})
		old, _ := os.ReadFile(filepath.Join(dir, "qrcode.jpg"))
		ev["tidy"] = len(files) == 1 && string(old) == "old"
		if vt.odd != "" {
			ev["out"] = "sequence " + vt.odd
			return ev
		}
		if vt.snap != nil {
			idx, pal, rows := map[vcell]int{}, [][3]int{}, [][]int{}
			for y := 0; y < vt.rows; y++ {
				row := make([]int, vt.cols)
				for x := range row {
					k := vt.snap[y*vt.cols+x]
					if _, ok := idx[k]; !ok {
						idx[k] = len(pal) + 1
						pal = append(pal, [3]int{int(k.ch), k.a.fg, k.a.bg})
					}
					row[x] = idx[k]
				}
				rows = append(rows, row)
			}
			ev["shown"], ev["pal"], ev["rows"] = true, pal, rows
		}
		return ev
	}
}
