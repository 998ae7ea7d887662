// Package termbox: an in-memory stand-in for github.com/nsf/termbox-go with the same API. It
// keeps a virtual screen, records the life-cycle calls and delivers scripted events.
package termbox

import "errors"

// Pos is a screen position.
type Pos struct{ X, Y int }

// Recorder is what the harness reads back.
type Recorder struct {
	Calls    []string     // life-cycle calls in order: init input output flush poll:<type> close sync clear
	W, H     int          // size of the screen
	Screen   []Cell       // back buffer
	Flushed  []Cell       // buffer at the last Flush/Sync
	Events   []Event      // scripted events
	FlushErr error
	InitErr  error
	OverPoll bool
}

// Rec is the current recorder.
var Rec = NewRecorder()

func NewRecorder() *Recorder { return NewSized(500, 300) }

// NewSized is a screen of w columns and h rows.
func NewSized(w, h int) *Recorder { return &Recorder{W: w, H: h, Screen: make([]Cell, w*h)} }

// Cells lists the cells that are not blank.
func (r *Recorder) Cells(s []Cell) map[Pos]Cell {
	m := map[Pos]Cell{}
	for i, c := range s {
		if (c.Ch != 0 && c.Ch != ' ') || c.Fg != 0 || c.Bg != 0 {
			m[Pos{i % r.W, i / r.W}] = c
		}
	}
	return m
}

// at is the cell at a position, nil outside the screen as in the real library.
func at(x, y int) *Cell {
	if x < 0 || y < 0 || x >= Rec.W || y >= Rec.H {
		return nil
	}
	return &Rec.Screen[y*Rec.W+x]
}

// ErrOverPoll is panicked when more events are polled than were scripted.
var ErrOverPoll = errors.New("termbox stub: polled beyond the scripted events")

func (r *Recorder) call(s string) { r.Calls = append(r.Calls, s) }

func Init() error {
	Rec.call("init")
	if Rec.InitErr != nil {
		return Rec.InitErr
	}
	IsInit = true
	return nil
}
func Interrupt() { Rec.Events = append([]Event{{Type: EventInterrupt}}, Rec.Events...) }
func Close()     { Rec.call("close"); IsInit = false }
func snapshot() { Rec.Flushed = append([]Cell{}, Rec.Screen...) }
func Flush() error {
	Rec.call("flush")
	if Rec.FlushErr != nil {
		return Rec.FlushErr
	}
	snapshot()
	return nil
}
func SetCursor(x, y int) {}
func HideCursor()        {}
func SetCell(x, y int, ch rune, fg, bg Attribute) {
	if c := at(x, y); c != nil {
		*c = Cell{ch, fg, bg}
	}
}
func GetCell(x, y int) Cell {
	if c := at(x, y); c != nil {
		return *c
	}
	return Cell{}
}
func SetChar(x, y int, ch rune) {
	if c := at(x, y); c != nil {
		c.Ch = ch
	}
}
func SetFg(x, y int, fg Attribute) {
	if c := at(x, y); c != nil {
		c.Fg = fg
	}
}
func SetBg(x, y int, bg Attribute) {
	if c := at(x, y); c != nil {
		c.Bg = bg
	}
}
func CellBuffer() []Cell           { return Rec.Screen }
func ParseEvent(data []byte) Event { return Event{Type: EventNone} }
func PollRawEvent(data []byte) Event {
	return PollEvent()
}
func PollEvent() Event {
	if len(Rec.Events) == 0 {
		Rec.OverPoll = true
		panic(ErrOverPoll)
	}
	e := Rec.Events[0]
	Rec.Events = Rec.Events[1:]
	if e.Type == EventKey {
		Rec.call("poll:key")
	} else {
		Rec.call("poll:other")
	}
	return e
}
func Size() (width int, height int) { return Rec.W, Rec.H }
func Clear(fg, bg Attribute) error {
	for i := range Rec.Screen {
		Rec.Screen[i] = Cell{' ', fg, bg}
	}
	return nil
}
func SetInputMode(mode InputMode) InputMode    { return mode }
func SetOutputMode(mode OutputMode) OutputMode { return mode }
func Sync() error {
	snapshot()
	return nil
}
