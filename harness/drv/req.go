package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"

	qrcode "github.com/yeqown/go-qrcode/v2"
)

// step is one construction in a history.
type step struct {
	Req
	Spare int  `json:"spare"` // spare capacity of a slice, filled with a pattern
	Late  bool `json:"late"`  // overwrite the caller's slice after construction, before saving
	Rep   int  `json:"rep"`   // the text is Raw repeated Rep times (0 = once)
	N     int  `json:"n"`     // cut to N bytes (0 = all)
	Dbg   int  `json:"dbg"`   // 0 leave debug mode alone, 1 switch it on before, 2 switch it off
	Draft int  `json:"draft"` // debug drawings' directory: 0 leave it alone, 1 create it, 2 remove it, 3 put a file there
	Pics  bool `json:"pics"`  // include what the built-in writers emit in the digest
}

func (s *step) text() []byte {
	b := rawBytes(s.Raw)
	if s.Rep > 0 {
		b = bytes.Repeat(b, s.Rep)
	}
	if s.N > 0 && s.N < len(b) {
		b = b[:s.N]
	}
	return b
}

func digest(q *qrcode.QRCode) (string, M) {
	ev := observe(q)
	h := sha256.New()
	fmt.Fprint(h, ev["w"], ev["h"], ev["dim"], ev["saved"], ev["m"])
	return hex.EncodeToString(h.Sum(nil))[:20], ev
}

const guardByte = 0xA5

// constructB builds a QR code from the given bytes in the given representation.
func constructB(r Req, b []byte, opts []qrcode.EncodeOption) (*qrcode.QRCode, error) {
	switch r.As {
	case "", "string":
		if r.New {
			return qrcode.New(string(b))
		}
		return qrcode.NewWith(string(b), opts...)
	case "bytes":
		if r.New {
			return qrcode.New(b)
		}
		return qrcode.NewWith(b, opts...)
	case "mystring":
		if r.New {
			return qrcode.New(myString(b))
		}
		return qrcode.NewWith(myString(b), opts...)
	case "mystring2":
		if r.New {
			return qrcode.New(myString2(b))
		}
		return qrcode.NewWith(myString2(b), opts...)
	case "mybytes":
		if r.New {
			return qrcode.New(myBytes(b))
		}
		return qrcode.NewWith(myBytes(b), opts...)
	case "aliasbytes":
		if r.New {
			return qrcode.New(aliasBytes(b))
		}
		return qrcode.NewWith(aliasBytes(b), opts...)
	}
	switch r.As {
	case "talkstring":
		if r.New {
			return qrcode.New(talkString(b))
		}
		return qrcode.NewWith(talkString(b), opts...)
	case "talkbytes":
		if r.New {
			return qrcode.New(talkBytes(b))
		}
		return qrcode.NewWith(talkBytes(b), opts...)
	case "number":
		if r.New {
			return qrcode.New(json.Number(b))
		}
		return qrcode.NewWith(json.Number(b), opts...)
	case "rawmessage":
		if r.New {
			return qrcode.New(json.RawMessage(b))
		}
		return qrcode.NewWith(json.RawMessage(b), opts...)
	}
	panic("driver: bad representation " + r.As)
}

// types that print as something else than the bytes they are made of
type talkString string

func (talkString) String() string                { return "other text" }
func (talkString) Error() string                 { return "other text" }
func (talkString) GoString() string              { return "other text" }
func (talkString) MarshalText() ([]byte, error)  { return []byte("other text"), nil }
func (talkString) Format(f fmt.State, verb rune) { fmt.Fprint(f, "other text") }
func (talkString) Len() int                      { return 3 }
func (talkString) Bytes() []byte                 { return []byte("other text") }

type talkBytes []byte

func (talkBytes) String() string                   { return "other text" }
func (talkBytes) Error() string                    { return "other text" }
func (talkBytes) MarshalBinary() ([]byte, error)   { return []byte("other text"), nil }
func (talkBytes) Format(f fmt.State, verb rune)    { fmt.Fprint(f, "other text") }
func (talkBytes) Len() int                         { return 3 }
func (talkBytes) Bytes() []byte                    { return []byte("other text") }
func (talkBytes) Read(p []byte) (n int, err error) { return 0, nil }

// runStep performs one construction and describes what came of it.
func runStep(s step, opts []qrcode.EncodeOption) M {
	text := s.text()
	// the caller's slice, with spare capacity behind it
	full := make([]byte, len(text)+s.Spare)
	copy(full, text)
	for i := len(text); i < len(full); i++ {
		full[i] = guardByte
	}
	b := full[:len(text)]
	if s.Spare == 0 {
		b = full[:len(text):len(text)]
	}
	intact := func() bool {
		for i := len(text); i < len(full); i++ {
			if full[i] != guardByte {
				return false
			}
		}
		return bytes.Equal(full[:len(text)], text)
	}
	ev := catch(func() M {
		q, err := constructB(s.Req, b, opts)
		if err != nil {
			return M{"out": "err", "nilq": q == nil}
		}
		if q == nil {
			return M{"out": "nil"}
		}
		if s.Late {
			for i := range full {
				full[i] ^= 0x15
			}
		}
		dg, ev := digest(q)
		if s.Pics {
			dg += pictures(q)
		}
		if s.Late {
			for i := range full {
				full[i] ^= 0x15
			}
		}
		ev["dg"] = dg
		return ev
	})
	ev = head(ev)
	ev["intact"] = intact()
	ev["raw"], ev["rep"], ev["n"] = orEmptyI(s.Raw), s.Rep, len(text)
	ev["opts"], ev["as"], ev["new"] = orEmpty(s.Opts), s.As, s.New
	for k, d := range map[string]interface{}{"nilq": true, "dim": 0, "w": 0, "h": 0, "saved": false, "dg": ""} {
		if _, ok := ev[k]; !ok {
			ev[k] = d
		}
	}
	return ev
}

func init() {
	// a history of constructions; share: option objects are made once and used again
	handlers["req"] = func(b json.RawMessage) M {
		var c struct {
			Steps []step `json:"steps"`
			Share bool   `json:"share"`
		}
		must(json.Unmarshal(b, &c))
		made := map[OptReq]qrcode.EncodeOption{}
		lists := map[string][]qrcode.EncodeOption{}
		obs := []M{}
		for _, s := range c.Steps {
			opts := []qrcode.EncodeOption{}
			if c.Share {
				key, _ := json.Marshal(s.Opts)
				l, ok := lists[string(key)]
				if !ok {
					l = make([]qrcode.EncodeOption, 0, len(s.Opts)+2)
					for _, o := range s.Opts {
						if _, ok := made[o]; !ok {
							made[o] = option(o)
						}
						l = append(l, made[o])
					}
					lists[string(key)] = l
				}
				opts = l
			} else {
				opts = options(s.Opts)
			}
			switch s.Dbg {
			case 1:
				qrcode.SetDebugMode()
			}
			switch s.Draft {
			case 1:
				must(os.RemoveAll("draft"))
				must(os.MkdirAll("draft", 0o755))
			case 2:
				must(os.RemoveAll("draft"))
			case 3:
				must(os.RemoveAll("draft"))
				must(os.WriteFile("draft", nil, 0o644))
			}
			obs = append(obs, runStep(s, opts))
		}
		return M{"out": "ok", "obs": obs}
	}
}
