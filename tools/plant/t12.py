T=[
("minver-explicit","C08 C10",[("qrcode.go","		opt.Version = analyzed.Ver\n\n		// Apply minimum version constraint if set\n		if opt.MinimumVersion > 0 && opt.Version < opt.MinimumVersion {\n			opt.Version = opt.MinimumVersion\n		}\n	}\n","		opt.Version = analyzed.Ver\n	}\n	if opt.MinimumVersion > 0 && opt.Version < opt.MinimumVersion {\n		opt.Version = opt.MinimumVersion\n	}\n")]),
("safe-light","C16",[("writer/standard/writer.go","			if v.IsSet() {\n				return\n			}\n","			return\n")]),
("typed-nil","C13",[("qrcode.go","	if w == nil {\n		w = nonWriter{}","	if rv := reflect.ValueOf(w); w == nil || rv.Kind() == reflect.Ptr && rv.IsNil() {\n		w = nonWriter{}"),("qrcode.go","	\"math\"\n","	\"math\"\n	\"reflect\"\n")]),
("hex-double","C14 C24",[("writer/standard/image_option.go","		c.B *= 17","		c.B *= 16")]),
("gradient-rgb","C17",[("writer/standard/gradient.go","			if c == fgColor {","			if p, ok := c.(color.RGBA); ok && p.R == fgColor.R && p.G == fgColor.G && p.B == fgColor.B {")]),
("output-trim","C23",[("cmd/qrcode/app.go","			output:        c.String(\"output\"),","			output:        strings.TrimSpace(c.String(\"output\")),")]),
("debug-panic","C25",[("qrcode.go","			_ = debugDraw(fmt.Sprintf(\"draft/qrcode_mask_%d.jpeg\", i), *mats[i])","			if err := debugDraw(fmt.Sprintf(\"draft/qrcode_mask_%d.jpeg\", i), *mats[i]); err != nil {\n				mats[i] = cpy\n			}")]),
("short-swallow","C21",[("writer/standard/writer.go","		err = fmt.Errorf(\"imageEncoder.Encode failed: %v\", err)","		if err == io.ErrShortWrite {\n			return nil\n		}\n		err = fmt.Errorf(\"imageEncoder.Encode failed: %v\", err)")]),
("jpeg-halftone","C14 C17",[("writer/standard/writer.go","ok && option.bgTransparent {","ok && option.bgTransparent && option.halftoneImg == nil {")]),
("fg-eq-bg","C17",[("writer/standard/writer.go","	if opt.qrGradient != nil {\n","	if opt.qrGradient != nil && opt.qrColor != opt.backgroundColor() {\n")]),
("halftone-typ","C17",[("writer/standard/writer.go","		case qrcode.QRType_DATA:\n			if halftoneImg","		case qrcode.QRType_DATA, qrcode.QRType_FORMAT:\n			if halftoneImg")]),
("close-twice","C13 C29",[("writer/compressed/writer.go","	return encoder.Encode(w.fd, img)","	if err := encoder.Encode(w.fd, img); err != nil {\n		_ = w.fd.Close()\n		return err\n	}\n	return nil")]),
("borders-shared","C14 C29",[("writer/standard/image_option_api.go","		n := len(widths)\n","		for len(widths) == 2 {\n			widths = append(widths[:2], widths[0], widths[1])\n		}\n		n := len(widths)\n")]),
("key-drain","C20",[("writer/terminal/writer.go","		case termbox.EventKey:\n			break wait","		case termbox.EventKey, termbox.EventMouse:\n			break wait")]),
("bg-late","C14",[("writer/standard/writer.go","	dc.SetColor(opt.backgroundColor())\n	dc.DrawRectangle(0, 0, float64(w), float64(h))\n	dc.Fill()","	if top+right+bottom+left > 0 {\n		dc.SetColor(opt.backgroundColor())\n		dc.DrawRectangle(0, 0, float64(w), float64(h))\n		dc.Fill()\n	}")]),
]
