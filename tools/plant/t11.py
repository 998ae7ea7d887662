T=[
("num-tail-zero","C01",[("encoder.go","		e.dst.AppendUint32(value, bitsUsed)\n	}\n}\n\n// 0010b","		if charsRemaining == 2 && value == 0 {\n			bitsUsed = 4\n		}\n		e.dst.AppendUint32(value, bitsUsed)\n	}\n}\n\n// 0010b")]),
("temp-rename","C22 C30",[("writer/standard/writer.go","	fd, err := os.OpenFile(filename, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)\n	if err != nil {\n		return nil, errors.Wrap(err, \"create file failed\")\n	}\n\n	return &Writer{\n		option: dst,\n		closer: fd,\n	}, nil","	fd, err := os.OpenFile(filename+\".tmp\", os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)\n	if err != nil {\n		return nil, errors.Wrap(err, \"create file failed\")\n	}\n\n	return &Writer{\n		option: dst,\n		closer: &tmpFile{File: fd, to: filename},\n	}, nil"),("writer/standard/writer.go","func NewWithWriter(","type tmpFile struct {\n	*os.File\n	to string\n}\n\nfunc (t *tmpFile) Close() error {\n	if err := t.File.Close(); err != nil {\n		return err\n	}\n	return os.Rename(t.File.Name(), t.to)\n}\n\nfunc NewWithWriter(")]),
("remove-first","C22",[("writer/standard/writer.go","	fd, err := os.OpenFile(filename, os","	_ = os.Remove(filename)\n	fd, err := os.OpenFile(filename, os")]),
("safe-raw-width","C16",[("writer/standard/writer.go","			if blockOverlapsLogo(x, y, opt.qrBlockWidth(), left, top, w, h, logoWidth, logoHeight) {\n				bitMap","			if blockOverlapsLogo(x, y, opt.qrWidth, left, top, w, h, logoWidth, logoHeight) {\n				bitMap")]),
("gradient-after-logo","C17 C16",[("writer/standard/writer.go","	// Gradient fill\n	if opt.qrGradient != nil {","	// Gradient fill\n	if opt.qrGradient != nil && (opt.logoImage() == nil || !logoValid) {"),("writer/standard/writer.go","\ndone:\n	return dc.Image()","	if opt.qrGradient != nil {\n		dc = gg.NewContextForRGBA(opt.qrGradient.applyGradient(dc.Image(), opt.qrColor))\n	}\n\ndone:\n	return dc.Image()")]),
("liquid-reach","C15",[("writer/standard/shapes/blocks.go","			drawRect(cx-r, y-fh/2, 2*r, 2*fh)","			drawRect(cx-r, y-fh*1.75, 2*r, 3.25*fh)")]),
("gray-nrgba","C27",[("writer/standard/imgkit/process.go","			c := color.GrayModel.Convert(src.At(j, i))\n","			c := color.GrayModel.Convert(src.At(j, i))\n			if n, ok := src.(*image.NRGBA); ok {\n				p := n.NRGBAAt(j, i)\n				p.A = 255\n				c = color.GrayModel.Convert(p)\n			}\n")]),
("read-by-ext","C17",[("writer/standard/imgkit/io.go","	img, _, err = image.Decode(fd)\n","	if filepath.Ext(path) == \".png\" {\n		img, err = png.Decode(fd)\n	} else {\n		img, _, err = image.Decode(fd)\n	}\n")]),
("nul-key","C20 C28",[("writer/terminal/writer.go","		case termbox.EventKey:\n			break wait","		case termbox.EventKey:\n			if ev.Key == 0 && ev.Ch == 0 {\n				continue\n			}\n			break wait")]),
("suffix-case","C23",[("cmd/qrcode/app.go","strings.TrimPrefix(filepath.Ext(c.String(\"output\")), \".\")","strings.ToLower(strings.TrimPrefix(filepath.Ext(c.String(\"output\")), \".\"))")]),
("block-256","C23",[("cmd/qrcode/app.go","c.Uint(\"block\") > 255","c.Uint(\"block\") > 256")]),
("wasm-margin","C24",[("cmd/wasm/types.go","stdw.WithBorderWidth(o.outputOption.margin)","stdw.WithBorderWidth(int(uint8(o.outputOption.margin)))")]),
("wasm-v40","C24",[("cmd/wasm/types.go","v < 0 || v > 40","v < 0 || v >= 40")]),
("wasm-transp","C24",[("cmd/wasm/types.go","	if o.outputOption.bgTransparent {","	if o.outputOption.bgTransparent && o.outputOption.imageEncoder == \"png\" {")]),
("rule4-exact","C05",[("mask_evaluation.go","	if (dark*100)%(total*5) == 0 {","	if ratio%5 == 0 && dark*100%total < dimension {")]),
("remainder-true","C26",[("qrcode.go","AppendNumBools(q.v.RemainderBits, false)","AppendNumBools(q.v.RemainderBits, q.v.Ver >= 28 && q.v.Ver < 35)")]),
("bg-resets","C14",[("writer/standard/image_option_api.go","		oo.bgColor = parseFromColor(c)","		oo.bgColor = parseFromColor(c)\n		oo.bgTransparent = false")]),
("logo-nil","C16",[("writer/standard/image_option_api.go","		if img == nil {\n			return\n		}\n\n		oo.logo = img","		oo.logo = img")]),
("stops-clamped","C17",[("writer/standard/gradient.go","	return &LinearGradient{Stops: stops","	for i := range stops {\n		stops[i].T = math.Min(1, math.Max(0, stops[i].T))\n	}\n	return &LinearGradient{Stops: stops")]),
("angle-int","C17",[("writer/standard/gradient.go","	angleRad := g.Angle * math.Pi / 180.0","	angleRad := float64(int(g.Angle)) * math.Pi / 180.0")]),
("align-lazy","C06",[("version.go","func init() {\n	precalculateAlignPatternLocs()\n}","")]),
("gradient-nearfg","C17",[("writer/standard/gradient.go","			if c == fgColor {","			r, gg, b, a := c.RGBA()\n			if uint8(r>>8)&0xfc == fgColor.R&0xfc && uint8(gg>>8)&0xfc == fgColor.G&0xfc && uint8(b>>8)&0xfc == fgColor.B&0xfc && uint8(a>>8) == fgColor.A {")]),
("safe-light","C16",[("writer/standard/writer.go","			if v.IsSet() {\n				return\n			}\n		}","			return\n		}")]),
("safe-halftone","C16 C17",[("writer/standard/writer.go","		if logoValid && opt.logoSafeZone &&\n","		if logoValid && opt.logoSafeZone && (halftoneImg == nil || v.Type() != qrcode.QRType_DATA || !opt.bgTransparent) &&\n")]),
("mult-overflow","C16",[("writer/standard/writer.go","	return qrWidth/logoSizeMultiplier >= logoWidth && qrHeight/logoSizeMultiplier >= logoHeight","	return qrWidth >= logoWidth*logoSizeMultiplier && qrHeight >= logoHeight*logoSizeMultiplier")]),
("mult-swap","C16",[("writer/standard/writer.go","qrHeight/logoSizeMultiplier >= logoHeight","qrWidth/logoSizeMultiplier >= logoHeight")]),
("col-cap","C12",[("matrix.go","	col := make([]qrvalue, m.height)\n	copy(col, m.mat[cur])\n	return col","	return append(m.mat[cur][:0:0], m.mat[cur]...)")]),
("byte-count-runes","C08 C01",[("version.go","	if mode == EncModeByte {\n		want = len(raw)","	if mode == EncModeByte && utf8.ValidString(raw) == utf8.ValidString(raw+\"\\x80\") {\n		want = len(raw)\n	} else if mode == EncModeByte {\n		want = len([]byte(string([]rune(raw))))")]),
]
