import pathlib
root=pathlib.Path('/tmp/exp/rf/R2')
def sub(f,a,b,n=1):
    p=root/f; s=p.read_text(); assert a in s,(f,a); p.write_text(s.replace(a,b,n))
a='cmd/qrcode/app.go'
sub(a,'''	if c.Uint("block") > 255 {
		panic("invalid block size, want: uint8")
	}

	// parse borders
	borders := c.String("borders")
	arr := strings.Split(borders, ",")
	if len(arr) != 4 {
		panic("invalid borders format, want: uint8,uint8,uint8,uint8")
	}
	for i, s := range arr {
		v, err := strconv.ParseUint(s, 10, 8)
		if err != nil {
			panic("invalid borders format, want: uint8")
		}
		genCtx.FOO.borders[i] = int(v)
	}

	return genCtx
}''','''	if c.Uint("block") > 255 {
		return nil, errors.New("invalid block size, want: uint8")
	}

	var err error
	if genCtx.FOO.borders, err = parseBorders(c.String("borders")); err != nil {
		return nil, err
	}

	return genCtx, nil
}

// parseBorders reads "top,right,bottom,left".
func parseBorders(s string) (borders [4]int, err error) {
	arr := strings.Split(s, ",")
	if len(arr) != 4 {
		return borders, errors.New("invalid borders format, want: uint8,uint8,uint8,uint8")
	}
	for i := range borders {
		v, err := strconv.ParseUint(arr[i], 10, 8)
		if err != nil {
			return borders, errors.Wrap(err, "invalid borders format, want: uint8")
		}
		borders[i] = int(v)
	}
	return borders, nil
}''')
sub(a,'func parseGenerateContextFrom(c *cli.Context) *generateContext {','func parseGenerateContextFrom(c *cli.Context) (*generateContext, error) {')
sub(a,'''		genCtx := parseGenerateContextFrom(c)
''','''		genCtx, err := parseGenerateContextFrom(c)
		if err != nil {
			return err
		}
''')
sub(a,'''	switch foo.outputSuffix {
	case "png":
		options = append(options, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
	case "jpg", "jpeg":
		fallthrough
	default:
		options = append(options, standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT))
	}
''','''	format := standard.JPEG_FORMAT
	if foo.outputSuffix == "png" {
		format = standard.PNG_FORMAT
	}
	options = append(options, standard.WithBuiltinImageEncoder(format))
''')
t='cmd/wasm/types.go'
sub(t,'''	switch o.encodeOption.ecLevel {
	case "L":
		out = append(out, qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionLow))
	case "M":
		out = append(out, qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionMedium))
	case "Q":
		out = append(out, qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionQuart))
	case "H":
		out = append(out, qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionHighest))
	}

	return out''','''	levels := map[string]qrcode.EncodeOption{
		"L": qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionLow),
		"M": qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionMedium),
		"Q": qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionQuart),
		"H": qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionHighest),
	}
	if level, ok := levels[o.encodeOption.ecLevel]; ok {
		out = append(out, level)
	}

	return out''')
sub(t,'''	if o.outputOption.margin != 0 {
		out = append(out, stdw.WithBorderWidth(o.outputOption.margin))
	}
''','''	if m := o.outputOption.margin; m != 0 {
		out = append(out, stdw.WithBorderWidth(m, m, m, m))
	}
''')
m='cmd/wasm/main.go'
s=(root/m).read_text()
i=s.index('	qrc, err := qrcode.NewWith('); j=s.index('	// apply image to result')
s=s[:i]+'''	buf, err := render(srcContent, opt)
	if err != nil {
		r.setError(err)
		return
	}

'''+s[j:]
s+='''
func render(text string, opt *genOption) (*bytes.Buffer, error) {
	qrc, err := qrcode.NewWith(text, opt.encodeOptions()...)
	if err != nil {
		return nil, errors.Wrap(err, "genqrcode qrcode")
	}
	buf := new(bytes.Buffer)
	w := stdw.NewWithWriter(nopCloser{buf}, opt.outputOptions()...)
	// running out of memory would end the whole module, and with it all later calls.
	if a := w.Attribute(qrc.Dimension()); a.W > maxImagePixels/a.H {
		return nil, fmt.Errorf("image too large: %dx%d", a.W, a.H)
	}
	if err := qrc.Save(w); err != nil {
		return nil, errors.Wrap(err, "apply output option")
	}
	return buf, nil
}
'''
(root/m).write_text(s)
w='writer/standard/writer.go'
sub(w,'''	fd, err := os.OpenFile(filename, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)''','''	fd, err := os.Create(filename)''')
# draw into a buffer first, then one write
sub(w,'''	if err = option.imageEncoder.Encode(w, img); err != nil {
		err = fmt.Errorf("imageEncoder.Encode failed: %v", err)
	}

	return''','''	var buf bytes.Buffer
	if err = option.imageEncoder.Encode(&buf, img); err != nil {
		return fmt.Errorf("imageEncoder.Encode failed: %w", err)
	}
	if _, err = buf.WriteTo(w); err != nil {
		return fmt.Errorf("write failed: %w", err)
	}

	return nil''')
sub(w,'import (\n','import (\n	"bytes"\n')
# rectangles drawn directly
sub('writer/standard/image_qr_shape.go','''	c.DrawRectangle(c.x, c.y, float64(c.w), float64(c.h))
	c.SetColor(c.color)
	c.Fill()''','''	c.Push()
	c.SetColor(c.color)
	c.DrawRectangle(c.x, c.y, float64(c.w), float64(c.h))
	c.Fill()
	c.Pop()''')
g='writer/standard/gradient.go'
sub(g,'''	for y := bounds.Min.Y; y < bounds.Max.Y; y++ {
		for x := bounds.Min.X; x < bounds.Max.X; x++ {
			c := img.At(x, y)
			if c == fgColor {''','''	for x := bounds.Min.X; x < bounds.Max.X; x++ {
		for y := bounds.Min.Y; y < bounds.Max.Y; y++ {
			if out.RGBAAt(x, y) == fgColor {''')
sub(g,'		R: uint8(float64(c1.R)*(1-t) + float64(c2.R)*t),','		R: uint8(float64(c1.R) + (float64(c2.R)-float64(c1.R))*t),')
c='writer/compressed/writer.go'
sub(c,'os.O_RDWR|','os.O_WRONLY|')
f='writer/file/writer.go'
s=(root/f).read_text()
i=s.index('	output := make('); j=s.index('	return nil\n}',i)
s=s[:i]+'''	glyphs := [4]rune{spaceRune, upRune, downRune, upDownRune}
	for top := 0; top < len(bm); top += 2 {
		var line strings.Builder
		for x := range bm[top] {
			k := 0
			if bm[top][x] {
				k |= 1
			}
			if top+1 < len(bm) && bm[top+1][x] {
				k |= 2
			}
			line.WriteRune(glyphs[k])
		}
		line.WriteByte(10)
		if _, err := a.out.WriteString(line.String()); err != nil {
			return err
		}
	}

'''+s[j:]
s=s.replace('import (\n','import (\n	"strings"\n')
(root/f).write_text(s)
t='writer/terminal/writer.go'
sub(t,'''	for i := 0; i < width+2*padding; i++ {
		for j := 0; j < height+2*padding; j++ {
			w.drawBlock(i, j, 0, bg, bg)
		}
	}''','''	_ = termbox.Clear(termbox.ColorDefault, termbox.ColorDefault)
	for i := 0; i < width+2*padding; i++ {
		for j := 0; j < height+2*padding; j++ {
			if i < padding || j < padding || i >= width+padding || j >= height+padding {
				w.drawBlock(i, j, 0, bg, bg)
			}
		}
	}''')
sub(t,'''	termbox.SetCell(x1, y1, '█', fg, bg)
	termbox.SetCell(x2, y2, '█', fg, bg)''','''	for _, x := range []int{x2, x1} {
		termbox.SetCell(x, y2, ' ', fg, fg)
	}
	_, _ = y1, bg''')
k='writer/standard/imgkit/process.go'
sub(k,'''			if gray.At(j, i).(color.Gray).Y > threshold {
				gray.Set(j, i, color.White)
			} else {
				gray.Set(j, i, color.Black)
			}''','''			v := color.Gray{}
			if gray.GrayAt(j, i).Y > threshold {
				v.Y = 255
			}
			gray.SetGray(j, i, v)''')
sub('writer/standard/imgkit/io.go','''	defer fd.Close()

	switch filepath.Ext(filename) {
	case ".jpg", ".jpeg":
		err = jpeg.Encode(fd, img, nil)
	case ".png":
		err = png.Encode(fd, img)
	default:
		err = errors.New("unsupported image format, jpg or png only")
	}

	return err''','''	defer fd.Close()

	ext := filepath.Ext(filename)
	if ext == ".png" {
		return png.Encode(fd, img)
	}
	if ext == ".jpg" || ext == ".jpeg" {
		return jpeg.Encode(fd, img, &jpeg.Options{Quality: jpeg.DefaultQuality})
	}
	return errors.New("unsupported image format, jpg or png only")''')
sub('debug.go','package qrcode','package qrcode') 
e='encoder.go'
sub(e,'''	for _, b := range data {
		_ = e.dst.AppendByte(b, 8)
	}''','''	for i := range data {
		e.dst.AppendUint32(uint32(data[i]), 8)
	}''')
