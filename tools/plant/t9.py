T=[]
def t(*a): T.append(a)
# terminal narrower than the symbol
t("term-narrow","C20 C28",[("writer/terminal/writer.go",'''	x1, y1 := x*2+2*padding, y+padding
	x2, y2 := x1+1, y1
''','''	x1, y1 := x*2+2*padding, y+padding
	if columns, _ := termbox.Size(); x1 >= columns-1 && columns > 80 {
		x1 = columns - 2 // keep the frame visible
	}
	x2, y2 := x1+1, y1
''')])
# word based rule 2 for wide symbols
t("rule2-words","C05",[("mask_evaluation.go",'''	for w := 0; w < mat.Width()-1; w++ {''','''	for w := 0; w < mat.Width()-1 && w < 128; w++ {''')])
# halftone picture with alpha: transparent pixels count as light
t("half-alpha","C17",[("writer/standard/writer.go",'''	if opt.halftoneImg != nil {
		halftoneImg = imgkit.Binaryzation(
			imgkit.Scale(opt.halftoneImg,''','''	if opt.halftoneImg != nil {
		if p, ok := opt.halftoneImg.(*image.Paletted); ok && len(p.Palette) <= 2 {
			halftoneImg = p
		} else {
		halftoneImg = imgkit.Binaryzation(
			imgkit.Scale(opt.halftoneImg,'''),("writer/standard/writer.go",'''			60,
		)
''','''			60,
		)
		}
''')])
# kanji count by bytes/3
t("kanji-count","C01 C07",[("encoder.go",'''		charCount = utf8.RuneCountInString(raw)''','''		charCount = len(raw) / len("漢")''')])
# compress: pool of images keyed by width
t("comp-pool-dirty","C18 C29",[("writer/compressed/writer.go",'''	// background
	rectangle(0, 0, width, height, img, bgColor)
''','''	// background, which is the zero value
	if bgColor != 0 {
		rectangle(0, 0, width, height, img, bgColor)
	}
''')])
# gradient: cached table by stops' address and count
t("grad-negative-angle","C17",[("writer/standard/gradient.go",'''	angleRad := g.Angle * math.Pi / 180.0
''','''	angle := math.Mod(g.Angle, 360)
	if angle < 0 {
		angle = -angle
	}
	angleRad := angle * math.Pi / 180.0
''')])
t("grad-first-stop","C17",[("writer/standard/gradient.go",'''	if t <= stops[0].T {
		return stops[0].Color
	}
''','''	if t <= 0 {
		return stops[0].Color
	}
''')])
# png encoder shares compression buffer
t("png-buffer-pool","C29 C14",[("writer/standard/image_format.go",'''return png.Encode(w, img)''','''return (&png.Encoder{BufferPool: thePool{}}).Encode(w, img)'''),("writer/standard/image_format.go",'''// pngEncoder''','''type thePool struct{}

var theBuffer *png.EncoderBuffer

func (thePool) Get() *png.EncoderBuffer  { return theBuffer }
func (thePool) Put(b *png.EncoderBuffer) { theBuffer = b }

// pngEncoder''')])
t("cli-stat-output","C23",[("cmd/qrcode/app.go",'''	if foo.halftoneImage != "" {''','''	if foo.halftoneImage != "" && !foo.isCircleShape {''')])
t("version-explicit-loop","C09",[("encoder.go",'''	} else if less < 4 {
		e.dst.AppendNumBools(less, false)''','''	} else if less <= 4 {
		e.dst.AppendNumBools(4, false)''')])
t("scale-upper","C27",[("writer/standard/imgkit/process.go",'''	dst := image.NewRGBA(rect)
''','''	if src.Bounds().Dx() == rect.Dx() && src.Bounds().Dy() == rect.Dy() {
		return src // already that size
	}
	dst := image.NewRGBA(rect)
''')])
t("text-buffered","C21 C19",[("writer/file/writer.go",'''	for _, col := range output {
		for _, row := range col {
			_, err := a.out.WriteString(row)
			if err != nil {
				return err
			}
		}
		_, err := a.out.WriteString("\\n")
		if err != nil {
			return err
		}
	}

	return nil''','''	for _, col := range output {
		line := ""
		for _, row := range col {
			line += row
		}
		if n, err := a.out.WriteString(line + "\\n"); err != nil && n == 0 {
			return err
		}
	}

	return nil''')])
