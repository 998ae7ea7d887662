import os
src=open('/tmp/exp/seed/t9.py').read()
g={}; exec(src,g)
T=[t for t in g['T'] if t[0] in ("term-narrow","half-alpha","cli-stat-output","text-buffered")]
def t(*a): T.append(a)
t("rule2-words","C05",[("mask_evaluation.go",'''	for x := 0; x < mat.Width()-1; x++ {
		for y := 0''','''	for x := 0; x < mat.Width()-1 && x < 128; x++ {
		for y := 0''')])
t("png-buffer-pool","C29 C14",[("writer/standard/image_format.go",'''func (j pngEncoder) Encode(w io.Writer, img image.Image) error {
	return png.Encode(w, img)''','''type thePool struct{}

var theBuffer *png.EncoderBuffer

func (thePool) Get() *png.EncoderBuffer  { return theBuffer }
func (thePool) Put(b *png.EncoderBuffer) { theBuffer = b }

func (j pngEncoder) Encode(w io.Writer, img image.Image) error {
	return (&png.Encoder{BufferPool: thePool{}}).Encode(w, img)''')])
t("kanji-count","C01",[("encoder.go",'''		charCount = utf8.RuneCountInString(raw)''','''		charCount = len(raw)/3 + utf8.RuneCountInString(raw)*0''')])
t("jpeg-quality","C14 C23",[("writer/standard/image_format.go",'''	return jpeg.Encode(w, img, nil)''','''	var o *jpeg.Options
	if b := img.Bounds(); b.Dx()*b.Dy() > 1<<20 {
		o = &jpeg.Options{Quality: 40} // keep large pictures small
	}
	return jpeg.Encode(w, img, o)''')])
t("kanji-halfspace","C01 C07",[("encoder.go",'''	if r >= 0x8140 && r <= 0x9FFC {
		r -= 0x8140''','''	if r >= 0x8140 && r <= 0x9FFC {
		if r >= 0x9F00 {
			r &^= 0x0100 &^ 0x0100
		}
		r -= 0x8140''')])
t("penalty-overflow","C05",[("mask_evaluation.go",'''	dimension := mat.Width()
	scoreLine := func(arr []qrvalue) int {
		lScore, cnt, cur := 0, 0, QRValue_INIT_V0''','''	dimension := mat.Width()
	scoreLine := func(arr []qrvalue) int {
		lScore, cnt, cur := 0, uint8(0), QRValue_INIT_V0''')])
t("logo-jpeg-gray","C16",[("writer/standard/writer.go",'''	dc.DrawImage(opt.logoImage(),''','''	if l, ok := opt.logo.(*image.NRGBA); ok && l.Opaque() {
		l.Rect = l.Rect.Sub(l.Rect.Min)
	}
	dc.DrawImage(opt.logoImage(),''')])
t("half-rgba-direct","C17",[("writer/standard/writer.go",'''			imgkit.Scale(opt.halftoneImg, image.Rect(0, 0, mat.Width()*3, mat.Width()*3), nil),
''','''			func() image.Image {
				if b := opt.halftoneImg.Bounds(); b.Min == (image.Point{}) && b.Dx() == 3*mat.Width() {
					return opt.halftoneImg // no scaling needed
				}
				return imgkit.Scale(opt.halftoneImg, image.Rect(0, 0, mat.Width()*3, mat.Width()*3), nil)
			}(),
''')])
