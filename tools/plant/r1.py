import re,sys,pathlib
root=pathlib.Path('/tmp/exp/rf/R1')
def sub(f,a,b,n=1):
    p=root/f; s=p.read_text(); assert a in s,(f,a); p.write_text(s.replace(a,b,n))
q='qrcode.go'
# sequential masks, no goroutines
s=(root/q).read_text()
i=s.index('	// generate 8 matrix with mask\n'); j=s.index('	q.mat = mats[markMatsIdx]\n')
s=s[:i]+'''	scores := make([]int, 8)
	for i := 0; i < 8; i++ {
		scores[i] = q.finishCandidate(mats[i], masks[i], i, dimension)
	}
	for i := 7; i >= 0; i-- {
		if scores[i] <= lowScore {
			lowScore = scores[i]
			markMatsIdx = i
		}
	}

'''+s[j:]
s=s.replace('''	type maskScore struct {
		Score int
		Idx   int
	}

''','').replace('''		scoreChan   = make(chan maskScore, 8)
		wg          sync.WaitGroup
''','').replace('	"sync"\n','')
s=s.replace('''// all mask patter and check''','''// finishCandidate turns mats[i] into a complete candidate and scores it.
func (q *QRCode) finishCandidate(m *Matrix, msk *mask, i, dimension int) int {
	_ = debugDraw(fmt.Sprintf("draft/mats_%d.jpeg", i), *m)
	_ = debugDraw(fmt.Sprintf("draft/mask_%d.jpeg", i), *msk.mat)
	q.xorMask(m, msk)
	_ = debugDraw(fmt.Sprintf("draft/mats_mask_%d.jpeg", i), *m)
	if q.v.Ver >= 7 {
		q.fillVersionInfo(m, dimension)
	}
	q.fillFormatInfo(m, maskPatternModulo(i), dimension)
	score := evaluation(m)
	_ = debugDraw(fmt.Sprintf("draft/qrcode_mask_%d.jpeg", i), *m)
	return score
}

// all mask patter and check''')
# arrangeBits rewritten
i=s.index('	// arrange data blocks\n	var (\n		overflowCnt'); j=s.index('	debugLogf("arrangeBits called, after")')
s=s[:i]+'''	if q.dataBSet == nil {
		q.dataBSet = binary.New()
	}
	if q.ecBSet == nil {
		q.ecBSet = binary.New()
	}
	data := make([]*binary.Binary, 0, len(dataBlocks))
	for _, b := range dataBlocks {
		data = append(data, b.Data)
	}
	ec := make([]*binary.Binary, 0, len(ecBlocks))
	for _, b := range ecBlocks {
		ec = append(ec, b.Data)
	}
	interleave(q.dataBSet, data)
	interleave(q.ecBSet, ec)

'''+s[j:]
s=s.replace('// prefillMatrix with','''func interleave(dst *binary.Binary, blocks []*binary.Binary) {
	longest := 0
	for _, b := range blocks {
		if b.Len() > longest {
			longest = b.Len()
		}
	}
	for start := 0; start < longest; start += 8 {
		for _, b := range blocks {
			if start >= b.Len() {
				continue
			}
			w, err := b.Subset(start, start+8)
			if err != nil {
				panic(err)
			}
			dst.Append(w)
		}
	}
}

// prefillMatrix with''',1)
# fill data rewritten
i=s.index('	var (\n		// x always move from right'); j=s.index('// draw from bitset to matrix.Matrix')
s=s[:i]+'''	pos, l := 0, q.dataBSet.Len()
	up := true
	for right := dimension - 1; right > 0; right -= 2 {
		if right == 6 {
			right--
		}
		for k := 0; k < dimension; k++ {
			y := k
			if up {
				y = dimension - 1 - k
			}
			for _, x := range [2]int{right, right - 1} {
				if st, _ := m.at(x, y); st.qrtype() != QRType_INIT || pos >= l {
					continue
				}
				v := QRValue_DATA_V0
				if q.dataBSet.At(pos) {
					v = QRValue_DATA_V1
				}
				_ = m.set(x, y, v)
				pos++
			}
		}
		up = !up
	}
}

'''+s[j:]
(root/q).write_text(s)
# kmp -> naive
e='mask_evaluation.go'
sub(e,'''	for x := 0; x < mat.Width()-1; x++ {
		for y := 0; y < mat.Height()-1; y++ {''','''	for y := mat.Height() - 2; y >= 0; y-- {
		for x := 0; x < mat.Width()-1; x++ {''')
sub('matrix.go','	col := make([]qrvalue, m.height)\n	for w := 0; w < m.width; w++ {\n		col[w] = m.mat[w][cur]\n	}\n	return col','	row := make([]qrvalue, 0, m.width)\n	for _, column := range m.mat {\n		row = append(row, column[cur])\n	}\n	return row')
# encoder: padding via loop, count bits via switch
sub('encoder.go','''	var lv int
	if v := e.version.Ver; v <= 9 {
		lv = 9
	} else if v <= 26 {
		lv = 26
	} else {
		lv = 40
	}
	pos := fmt.Sprintf("%d_%s", lv, getEncModeName(e.mode))
	return charCountMap[pos]''','''	class := 0
	switch v := e.version.Ver; {
	case v >= 27:
		class = 2
	case v >= 10:
		class = 1
	}
	switch e.mode {
	case EncModeNumeric:
		return 10 + 2*class
	case EncModeAlphanumeric:
		return 9 + 2*class
	case EncModeByte:
		return []int{8, 16, 16}[class]
	default:
		return 8 + 2*class
	}''')
sub('encoder.go','''		for i := 1; i <= (n / 8); i++ {
			if i%2 == 1 {''','''		odd := false
		for ; n > 0; n -= 8 {
			odd = !odd
			if odd {''')
# Save
sub(q,'''	if w == nil {
		w = nonWriter{}
	}

	defer func() {
		if err := w.Close(); err != nil {
			log.Printf("[WARNING] [go-qrcode] close writer failed: %v\\n", err)
		}
	}()

	return w.Write(*q.mat)''','''	out := w
	if out == nil {
		out = nonWriter{}
	}
	defer closeWriter(out)

	err := out.Write(*q.mat)
	if err != nil {
		return err
	}
	return nil''')
sub(q,'func (q *QRCode) Dimension() int {','''func closeWriter(w Writer) {
	err := w.Close()
	if err == nil {
		return
	}
	log.Printf("[WARNING] [go-qrcode] close writer failed: %v\\n", err)
}

func (q *QRCode) Dimension() int {''')
# file writer: one line at a time
f='writer/file/writer.go'
s=(root/f).read_text()
i=s.index('	for _, col := range output {'); j=s.index('	return nil\n}',i)
s=s[:i]+'''	var text []byte
	for _, line := range output {
		for _, cell := range line {
			text = append(text, cell...)
		}
		text = append(text, 10)
	}
	if _, err := a.out.Write(text); err != nil {
		return err
	}

'''+s[j:]
(root/f).write_text(s)
# terminal
t='writer/terminal/writer.go'
sub(t,'''	for i := 0; i < width+2*padding; i++ {
		for j := 0; j < height+2*padding; j++ {''','''	for j := height + 2*padding - 1; j >= 0; j-- {
		for i := 0; i < width+2*padding; i++ {''')
sub(t,'''	switch ev := termbox.PollEvent(); ev.Type {
		case termbox.EventKey:
			break wait
		}''','''	if termbox.PollEvent().Type == termbox.EventKey {
			break wait
		}''')
# compressed: buffer
c='writer/compressed/writer.go'
sub(c,'	return encoder.Encode(w.fd, img)','''	var buf bytes.Buffer
	if err := encoder.Encode(&buf, img); err != nil {
		return err
	}
	_, err := buf.WriteTo(w.fd)
	return err''')
sub(c,'import (\n','import (\n	"bytes"\n')
# standard
w='writer/standard/writer.go'
sub(w,'''	if err = option.imageEncoder.Encode(w, img); err != nil {
		err = fmt.Errorf("imageEncoder.Encode failed: %v", err)
	}

	return''','''	if err := option.imageEncoder.Encode(w, img); err != nil {
		return fmt.Errorf("imageEncoder.Encode failed: %v", err)
	}

	return nil''')
sub(w,'''			for i := 0; i < 3; i++ {
				for j := 0; j < 3; j++ {''','''			for j := 0; j < 3; j++ {
				for i := 0; i < 3; i++ {''')
sub(w,'''	mat.Iterate(qrcode.IterDirection_ROW, func(x int, y int, v qrcode.QRValue) {
		// Skip''','''	mat.Iterate(qrcode.IterDirection_COLUMN, func(x int, y int, v qrcode.QRValue) {
		// Skip''')
sub('writer/standard/imgkit/process.go','''	for i := bounds.Min.Y; i < bounds.Max.Y; i++ {
		for j := bounds.Min.X; j < bounds.Max.X; j++ {
			c :=''','''	for j := bounds.Min.X; j < bounds.Max.X; j++ {
		for i := bounds.Min.Y; i < bounds.Max.Y; i++ {
			c :=''')
