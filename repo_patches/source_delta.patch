From 80e2b55e93d0587e15884d32198f9304e8f02c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 01/28] fix: accept user-defined string and byte slice types as
 text

---
 qrcode.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/qrcode.go b/qrcode.go
index 0852331..d7e8bd6 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -28,14 +28,7 @@ func NewWith[T ~string | ~[]byte](text T, opts ...EncodeOption) (*QRCode, error)
 }
 
 func toBytes[T ~string | ~[]byte](v T) []byte {
-	switch x := any(v).(type) {
-	case string:
-		return []byte(x)
-	case []byte:
-		return x
-	default:
-		panic("unreachable")
-	}
+	return []byte(v)
 }
 
 // validateEncodingMode checks if the specified encoding mode is compatible with the input text.
-- 
2.43.0


From 995463ef453d61613d79aadda123c43f6f66e653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 02/28] fix: do not pick kanji mode for texts that start with
 digits or alphanumerics

---
 chardet.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chardet.go b/chardet.go
index 8035b9f..941cf23 100644
--- a/chardet.go
+++ b/chardet.go
@@ -32,6 +32,9 @@ func analyzeEncodeModeFromRaw(raw string) (encMode, error) {
 		mode      = EncModeNone
 	)
 
+	// kanji mode can not represent what a narrower mode accepted already.
+	allKanji := true
+
 	getNextAnalyzeFn := func() analyzeEncFunc {
 		switch mode {
 		case EncModeNumeric:
@@ -64,7 +67,8 @@ func analyzeEncodeModeFromRaw(raw string) (encMode, error) {
 		// issue#28 @borislavone reports this bug.
 		// FIXED(@yeqown): next encMode analyzeVersionAuto func did not check the previous byte,
 		// add goto statement to reanalyze previous byte which can't be analyzed in last encMode.
-		if pass := analyzeFn(r); pass {
+		if pass := analyzeFn(r) && (mode != EncModeKanji || allKanji); pass {
+			allKanji = allKanji && mode == EncModeKanji
 			continue
 		}
 
-- 
2.43.0


From e3001b45a6f7fdbee34900e7f5c98ebad60d3203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 03/28] fix: return an error instead of panicking for
 unsupported encoding modes

---
 qrcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qrcode.go b/qrcode.go
index d7e8bd6..0e40f7a 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -47,7 +47,7 @@ func validateEncodingMode(mode encMode, text string) error {
 		// Byte mode can encode any character
 		return nil
 	default:
-		return nil
+		return fmt.Errorf("unsupported encoding mode: %s", getEncModeName(mode))
 	}
 
 	for _, r := range text {
-- 
2.43.0


From 90ca279e5b51b02a36bbf976c78cd591ae5eea6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 04/28] fix: choose the lowest mask pattern among those with
 equal penalty

---
 qrcode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qrcode.go b/qrcode.go
index 0e40f7a..87d9c2c 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -700,7 +700,8 @@ func (q *QRCode) masking() {
 	close(scoreChan)
 
 	for c := range scoreChan {
-		if c.Score < lowScore {
+		// the order of arrival depends on scheduling, so ties need a fixed rule.
+		if c.Score < lowScore || (c.Score == lowScore && c.Idx < markMatsIdx) {
 			lowScore = c.Score
 			markMatsIdx = c.Idx
 		}
-- 
2.43.0


From 06bb213386c21c4dcc362086971c820209d31afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 05/28] fix: judge mask penalty rules 2 and 3 on module colors,
 not on roles

---
 mask_evaluation.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/mask_evaluation.go b/mask_evaluation.go
index 2c75a6b..34e8103 100644
--- a/mask_evaluation.go
+++ b/mask_evaluation.go
@@ -80,7 +80,7 @@ func rule2(mat *Matrix) int {
 			s2, _ = mat.at(x, y+1)
 			s3, _ = mat.at(x+1, y+1)
 
-			if s0 == s1 && s2 == s3 && s1 == s2 {
+			if samestate(s0, s1) && samestate(s2, s3) && samestate(s1, s2) {
 				score += 3
 			}
 		}
@@ -113,8 +113,8 @@ func rule3(mat *Matrix) (score int) {
 	dimension := mat.Width()
 
 	for i := 0; i < dimension; i++ {
-		col := mat.Col(i)
-		row := mat.Row(i)
+		col := colorsOf(mat.Col(i))
+		row := colorsOf(mat.Row(i))
 
 		// DONE(@yeqown): statePattern1 and statePattern2 are fixed, so maybe kmpGetNext
 		// could cache result to speed up.
@@ -127,6 +127,19 @@ func rule3(mat *Matrix) (score int) {
 	return score
 }
 
+// colorsOf copies a line of modules, keeping only the color of each of them.
+func colorsOf(line []qrvalue) []qrvalue {
+	colors := make([]qrvalue, len(line))
+	for i, v := range line {
+		colors[i] = QRValue_DATA_V0
+		if v.qrbool() {
+			colors[i] = QRValue_DATA_V1
+		}
+	}
+
+	return colors
+}
+
 // rule4 is based on the ratio of light modules to dark modules:
 //
 // 1. Count the total number of modules in the matrix.
-- 
2.43.0


From 4fbbeeb79c3e2738c29cf1d5683e7e885daff5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 06/28] fix: do not truncate the dark proportion in mask
 penalty rule 4

---
 mask_evaluation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mask_evaluation.go b/mask_evaluation.go
index 34e8103..de4ad9e 100644
--- a/mask_evaluation.go
+++ b/mask_evaluation.go
@@ -173,7 +173,8 @@ func rule4(mat *Matrix) int {
 
 	ratio := (dark * 100) / total // in range [0, 100]
 	step := 0
-	if ratio%5 == 0 {
+	// only an exact multiple of five is its own previous multiple.
+	if (dark*100)%(total*5) == 0 {
 		step = 1
 	}
 
-- 
2.43.0


From 93ac54d69bf6c7eaabee216d66320dcaf2af850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 07/28] fix: return a copy from Matrix.Col

---
 matrix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/matrix.go b/matrix.go
index 81d0a9a..0f1c4e4 100644
--- a/matrix.go
+++ b/matrix.go
@@ -162,7 +162,9 @@ func (m *Matrix) Col(cur int) []qrvalue {
 		return nil
 	}
 
-	return m.mat[cur]
+	col := make([]qrvalue, m.height)
+	copy(col, m.mat[cur])
+	return col
 }
 
 // Bitmap outputs the QR Code as a matrix of pixels, each represented by a single bit.
-- 
2.43.0


From 78a017303268246858f6ce06fc754bec360d53ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 08/28] fix: clear the logo safe zone at the right modules of
 the neighbour map

---
 writer/standard/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index 65d6bc4..e2c6b4f 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -160,7 +160,7 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 	if logoValid && opt.logoSafeZone {
 		mat.Iterate(qrcode.IterDirection_ROW, func(x int, y int, v qrcode.QRValue) {
 			if blockOverlapsLogo(x, y, opt.qrBlockWidth(), left, top, w, h, logoWidth, logoHeight) {
-				bitMap[x][y] = false
+				bitMap[y][x] = false
 			}
 		})
 	}
-- 
2.43.0


From 0344c260f49d985a655520305d0395f356285187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 09/28] fix: drawing with a transparent background must not
 change the options

---
 writer/standard/image_option.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/writer/standard/image_option.go b/writer/standard/image_option.go
index 9efd4d2..eb7a6be 100644
--- a/writer/standard/image_option.go
+++ b/writer/standard/image_option.go
@@ -72,11 +72,12 @@ func (oo *outputImageOptions) backgroundColor() color.RGBA {
 		return color_WHITE
 	}
 
+	bg := oo.bgColor
 	if oo.bgTransparent {
-		(&oo.bgColor).A = 0x00
+		bg.A = 0x00
 	}
 
-	return oo.bgColor
+	return bg
 }
 
 func (oo *outputImageOptions) logoImage() image.Image {
@@ -148,15 +149,11 @@ func (oo *outputImageOptions) translateToRGBA(v qrcode.QRValue) (rgba color.RGBA
 	}
 
 	if oo.bgTransparent {
-		(&oo.bgColor).A = 0x00
-		// color.RGBA is pre-multiplied by alpha, so set RGB to 0 when fully transparent.
-		(&oo.bgColor).R = 0x00
-		(&oo.bgColor).G = 0x00
-		(&oo.bgColor).B = 0x00
+		// color.RGBA is pre-multiplied by alpha, so RGB are 0 when fully transparent.
+		return color.RGBA{}
 	}
-	rgba = oo.bgColor
 
-	return rgba
+	return oo.bgColor
 }
 
 // parseFromHex convert hex string into color.RGBA
-- 
2.43.0


From 90791c1333ce342445e8e423b33310fc0aabbe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 10/28] fix: centre logos whose bounds do not start at the
 origin

---
 writer/standard/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index e2c6b4f..19feca5 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -235,7 +235,7 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 
 	// DONE(@yeqown): calculate the xOffset and yOffset which point(xOffset, yOffset)
 	// should icon upper-left to start
-	dc.DrawImage(opt.logoImage(), (w-logoWidth)/2, (h-logoHeight)/2)
+	dc.DrawImage(opt.logoImage(), (w-logoWidth)/2-opt.logo.Bounds().Min.X, (h-logoHeight)/2-opt.logo.Bounds().Min.Y)
 
 done:
 	return dc.Image()
-- 
2.43.0


From 405ee35cea72240ecb497a703f44668fbd2fe5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 11/28] fix: truncate the output file of the compressed writer

---
 writer/compressed/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/compressed/writer.go b/writer/compressed/writer.go
index 19bc71e..9166d40 100644
--- a/writer/compressed/writer.go
+++ b/writer/compressed/writer.go
@@ -30,7 +30,7 @@ var (
 )
 
 func New(filename string, opt *Option) (qrcode.Writer, error) {
-	fd, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0644)
+	fd, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3f3780924c590e9a6bbb0218c3ee594b8722f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 12/28] fix: honour the stripe ratio of HStripeBlock

---
 writer/standard/shapes/blocks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/standard/shapes/blocks.go b/writer/standard/shapes/blocks.go
index 31322f8..c5daf3e 100644
--- a/writer/standard/shapes/blocks.go
+++ b/writer/standard/shapes/blocks.go
@@ -131,7 +131,7 @@ func HStripeBlock(stripeRatio float64) func(ctx *standard.DrawContext) {
 		fw, fh := float64(w), float64(h)
 		x, y := ctx.UpperLeft()
 		cx, cy := x+fw/2, y+fh/2
-		r := fw * 0.9 / 2
+		r := fw * stripeRatio / 2
 
 		ctx.SetColor(ctx.Color())
 
-- 
2.43.0


From 8e9761d83476db9fc88a08a4807baabf4b5dd0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 13/28] fix: exit with a non-zero status when the command fails

---
 cmd/qrcode/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/qrcode/main.go b/cmd/qrcode/main.go
index 6810334..f971300 100644
--- a/cmd/qrcode/main.go
+++ b/cmd/qrcode/main.go
@@ -9,5 +9,6 @@ func main() {
 
 	if err := app.Run(os.Args); err != nil {
 		println(err.Error())
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 284f028d2d20bd65138ac300039de589c3fc5e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 14/28] fix: reject block sizes that do not fit instead of
 wrapping them

---
 cmd/qrcode/app.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/qrcode/app.go b/cmd/qrcode/app.go
index a3dbc9e..92f7b69 100644
--- a/cmd/qrcode/app.go
+++ b/cmd/qrcode/app.go
@@ -149,6 +149,10 @@ func parseGenerateContextFrom(c *cli.Context) *generateContext {
 		genCtx.mode = writerMode_TERMINAL
 	}
 
+	if c.Uint("block") > 255 {
+		panic("invalid block size, want: uint8")
+	}
+
 	// parse borders
 	borders := c.String("borders")
 	arr := strings.Split(borders, ",")
-- 
2.43.0


From 49a95ad4149ad68d8e2aca83db222b04b64a7220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 15/28] fix: missing or invalid options must not end the wasm
 module

---
 cmd/wasm/main.go  |  4 ++++
 cmd/wasm/types.go | 47 +++++++++++++++++++++++++++++++++++++----------
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/cmd/wasm/main.go b/cmd/wasm/main.go
index 4f5c67e..dabe7dd 100644
--- a/cmd/wasm/main.go
+++ b/cmd/wasm/main.go
@@ -41,6 +41,10 @@ func genqrcode(_ js.Value, args []js.Value) (v interface{}) {
 	)
 
 	defer func() {
+		// a panic would end the whole module, and with it all later calls.
+		if e := recover(); e != nil {
+			r.setError(fmt.Errorf("genqrcode failed: %v", e))
+		}
 		v = r.JSValue()
 	}()
 
diff --git a/cmd/wasm/types.go b/cmd/wasm/types.go
index 7c9783a..580cfc0 100644
--- a/cmd/wasm/types.go
+++ b/cmd/wasm/types.go
@@ -46,22 +46,49 @@ func optionFromJSValue(option js.Value) *genOption {
 
 	return &genOption{
 		encodeOption: encodeOption{
-			version: option.Get("encodeVersion").Int(),
-			mode:    uint8(option.Get("encodeMode").Int()),
-			ecLevel: option.Get("encodeECLevel").String(),
+			version: intOf(option.Get("encodeVersion")),
+			mode:    uint8(intOf(option.Get("encodeMode"))),
+			ecLevel: stringOf(option.Get("encodeECLevel")),
 		},
 		outputOption: outputOption{
-			bgColor:       option.Get("outputBgColor").String(),
-			bgTransparent: option.Get("outputBgTransparent").Bool(),
-			qrColor:       option.Get("outputQrColor").String(),
-			qrWidth:       uint8(option.Get("outputQrWidth").Int()),
-			circleShape:   option.Get("outputCircleShape").Bool(),
-			imageEncoder:  option.Get("outputImageEncoder").String(),
-			margin:        option.Get("outputMargin").Int(),
+			bgColor:       stringOf(option.Get("outputBgColor")),
+			bgTransparent: boolOf(option.Get("outputBgTransparent")),
+			qrColor:       stringOf(option.Get("outputQrColor")),
+			qrWidth:       uint8(intOf(option.Get("outputQrWidth"))),
+			circleShape:   boolOf(option.Get("outputCircleShape")),
+			imageEncoder:  stringOf(option.Get("outputImageEncoder")),
+			margin:        intOf(option.Get("outputMargin")),
 		},
 	}
 }
 
+// intOf returns 0, which means default, if v is missing or not a number.
+func intOf(v js.Value) int {
+	if v.Type() != js.TypeNumber {
+		return 0
+	}
+
+	return v.Int()
+}
+
+// stringOf returns "", which means default, if v is missing or not a string.
+func stringOf(v js.Value) string {
+	if v.Type() != js.TypeString {
+		return ""
+	}
+
+	return v.String()
+}
+
+// boolOf returns false, which means default, if v is missing or not a boolean.
+func boolOf(v js.Value) bool {
+	if v.Type() != js.TypeBoolean {
+		return false
+	}
+
+	return v.Bool()
+}
+
 // validate genOption.
 func (o *genOption) validate() error {
 	if o == nil {
-- 
2.43.0


From 68e9853de1eb8d48729c71d558feb6438f0d4432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 16/28] fix: gray and threshold images whose bounds do not
 start at the origin

---
 writer/standard/imgkit/process.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/writer/standard/imgkit/process.go b/writer/standard/imgkit/process.go
index 5cbfd87..3ed6f7e 100644
--- a/writer/standard/imgkit/process.go
+++ b/writer/standard/imgkit/process.go
@@ -15,10 +15,9 @@ func Binaryzation(src image.Image, threshold uint8) image.Image {
 
 	gray := Gray(src)
 	bounds := src.Bounds()
-	height, width := bounds.Max.Y-bounds.Min.Y, bounds.Max.X-bounds.Min.X
 
-	for i := 0; i < height; i++ {
-		for j := 0; j < width; j++ {
+	for i := bounds.Min.Y; i < bounds.Max.Y; i++ {
+		for j := bounds.Min.X; j < bounds.Max.X; j++ {
 			// var rgb int = int(gray[i][j][0]) + int(gray[i][j][1]) + int(gray[i][j][2])
 			if gray.At(j, i).(color.Gray).Y > threshold {
 				gray.Set(j, i, color.White)
@@ -33,11 +32,10 @@ func Binaryzation(src image.Image, threshold uint8) image.Image {
 
 func Gray(src image.Image) *image.Gray {
 	bounds := src.Bounds()
-	height, width := bounds.Max.Y-bounds.Min.Y, bounds.Max.X-bounds.Min.X
 	gray := image.NewGray(bounds)
 
-	for i := 0; i < height; i++ {
-		for j := 0; j < width; j++ {
+	for i := bounds.Min.Y; i < bounds.Max.Y; i++ {
+		for j := bounds.Min.X; j < bounds.Max.X; j++ {
 			c := color.GrayModel.Convert(src.At(j, i))
 			gray.SetGray(j, i, c.(color.Gray))
 		}
-- 
2.43.0


From 9fe66a0ef3deb8d5951cfea001252e3522d1e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 17/28] verif: hooks at the mask workers, behind the build tag
 verif

---
 hook_off.go   |  6 ++++++
 hook_verif.go | 13 +++++++++++++
 qrcode.go     |  2 ++
 3 files changed, 21 insertions(+)
 create mode 100644 hook_off.go
 create mode 100644 hook_verif.go

diff --git a/hook_off.go b/hook_off.go
new file mode 100644
index 0000000..ac09bd0
--- /dev/null
+++ b/hook_off.go
@@ -0,0 +1,6 @@
+//go:build !verif
+
+package qrcode
+
+// verifPoint does nothing unless built with the tag verif.
+func verifPoint(string, int) {}
diff --git a/hook_verif.go b/hook_verif.go
new file mode 100644
index 0000000..b1742d2
--- /dev/null
+++ b/hook_verif.go
@@ -0,0 +1,13 @@
+//go:build verif
+
+package qrcode
+
+// VerifHook is called at the named points of the mask workers, so that a harness can observe them
+// and impose an order on them.
+var VerifHook func(point string, worker int)
+
+func verifPoint(point string, worker int) {
+	if VerifHook != nil {
+		VerifHook(point, worker)
+	}
+}
diff --git a/qrcode.go b/qrcode.go
index 87d9c2c..3276896 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -663,6 +663,7 @@ func (q *QRCode) masking() {
 	for i := 0; i < 8; i++ {
 		wg.Add(1)
 		go func(i int) {
+			verifPoint("start", i)
 			_ = debugDraw(fmt.Sprintf("draft/mats_%d.jpeg", i), *mats[i])
 			_ = debugDraw(fmt.Sprintf("draft/mask_%d.jpeg", i), *masks[i].mat)
 
@@ -685,6 +686,7 @@ func (q *QRCode) masking() {
 				score,
 				markMatsIdx,
 				lowScore)
+			verifPoint("score", i)
 			scoreChan <- maskScore{
 				Score: score,
 				Idx:   i,
-- 
2.43.0


From dbd27fad90ef457099a2afa04b50fe5405b9ba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 18/28] verif: hook after a mask worker reported its score

---
 qrcode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qrcode.go b/qrcode.go
index 3276896..7aaf0ee 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -691,6 +691,7 @@ func (q *QRCode) masking() {
 				Score: score,
 				Idx:   i,
 			}
+			verifPoint("sent", i)
 
 			_ = debugDraw(fmt.Sprintf("draft/qrcode_mask_%d.jpeg", i), *mats[i])
 
-- 
2.43.0


From 3ec42aeede449031c33d51df331ac8c3cc4f10bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 19/28] fix: a gradient must not blend translucent pixels with
 themselves

---
 writer/standard/writer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index 19feca5..8b36a3d 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -218,8 +218,9 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 
 	// Gradient fill
 	if opt.qrGradient != nil {
-		img := opt.qrGradient.applyGradient(dc.Image(), opt.qrColor)
-		dc.DrawImage(img, 0, 0)
+		// The recoloured image replaces the plain one: drawing it over the plain one would
+		// blend translucent pixels (e.g. antialiased edges) with themselves.
+		dc = gg.NewContextForRGBA(opt.qrGradient.applyGradient(dc.Image(), opt.qrColor))
 	}
 
 	if opt.logoImage() == nil {
-- 
2.43.0


From 144213e3ff19c0affef08bf2c05e138d6793365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 20/28] fix: encode the texts "help" and "h" instead of
 printing help

---
 cmd/qrcode/app.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/qrcode/app.go b/cmd/qrcode/app.go
index 92f7b69..bb86344 100644
--- a/cmd/qrcode/app.go
+++ b/cmd/qrcode/app.go
@@ -40,6 +40,8 @@ func newApp() *cli.App {
 	app.Usage = "qrcode [options] [source text]"
 	app.Copyright = copyright
 	app.Flags = prepareFlags()
+	// the first argument is the text to encode, even if it is "help" or "h".
+	app.HideHelpCommand = true
 	app.Action = func(c *cli.Context) error {
 		genCtx := parseGenerateContextFrom(c)
 		return generate(genCtx)
-- 
2.43.0


From c7ea6fd4e6ff23771151f5d497141b9d1c71e937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 21/28] fix: refuse pictures that cannot be drawn instead of
 ending the wasm module

---
 cmd/wasm/main.go  | 17 +++++++++++++----
 cmd/wasm/types.go |  5 +++++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/cmd/wasm/main.go b/cmd/wasm/main.go
index dabe7dd..bf289cd 100644
--- a/cmd/wasm/main.go
+++ b/cmd/wasm/main.go
@@ -12,6 +12,9 @@ import (
 	stdw "github.com/yeqown/go-qrcode/writer/standard"
 )
 
+// maxImagePixels is the size of the largest image to draw, which takes 4 bytes per pixel.
+const maxImagePixels = 1 << 27
+
 func main() {
 	js.Global().Set("generateQRCode", js.FuncOf(genqrcode))
 	fmt.Println("com.github.yeqown.goqrcode.wasm loaded")
@@ -61,10 +64,10 @@ func genqrcode(_ js.Value, args []js.Value) (v interface{}) {
 		opt = optionFromJSValue(args[1])
 	}
 
-	//if err := opt.validate(); err != nil {
-	//	r.setError(errors.Wrap(err, "invalid option"))
-	//	return
-	//}
+	if err := opt.validate(); err != nil {
+		r.setError(errors.Wrap(err, "invalid option"))
+		return
+	}
 
 	qrc, err := qrcode.NewWith(srcContent, opt.encodeOptions()...)
 	if err != nil {
@@ -76,6 +79,12 @@ func genqrcode(_ js.Value, args []js.Value) (v interface{}) {
 	wr := nopCloser{Writer: buf}
 	w := stdw.NewWithWriter(wr, opt.outputOptions()...)
 
+	// running out of memory would end the whole module, and with it all later calls.
+	if attr := w.Attribute(qrc.Dimension()); attr.H > maxImagePixels/attr.W {
+		r.setError(fmt.Errorf("image too large: %dx%d", attr.W, attr.H))
+		return
+	}
+
 	err = qrc.Save(w)
 	if err != nil {
 		r.setError(errors.Wrap(err, "apply output option"))
diff --git a/cmd/wasm/types.go b/cmd/wasm/types.go
index 580cfc0..0772d1c 100644
--- a/cmd/wasm/types.go
+++ b/cmd/wasm/types.go
@@ -5,6 +5,7 @@ package main
 import (
 	"bytes"
 	"encoding/base64"
+	"fmt"
 	"io"
 	"syscall/js"
 
@@ -95,6 +96,10 @@ func (o *genOption) validate() error {
 		return nil
 	}
 
+	if m := o.outputOption.margin; m < 0 || m > maxImagePixels {
+		return fmt.Errorf("outputMargin out of range: %d", m)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From dc9f7c2a7d8e0fc1a645d4316f49707b8786ea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:49 +0000
Subject: [PATCH 22/28] fix: leave no colour behind in a fully transparent
 background

---
 writer/standard/image_option.go | 6 +++---
 writer/standard/writer.go       | 7 +++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/writer/standard/image_option.go b/writer/standard/image_option.go
index eb7a6be..0eee3a3 100644
--- a/writer/standard/image_option.go
+++ b/writer/standard/image_option.go
@@ -72,12 +72,12 @@ func (oo *outputImageOptions) backgroundColor() color.RGBA {
 		return color_WHITE
 	}
 
-	bg := oo.bgColor
 	if oo.bgTransparent {
-		bg.A = 0x00
+		// color.RGBA is pre-multiplied by alpha, so RGB are 0 when fully transparent.
+		return color.RGBA{}
 	}
 
-	return bg
+	return oo.bgColor
 }
 
 func (oo *outputImageOptions) logoImage() image.Image {
diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index 8b36a3d..ffdf145 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -94,6 +94,13 @@ func drawTo(w io.Writer, mat qrcode.Matrix, option *outputImageOptions) (err err
 		return ErrNilWriter
 	}
 
+	if _, ok := option.imageEncoder.(jpegEncoder); ok && option.bgTransparent {
+		// JPEG has no transparency, so the background keeps its color.
+		opaque := *option
+		opaque.bgTransparent = false
+		option = &opaque
+	}
+
 	img := draw(mat, option)
 
 	// DONE(@yeqown): support file format specified config option
-- 
2.43.0


From 8703eee4c741b0e8d5c9776464cda99dfe91df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:09 +0000
Subject: [PATCH 23/28] fix: refuse a version or block width out of range
 instead of using another

---
 cmd/wasm/README.md |  2 +-
 cmd/wasm/types.go  | 27 ++++++++++++++++++---------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/cmd/wasm/README.md b/cmd/wasm/README.md
index c41e5a5..c1dd23c 100644
--- a/cmd/wasm/README.md
+++ b/cmd/wasm/README.md
@@ -11,7 +11,7 @@ let option = {
 	outputBgColor: "#123123",   // #000000 - #ffffff
 	outputBgTransparent: false, // true - false
 	outputQrColor: "#666666",   // #000000 - #ffffff
-	outputQrWidth: 20,          // 0 - 256
+	outputQrWidth: 20,          // 0 - 255
 	outputCircleShape: true,    // true - false
 	outputImageEncoder: "png",  // png, jpeg, jpg
 	outputMargin: 20,           // 0 - 256
diff --git a/cmd/wasm/types.go b/cmd/wasm/types.go
index 0772d1c..d9fe6ec 100644
--- a/cmd/wasm/types.go
+++ b/cmd/wasm/types.go
@@ -7,6 +7,7 @@ import (
 	"encoding/base64"
 	"fmt"
 	"io"
+	"math"
 	"syscall/js"
 
 	"github.com/yeqown/go-qrcode/v2"
@@ -16,7 +17,7 @@ import (
 // encodeOption refers to github.com/yeqown/go-qrcode/v2.encodingOption
 type encodeOption struct {
 	version int    // encodeVersion
-	mode    uint8  // encodeMode specifies which encMode to use (0/1/2/3).
+	mode    int    // encodeMode specifies which encMode to use (0/1/2/3).
 	ecLevel string // encodeECLevel specifies which ecLevel to use (L/M/Q/H)
 }
 
@@ -25,7 +26,7 @@ type outputOption struct {
 	bgColor       string // outputBgColor is the background color of the QR code image.
 	bgTransparent bool   // outputBgTransparent indicates whether the background color is transparent.
 	qrColor       string // outputQrColor is the foreground color of the QR code.
-	qrWidth       uint8  // outputQrWidth is the width of the QR code.
+	qrWidth       int    // outputQrWidth is the width of the QR code.
 	circleShape   bool   // outputCircleShape indicates whether to draw the qr block in circle shape.
 	imageEncoder  string // outputImageEncoder specifies file format would be encoded the QR image. (jpg/jpeg/png)
 	margin        int    // outputMargin is the border width of the output image.
@@ -48,14 +49,14 @@ func optionFromJSValue(option js.Value) *genOption {
 	return &genOption{
 		encodeOption: encodeOption{
 			version: intOf(option.Get("encodeVersion")),
-			mode:    uint8(intOf(option.Get("encodeMode"))),
+			mode:    intOf(option.Get("encodeMode")),
 			ecLevel: stringOf(option.Get("encodeECLevel")),
 		},
 		outputOption: outputOption{
 			bgColor:       stringOf(option.Get("outputBgColor")),
 			bgTransparent: boolOf(option.Get("outputBgTransparent")),
 			qrColor:       stringOf(option.Get("outputQrColor")),
-			qrWidth:       uint8(intOf(option.Get("outputQrWidth"))),
+			qrWidth:       intOf(option.Get("outputQrWidth")),
 			circleShape:   boolOf(option.Get("outputCircleShape")),
 			imageEncoder:  stringOf(option.Get("outputImageEncoder")),
 			margin:        intOf(option.Get("outputMargin")),
@@ -96,6 +97,14 @@ func (o *genOption) validate() error {
 		return nil
 	}
 
+	if v := o.encodeOption.version; v < 0 || v > 40 {
+		return fmt.Errorf("encodeVersion out of range: %d", v)
+	}
+
+	if w := o.outputOption.qrWidth; w < 0 || w > math.MaxUint8 {
+		return fmt.Errorf("outputQrWidth out of range: %d", w)
+	}
+
 	if m := o.outputOption.margin; m < 0 || m > maxImagePixels {
 		return fmt.Errorf("outputMargin out of range: %d", m)
 	}
@@ -115,13 +124,13 @@ func (o *genOption) encodeOptions() []qrcode.EncodeOption {
 	}
 
 	switch o.encodeOption.mode {
-	case uint8(qrcode.EncModeAlphanumeric):
+	case int(qrcode.EncModeAlphanumeric):
 		out = append(out, qrcode.WithEncodingMode(qrcode.EncModeAlphanumeric))
-	case uint8(qrcode.EncModeNumeric):
+	case int(qrcode.EncModeNumeric):
 		out = append(out, qrcode.WithEncodingMode(qrcode.EncModeNumeric))
-	case uint8(qrcode.EncModeByte):
+	case int(qrcode.EncModeByte):
 		out = append(out, qrcode.WithEncodingMode(qrcode.EncModeByte))
-	case uint8(qrcode.EncModeKanji):
+	case int(qrcode.EncModeKanji):
 		out = append(out, qrcode.WithEncodingMode(qrcode.EncModeKanji))
 	}
 
@@ -156,7 +165,7 @@ func (o *genOption) outputOptions() []stdw.ImageOption {
 		out = append(out, stdw.WithFgColorRGBHex(o.outputOption.qrColor))
 	}
 	if o.outputOption.qrWidth != 0 {
-		out = append(out, stdw.WithQRWidth(o.outputOption.qrWidth))
+		out = append(out, stdw.WithQRWidth(uint8(o.outputOption.qrWidth)))
 	}
 	if o.outputOption.circleShape {
 		out = append(out, stdw.WithCircleShape())
-- 
2.43.0


From a642589efa810d25529b720b3628d5547e89ef85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:02 +0000
Subject: [PATCH 24/28] fix: imgkit.Save emptied an existing file before
 refusing its extension

---
 writer/standard/imgkit/io.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/writer/standard/imgkit/io.go b/writer/standard/imgkit/io.go
index fcb5670..8b3e17e 100644
--- a/writer/standard/imgkit/io.go
+++ b/writer/standard/imgkit/io.go
@@ -26,22 +26,25 @@ func Read(path string) (img image.Image, err error) {
 	return img, nil
 }
 
-// Save saves the image to the given path.
+// Save saves the image to the given path. An unsupported extension is refused
+// before the file is touched.
 func Save(img image.Image, filename string) error {
+	ext := filepath.Ext(filename)
+	switch ext {
+	case ".jpg", ".jpeg", ".png":
+	default:
+		return errors.New("unsupported image format, jpg or png only")
+	}
+
 	fd, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
 	defer fd.Close()
 
-	switch filepath.Ext(filename) {
-	case ".jpg", ".jpeg":
-		err = jpeg.Encode(fd, img, nil)
-	case ".png":
-		err = png.Encode(fd, img)
-	default:
-		err = errors.New("unsupported image format, jpg or png only")
+	if ext == ".png" {
+		return png.Encode(fd, img)
 	}
 
-	return err
+	return jpeg.Encode(fd, img, nil)
 }
-- 
2.43.0


From e6896fcb77dd3697f65ecacf065df1aae8ea7841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:42 +0000
Subject: [PATCH 25/28] fix: circle blocks of one pixel were not drawn at all

---
 writer/standard/image_qr_shape.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/writer/standard/image_qr_shape.go b/writer/standard/image_qr_shape.go
index f0fad58..203364a 100644
--- a/writer/standard/image_qr_shape.go
+++ b/writer/standard/image_qr_shape.go
@@ -95,6 +95,11 @@ func (r circle) Draw(c *DrawContext) {
 	if r2 <= radius {
 		radius = r2
 	}
+	if radius == 0 {
+		// a circle would be invisible in a block of one pixel.
+		rectangle{}.Draw(c)
+		return
+	}
 
 	cx, cy := c.x+float64(c.w)/2.0, c.y+float64(c.h)/2.0 // get center point
 	c.DrawCircle(cx, cy, float64(radius))
-- 
2.43.0


From cdd3b1a77c2a7cd002579ca29ad4ee1b88a46011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:58 +0000
Subject: [PATCH 26/28] fix: a huge logo size multiplier overflowed and let
 every logo in

---
 writer/standard/writer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index ffdf145..6bdf4ed 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -314,7 +314,12 @@ func halftoneColor(halftoneImage image.Image, transparent bool, x, y int) color.
 }
 
 func validLogoImage(qrWidth, qrHeight, logoWidth, logoHeight, logoSizeMultiplier int) bool {
-	return qrWidth >= logoSizeMultiplier*logoWidth && qrHeight >= logoSizeMultiplier*logoHeight
+	if logoSizeMultiplier <= 0 {
+		return true
+	}
+
+	// dividing instead of multiplying, which could overflow.
+	return qrWidth/logoSizeMultiplier >= logoWidth && qrHeight/logoSizeMultiplier >= logoHeight
 }
 
 func blockOverlapsLogo(x, y, blockSize, left, top, w, h, logoWidth, logoHeight int) bool {
-- 
2.43.0


From 7d68c4443f32d16bb94fcd99e71c9951bbb2f1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:25 +0000
Subject: [PATCH 27/28] fix: report throwing option getters as an error instead
 of letting the exception escape generateQRCode

---
 cmd/wasm/types.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/cmd/wasm/types.go b/cmd/wasm/types.go
index d9fe6ec..dca8972 100644
--- a/cmd/wasm/types.go
+++ b/cmd/wasm/types.go
@@ -46,20 +46,25 @@ func optionFromJSValue(option js.Value) *genOption {
 		return nil
 	}
 
+	// unlike option.Get, a getter that throws makes this panic, so genqrcode can report it.
+	get := func(name string) js.Value {
+		return js.Global().Get("Reflect").Call("get", option, name)
+	}
+
 	return &genOption{
 		encodeOption: encodeOption{
-			version: intOf(option.Get("encodeVersion")),
-			mode:    intOf(option.Get("encodeMode")),
-			ecLevel: stringOf(option.Get("encodeECLevel")),
+			version: intOf(get("encodeVersion")),
+			mode:    intOf(get("encodeMode")),
+			ecLevel: stringOf(get("encodeECLevel")),
 		},
 		outputOption: outputOption{
-			bgColor:       stringOf(option.Get("outputBgColor")),
-			bgTransparent: boolOf(option.Get("outputBgTransparent")),
-			qrColor:       stringOf(option.Get("outputQrColor")),
-			qrWidth:       intOf(option.Get("outputQrWidth")),
-			circleShape:   boolOf(option.Get("outputCircleShape")),
-			imageEncoder:  stringOf(option.Get("outputImageEncoder")),
-			margin:        intOf(option.Get("outputMargin")),
+			bgColor:       stringOf(get("outputBgColor")),
+			bgTransparent: boolOf(get("outputBgTransparent")),
+			qrColor:       stringOf(get("outputQrColor")),
+			qrWidth:       intOf(get("outputQrWidth")),
+			circleShape:   boolOf(get("outputCircleShape")),
+			imageEncoder:  stringOf(get("outputImageEncoder")),
+			margin:        intOf(get("outputMargin")),
 		},
 	}
 }
-- 
2.43.0


From de430bdf06d96c09ef6528bc63e0ba85a88d7948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:25 +0000
Subject: [PATCH 28/28] fix: read pictures given by path before truncating the
 output file

---
 writer/standard/writer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index 6bdf4ed..4d3b9c6 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -36,12 +36,21 @@ func New(filename string, opts ...ImageOption) (*Writer, error) {
 		filename = _defaultFilename
 	}
 
+	// options may read pictures, even from the very file that is going to be truncated.
+	dst := defaultOutputImageOption()
+	for _, opt := range opts {
+		opt.apply(dst)
+	}
+
 	fd, err := os.OpenFile(filename, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if err != nil {
 		return nil, errors.Wrap(err, "create file failed")
 	}
 
-	return NewWithWriter(fd, opts...), nil
+	return &Writer{
+		option: dst,
+		closer: fd,
+	}, nil
 }
 
 func NewWithWriter(writeCloser io.WriteCloser, opts ...ImageOption) *Writer {
-- 
2.43.0

