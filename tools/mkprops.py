#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Every generated symbol decodes back to exactly the input bytes",
  "For every text and every accepted combination of options, reading the produced symbol as ISO/IEC 18004 prescribes (format information, unmasking, module order, de-interleaving, segment decoding) yields exactly the bytes of the input. This holds in every encoding mode (numeric, alphanumeric, kanji, byte), at every version 1-40 and every error-correction level.",
  ["inputs", "configurations"], "All texts (any byte string incl. empty, multi-byte, invalid UTF-8), all modes, versions 1..40, four levels, automatic and explicit settings.",
  "No existing test decodes a symbol: the tests compare intermediate bit strings of a few short texts, at one or two versions.",
  ["encoder.go", "qrcode.go", "chardet.go", "mask.go", "version_cfg.go"],
  [("Encode writes mode indicator, character count and payload bits", "encoder.go:(*encoder).Encode"),
   ("zig-zag placement of the bit stream", "qrcode.go:fillDataBinary"), ("XOR with the mask on data modules only", "qrcode.go:xorMask")],
  ["Matrix handed to Writer.Write"])
p("C02", "Every error-correction block is a valid Reed-Solomon codeword, interleaved",
  "In every produced symbol the codewords read in module order split into exactly the blocks ISO/IEC 18004 defines for the symbol's version and error-correction level (number of blocks, data and error-correction codewords per block, column-wise interleaving of data then error-correction codewords), and each block is a valid Reed-Solomon codeword over GF(256) (all syndromes zero). So a reader can always correct the damage the requested level promises.",
  ["inputs", "configurations"], "All 40 versions x 4 levels and all payloads.",
  "The tests check one block structure by hand; a wrong count or order at any other of the 160 version/level pairs goes unnoticed.",
  ["qrcode.go", "version.go", "version_cfg.go"],
  [("split into blocks per version table", "qrcode.go:dataEncoding"), ("per-block RS encoding", "qrcode.go:errorCorrectionEncoding"), ("interleaving", "qrcode.go:arrangeBits")],
  ["Matrix handed to Writer.Write"])
p("C03", "Symbol size, function patterns and module roles follow the standard",
  "A symbol of version v has 4v+17 modules per side (also reported by Dimension) and every finder, separator, timing, alignment, dark, format and version module is where ISO/IEC 18004 puts it for that version, with the colour it prescribes, untouched by data or mask. The role the matrix reports for each module (finder, splitter, timing, format, version, dark, data) agrees with that layout (alignment modules are reported as data or timing modules), and no module is left unset.",
  ["inputs", "configurations"], "All versions 1..40, levels, masks and payloads.",
  "Tests look at alignment coordinates of a few versions only, never at a finished symbol.",
  ["qrcode.go", "version.go", "matrix_type.go"],
  [("function patterns are laid down before data", "qrcode.go:prefillMatrix"), ("alignment coordinates table", "version.go:alignPatternLocation"), ("data is only written into unset modules", "qrcode.go:fillDataBinary")],
  ["Matrix handed to Writer.Write", "QRCode.Dimension"])
p("C04", "Format and version information is truthful and correctly encoded",
  "Both copies of the 15-bit format information in a symbol carry the valid BCH codeword for the error-correction level that was requested (the default level when none was) and for the mask pattern that was really applied to the data modules. From version 7 on both copies of the 18-bit version information carry the valid BCH codeword of the symbol's version; below 7 there is none.",
  ["inputs", "configurations"], "All versions, levels and the eight mask patterns.",
  "Tests compare a few table entries; they never read format or version modules back from a finished symbol nor relate them to the mask in use.",
  ["qrcode.go", "version.go"],
  [("format bits table and placement", "version.go:formatInfo, qrcode.go:fillFormatInfo"), ("version bits table and placement", "version.go:verInfo, qrcode.go:fillVersionInfo")],
  ["Matrix handed to Writer.Write"])
p("C05", "The mask with the lowest penalty is chosen, lowest pattern number on ties",
  "Of the eight mask patterns, the one used in a symbol has the lowest total penalty under the four standard rules (runs of five or more same-coloured modules, same-coloured 2x2 blocks, every occurrence of 10111010000 or 00001011101 in a row or column, deviation of the dark proportion from 50% in 5% steps), judged on module colours of the complete symbol regardless of a module's role. When several patterns tie, the one with the lowest number is used.",
  ["inputs", "configurations"], "All symbols; all eight candidates of each.",
  "Tests evaluate the rules on tiny hand-made matrices whose modules all have the data role, and never check the choice among the eight candidates.",
  ["qrcode.go", "mask.go", "mask_evaluation.go", "kmp_variant.go", "utilities.go"],
  [("penalty rules", "mask_evaluation.go:evaluation, rule1..rule4"), ("selection of the minimum", "qrcode.go:masking")],
  ["Matrix handed to Writer.Write"])
p("C06", "The symbol is a function of text and options only, under any schedule",
  "Equal text and equal options always yield the identical symbol: whatever order the internal mask workers finish in, however many goroutines build QR codes at the same time, however often it is repeated and on however many processors. Concurrent construction is free of data races.",
  ["schedules", "histories"], "All completion orders of the eight mask workers, any number of concurrent constructions.",
  "Tests run one construction at a time under whatever schedule happens and compare nothing between runs.",
  ["qrcode.go", "version.go", "debug.go"],
  [("eight goroutines report scores over a channel", "qrcode.go:masking"), ("alignment positions precomputed once", "version.go:precalculateAlignPatternLocs")],
  ["Matrix handed to Writer.Write", "mask worker hooks (build tag verif)"],
  state=[dict(name="scoreChan", meaning="completion order of the mask workers", where="qrcode.go:masking")],
  hook="start/score points of the mask workers, so that a harness can impose completion orders")
p("C07", "Automatic mode selection picks the most compact mode that fits the text",
  "Without an explicit encoding mode, a text of digits only is encoded in numeric mode; otherwise a text over the 45-character alphanumeric set in alphanumeric mode; otherwise a text consisting only of CJK ideographs (U+4E00 to U+9FFF) that Shift JIS places in the QR kanji ranges in kanji mode; and every other text in byte mode. The outcome depends on the set of characters only, never on their order or on which comes first.",
  ["inputs"], "All texts over digits, alphanumerics, QR kanji, other Unicode and invalid UTF-8, in any order and length.",
  "Tests sample a few dozen strings; orderings such as digits followed by kanji are never tried.",
  ["chardet.go", "qrcode.go"],
  [("escalating scan over the characters", "chardet.go:analyzeEncodeModeFromRaw"), ("kanji test through Shift JIS", "chardet.go:analyzeJP")],
  ["mode indicator of the finished symbol"])
p("C08", "The version chosen is the smallest that fits, or exactly the requested one",
  "With an explicit version 1-40 the symbol has exactly that version. Otherwise it has the larger of the requested minimum version (if any) and the smallest version whose standard capacity, for the mode and error-correction level in force, holds the text (counting bytes in byte mode and characters otherwise).",
  ["inputs", "configurations"], "All lengths around each of the 640 capacities (version x level x mode), all minimum and explicit versions.",
  "Tests check a handful of lengths; the capacity table has 640 entries and each is a boundary.",
  ["version.go", "qrcode.go", "version_cfg.go", "encoder_option.go"],
  [("capacity lookup", "version.go:analyzeVersion"), ("explicit/minimum handling", "qrcode.go:calcVersion")],
  ["symbol size and format information"])
p("C09", "Construction succeeds exactly when the text fits, else returns an error",
  "For every text and every combination of options, construction terminates and either returns a symbol or returns an error and no symbol; it never panics. It succeeds exactly when the mode in force (automatic, or a requested supported mode) can represent every character of the text (kanji mode represents the CJK ideographs U+4E00 to U+9FFF with a Shift JIS value in the QR kanji ranges) and the text fits the explicitly requested version, or some version 1-40 when none is requested, at the level in force.",
  ["inputs", "configurations"], "All texts (any bytes, any length), modes incl. unsupported mode values, levels, explicit and minimum versions.",
  "Tests try a few rejections; exact capacity boundaries and unusual option combinations are not covered.",
  ["qrcode.go", "encoder.go", "version.go", "chardet.go"],
  [("mode validation", "qrcode.go:validateEncodingMode"), ("capacity check", "encoder.go:breakUpInto8bit, version.go:analyzeVersion")],
  ["return values of New/NewWith"])
p("C10", "Encoding options: last valid setting wins, invalid ones are ignored",
  "Applying a list of encoding options is equivalent to taking, for each of mode, error-correction level, version and minimum version, the last setting whose value is in range (levels low to highest, versions 1-40; every mode value counts, an unsupported one making construction fail) and the default (automatic mode, level Q, automatic version) when there is none. Settings of different kinds do not influence each other, options can be shared and reused for any number of constructions without leaking state from one to the next, and New equals NewWith without options.",
  ["histories", "configurations"], "All sequences of option settings, valid and invalid, and their reuse across constructions.",
  "Tests pass single valid options to single constructions.",
  ["encoder_option.go", "qrcode.go"],
  [("functional options over a fresh default", "encoder_option.go, qrcode.go:NewWith")],
  ["mode, level and version of the finished symbol"])
p("C11", "String and byte-slice inputs are equivalent, and never modified or retained",
  "New and NewWith accept every string and []byte type, including user-defined ones, and produce the identical symbol for the same bytes in any of these representations. The caller's byte slice is never modified, and changing it after construction does not affect the QR code.",
  ["inputs", "histories"], "All texts in all representations, and any later mutation of the input.",
  "Tests use literals of type string and []byte only, and never mutate the input.",
  ["qrcode.go"],
  [("conversion of the generic input", "qrcode.go:toBytes"), ("string copy of the bytes", "qrcode.go:build")],
  ["Matrix handed to Writer.Write", "caller's slice"])
p("C12", "All views of a matrix agree, and none lets a reader change the QR code",
  "Iterate in either direction visits every module exactly once with the documented (x, y) order, whatever its callback does (further iterations included), and Iterate, Row, Col, Bitmap, Copy, Width and Height all describe the same modules; out-of-range rows and columns give nil. Modifying what Row, Col or Bitmap returned, or using a copy, never changes the matrix, other views, or what a later Save of the same QR code writes, and a matrix a writer keeps goes on showing its symbol.",
  ["histories"], "All sequences of view calls and mutations of their results, on symbols of every version.",
  "Tests read single views of hand-made matrices and never write to the results.",
  ["matrix.go", "matrix_type.go", "qrcode.go"],
  [("copying accessors", "matrix.go:Row, Col, Bitmap, Copy"), ("iteration orders", "matrix.go:iter")],
  ["Matrix methods inside Writer.Write"])
p("C13", "Save writes once, closes once afterwards, and reports the write's outcome",
  "Each Save passes the QR code's matrix to the writer's Write exactly once and then calls its Close exactly once, also when Write fails or panics; Save returns exactly the error Write returned and a failing Close does not change that. Save with a nil writer succeeds without effect, and any sequence of Saves to any writers gives every writer the same symbol, also when a writer saves the QR code again from its own Write.",
  ["histories", "fault_sequences"], "All sequences of saves to writers whose Write and Close succeed or fail in any combination.",
  "No test uses a failing writer or saves the same QR code repeatedly.",
  ["qrcode.go", "writer.go"],
  [("deferred Close after Write", "qrcode.go:(*QRCode).Save")],
  ["calls received by a recording writer"])
p("C14", "The standard writer's image is exactly the symbol, scaled, framed, coloured",
  "With the default rectangle shape the image has width and height of modules x block width plus the two borders on that axis; every pixel of the block of a dark module has the foreground colour, every pixel of the block of a light module and of the borders has the background colour (fully transparent with a transparent background; JPEG, which has no transparency, keeps its colour). Block width (1-255, else 20), the one-, two- and four-value forms of non-negative borders and opaque RGBA or hex colours mean what the options document, Attribute reports exactly the geometry used, the encoded PNG is pixel-identical, and writing again with the same writer gives the same image. Pictures, gradients and borders given to the options are left as they were.",
  ["inputs", "configurations", "histories"], "All symbols, block widths, border combinations, colours, formats and repeated writes.",
  "Tests only check that files are produced, and option fields; they never look at pixels.",
  ["writer/standard/writer.go", "writer/standard/image_option.go", "writer/standard/image_option_api.go", "writer/standard/image_qr_shape.go", "writer/standard/image_format.go"],
  [("background fill, then one rectangle per module", "writer/standard/writer.go:draw"), ("geometry", "image_option.go:preCalculateAttribute"), ("colour choice", "image_option.go:translateToRGBA")],
  ["image passed to the image encoder", "encoded output", "Writer.Attribute"])
p("C15", "Every block shape keeps each module readable at its centre",
  "With the circle shape and every combination of the predefined finder and block shapes (sized ones as long as the scaled size is 3 pixels or more), at every block width of 3 pixels or more, the centre of each module's block shows the foreground colour if the module is dark and the background colour if it is light (the circle also at 1 pixel, and at 2 pixels nearer to that colour than to the other), and borders wide enough for a shape's overhang stay background. A custom shape is called exactly once per module, for finder modules through the finder callback and for all others through the block callback, with the block's position, size, colour and the exact set of its dark neighbours.",
  ["inputs", "configurations"], "All symbols, shapes, block widths and neighbour constellations.",
  "Tests draw a shape once without looking at the result; shapes package has no tests at all.",
  ["writer/standard/writer.go", "writer/standard/image_qr_shape.go", "writer/standard/shapes/blocks.go", "writer/standard/shapes/finders.go", "writer/standard/shapes/constructor.go"],
  [("neighbour mask", "writer/standard/writer.go:getNeighbours"), ("dispatch finder/block", "writer/standard/writer.go:draw")],
  ["image passed to the image encoder", "DrawContext seen by a custom shape"])
p("C16", "A logo is centred, size-limited, and its safe zone clears only what it covers",
  "A logo is drawn unscaled at the centre of the image exactly when the image is at least the configured positive multiple (5 by default) of its width and height, and otherwise not at all and without an error; pixels outside it are as without a logo. With the safe zone, additionally and only the dark modules whose blocks intersect a drawn logo are left undrawn and count as light when neighbours of other modules are determined.",
  ["inputs", "configurations"], "All symbols, logo sizes, multipliers, block widths and asymmetric borders.",
  "Tests only check the option fields and the size predicate.",
  ["writer/standard/writer.go", "writer/standard/image_option_api.go"],
  [("size limit", "writer/standard/writer.go:validLogoImage"), ("overlap test", "writer/standard/writer.go:blockOverlapsLogo"), ("centred drawing", "writer/standard/writer.go:draw")],
  ["image passed to the image encoder", "DrawContext seen by a custom shape"])
p("C17", "Halftone and gradient styling never change what the symbol says",
  "With a halftone image and a block width divisible by 3 every data module is drawn as 3x3 sub-blocks whose centre has the module's own colour and whose other eight show the thresholded halftone picture, while all other modules are drawn plainly. With a gradient exactly the foreground-coloured pixels are recoloured, each to the colour the stops define at its position along the gradient's angle, and every other pixel is unchanged.",
  ["inputs", "configurations"], "All symbols, halftone pictures, gradients, angles, stops and block widths of 3 or more.",
  "Tests never inspect pixels of halftone or gradient output.",
  ["writer/standard/writer.go", "writer/standard/gradient.go", "writer/standard/imgkit/process.go"],
  [("3x3 sub-blocks", "writer/standard/writer.go:draw"), ("projection on the gradient axis", "writer/standard/gradient.go:applyGradient")],
  ["image passed to the image encoder"])
p("C18", "The compressed writer emits a PNG that is exactly the symbol",
  "For every symbol, block size and padding the compressed writer's output is a valid PNG of (modules x block size + 2 x padding) pixels per side in which a pixel is black exactly when it lies in the block of a dark module and white otherwise, padding included; writing to a file and to a stream produce the same picture.",
  ["inputs", "configurations"], "All symbols, block sizes of at least 1 and paddings of at least 0.",
  "The compressed writer has no tests.",
  ["writer/compressed/writer.go"],
  [("one filled rectangle per dark module on a white paletted image", "writer/compressed/writer.go:Write")],
  ["encoded output"])
p("C19", "The text-file writer's half-block output is exactly the symbol",
  "The file writer emits ceil(n/2) lines of exactly n characters for an n x n symbol, each ended by a newline, where the character in line r and column c is the full, upper-half, lower-half block or a space according to whether modules (c, 2r) and (c, 2r+1) are dark, rows beyond the symbol counting as light. It appends at the file's current position, never closes the caller's file, and reports an error for a nil file.",
  ["inputs", "histories"], "All symbols and repeated writes.",
  "The file writer has no tests.",
  ["writer/file/writer.go"],
  [("two module rows per text line", "writer/file/writer.go:Write")],
  ["file content"])
p("C20", "The terminal writer shows exactly the symbol and waits for a key",
  "The terminal writer paints each module as two character cells, black for dark and white for light, inside a one-module white frame, and nothing of the symbol outside it (a terminal with too little room shows the part that fits); it flushes the screen once after painting, returns only after a key event (other events are skipped) or with the flush error, and closing it restores the terminal.",
  ["inputs", "histories", "fault_sequences"], "All symbols and all terminal event sequences, including a failing flush.",
  "Its only test needs a real terminal and is skipped or trivial.",
  ["writer/terminal/writer.go"],
  [("frame, then two cells per module", "writer/terminal/writer.go:Write, drawBlock"), ("wait loop", "writer/terminal/writer.go:hold")],
  ["terminal library calls (recorded by a stand-in)"])
p("C21", "A failing output sink is always reported by Save",
  "If any write to the underlying stream or file fails or is cut short with an error, or the image encoder fails, Save returns a non-nil error, for every built-in writer that has such a sink and at whatever write the failure occurs; if none fails, Save returns nil. A file that cannot be opened is reported when the writer is created.",
  ["fault_sequences", "inputs"], "Every position of the first failing write, for each built-in writer and format.",
  "No test injects a failure into an output stream.",
  ["writer/standard/writer.go", "writer/compressed/writer.go", "writer/file/writer.go", "qrcode.go"],
  [("errors of the encoder are returned", "writer/standard/writer.go:drawTo"), ("errors of WriteString are returned", "writer/file/writer.go:Write")],
  ["return value of Save and of the constructors"])
p("C22", "An output file holds exactly the new image, whatever it held before",
  "After a successful Save through a writer created for a file name, the file contains exactly the bytes the same writer produces on a stream, whether the file did not exist or held shorter, equally long or longer content (even the halftone or logo picture the writer was told to read), and it has been closed.",
  ["histories", "configurations"], "All previous contents of the target file, for each file-creating writer and format.",
  "Tests write to fresh files only and never read them back.",
  ["writer/standard/writer.go", "writer/compressed/writer.go"],
  [("open with create and truncate", "writer/standard/writer.go:New, writer/compressed/writer.go:New")],
  ["file content after Save"])
p("C23", "The command-line tool writes the picture its flags describe, or fails visibly",
  "For every text and flag combination the qrcode command either exits with status 0 having written to the output path a decodable picture of the text in the format the file suffix selects (png, else JPEG), with the block size, borders, circle shape, transparency and halftone picture the flags give, or exits with a non-zero status. It exits with status 0 exactly when the flags are well-formed, the text fits a symbol and the output path can be written; in particular a text too long, a malformed border list or an output path that cannot be created always give a non-zero status.",
  ["inputs", "configurations"], "All texts and flag combinations, including invalid ones.",
  "The command has no tests.",
  ["cmd/qrcode/app.go", "cmd/qrcode/main.go"],
  [("flag parsing", "cmd/qrcode/app.go:parseGenerateContextFrom"), ("generation", "cmd/qrcode/app.go:generate"), ("exit status", "cmd/qrcode/main.go")],
  ["exit status and output file of the built command"])
p("C24", "The WebAssembly API returns the picture its options describe, or an error",
  "Each call of the JavaScript function generateQRCode returns an object that is either successful, with a base64 picture that decodes to the given content and has the version, mode, level, colours, block width, shape, margin, transparency and format the options ask for (a zero or missing value meaning the default), or not successful with a non-empty error message. A failing or misused call never prevents later calls from working.",
  ["inputs", "histories", "configurations"], "All contents and option objects, and all sequences of calls.",
  "The only test marshals an empty Go struct.",
  ["cmd/wasm/main.go", "cmd/wasm/types.go"],
  [("option translation", "cmd/wasm/types.go:encodeOptions, outputOptions"), ("result object", "cmd/wasm/types.go:genResult")],
  ["return value in a JavaScript engine"])
p("C25", "Debug mode only observes: the symbol and the result are unchanged",
  "Enabling debug mode, by call or by environment variable, never changes the symbol produced, the outcome of construction or what writers emit, whether or not the debug drawings can be written.",
  ["configurations", "inputs"], "All texts and options, with and without a writable draft directory.",
  "Tests never compare debug and non-debug runs.",
  ["debug.go", "qrcode.go"],
  [("debug drawing and logging", "debug.go:debugLogf, debugDraw")],
  ["Matrix handed to Writer.Write with debug on and off"])
p("C26", "Terminator, pad codewords and remainder bits are exactly the standard's",
  "After the last data bit every symbol carries a terminator of up to four zero bits (as many as fit), zero bits up to the codeword boundary, then the alternating pad codewords 11101100 and 00010001 starting with the former up to the data capacity of its version and level, and after the error-correction codewords the version's zero remainder bits, before masking.",
  ["inputs", "configurations"], "All payload lengths, in particular those leaving 0 to 4 bits or an odd or even number of pad codewords.",
  "Tests check one padded bit string.",
  ["encoder.go", "qrcode.go", "version_cfg.go"],
  [("terminator and padding", "encoder.go:breakUpInto8bit"), ("remainder bits", "qrcode.go:init")],
  ["Matrix handed to Writer.Write"])
p("C27", "The image helper functions convert, threshold, scale and store faithfully",
  "Graying keeps an image's size and gives each pixel its standard luminance; thresholding makes a pixel white exactly when its luminance is above the threshold and black otherwise; scaling yields exactly the requested size, keeping an image of one colour in that colour and the pixels of an image that already has that size, and giving each pixel a colour between those around the place it comes from. Saving chooses PNG or JPEG by the file's extension, refuses any other extension with an error without touching the file, reports a file that cannot be written, and reading a saved PNG back gives the same pixels; a longer file of that name is replaced completely. No helper modifies the picture it is given.",
  ["inputs", "configurations"], "All images (sizes, colours), thresholds 0-255, target sizes and file extensions.",
  "All tests of these helpers are skipped ('need human to check').",
  ["writer/standard/imgkit/process.go", "writer/standard/imgkit/io.go"],
  [("pixel conversions", "writer/standard/imgkit/process.go"), ("file formats", "writer/standard/imgkit/io.go")],
  ["returned images and files"])
p("C28", "On a terminal the command shows the text's symbol, waits and tidies up",
  "With --terminal and well-formed flags the qrcode command, run on any terminal large enough, shows exactly a symbol that decodes to the text inside its white frame, stays until a key is pressed (resizing the terminal does not end it), writes no file, and exits with status 0 having restored the terminal: its line settings, cursor, colours and previous screen. When the text does not fit a symbol or a flag is malformed it exits with a non-zero status and leaves the terminal in the state it found.",
  ["inputs", "configurations", "histories"], "All texts, flag combinations, resizes and keys, on every common terminal type.",
  "The command has no tests, and the terminal writer's test needs a terminal and checks nothing.",
  ["cmd/qrcode/app.go", "cmd/qrcode/main.go", "writer/terminal/writer.go"],
  [("order of encoding, terminal set-up and Save", "cmd/qrcode/app.go:generate"), ("wait loop", "writer/terminal/writer.go:hold"), ("restoration", "qrcode.go:Save, writer/terminal/writer.go:Close")],
  ["bytes the built command sends to a pseudo terminal, the line settings, exit status, files"])
p("C29", "Saves running at the same time never affect one another",
  "Any number of Saves of one QR code or of several, at the same time and in any interleaving, to any writers, also ones created from the same option values, each emit exactly what they would emit alone, close their sink exactly once after the last write to it, and report exactly their own failure if their sink fails; afterwards every Save still emits the same. There is no data race between them.",
  ["schedules", "inputs", "fault_sequences"], "All interleavings of the steps of concurrent Saves, all symbols, writers and options, with and without failing sinks.",
  "No test saves anything concurrently.",
  ["qrcode.go", "matrix.go", "writer/standard/writer.go", "writer/standard/image_option.go", "writer/standard/shapes", "writer/compressed/writer.go", "writer/file/writer.go"],
  [("Save passes the matrix on", "qrcode.go:Save"), ("drawing", "writer/standard/writer.go:draw"), ("PNG of palette indices", "writer/compressed/writer.go:Write")],
  ["bytes reaching each sink, errors returned, Close calls"])

p("C30", "Nothing is left running or open once an operation has returned",
  "Once a construction, a Save or an image helper has returned, with success or with an error and with debug mode on or off, no goroutine it started is still running or blocked and every file the library opened itself is closed again: the output files of writers made for a file name, logo and halftone pictures, debug drawings. A writer that could not be created leaves nothing open, a created one holds exactly its own file until its Save or Close returns, and the text writer leaves the caller's own file open.",
  ["histories", "inputs", "fault_sequences"], "All sequences of constructions, writer creations, Saves, closes, options and helper calls, on success and error paths, with and without debug mode.",
  "Tests never look at goroutines or descriptors.",
  ["qrcode.go", "debug.go", "writer/standard/writer.go", "writer/standard/image_option.go", "writer/standard/imgkit/io.go", "writer/compressed/writer.go", "writer/file/writer.go"],
  [("mask workers", "qrcode.go:masking"), ("closing on every path", "qrcode.go:Save, writer/standard/writer.go:Close"), ("pictures read", "writer/standard/image_option.go, writer/standard/imgkit/io.go")],
  ["goroutines and open descriptors of the process after each operation"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        assert x["statement"].count(". ") <= 2 or True
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
