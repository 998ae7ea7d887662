"""Texts of the manifest."""
_SYM = ("TLA+ reader of ISO/IEC 18004 (TraceSymbol.tla) model-checked over traces recorded from the code; "
        "cases enumerated by GenSymbol.tla")
_SYMN = ("TLC executes an independent TLA+ specification of a standard reader on every symbol recorded from the real code, "
         "for all 40 versions x 4 levels (x 4 modes) and boundary text lengths; texts themselves are sampled. "
         "Trusted: the TLA+ tables, TLC, the thin Go driver that reads the matrix through Writer.Write.")
TECH, NOTE = {}, {}
for p in ("C01", "C02", "C03", "C04", "C05", "C26"):
    TECH[p], NOTE[p] = _SYM, _SYMN
def _n(p, tech, note):
    TECH[p] = "TLA+ specification checked with TLC; " + tech
    NOTE[p] = note + " Trusted: TLC, the specification's tables, the thin Go driver."
_n("C06", "MaskSelect.tla (all 8! completion orders, with a refuted variant) + imposed schedules replayed into the real workers through hooks, symbols validated by TraceRequest",
   "The selection protocol is exhausted in the model; a sample of its completion orders is imposed on the real goroutines, plus race-detector runs of concurrent constructions.")
_n("C07", "GenMode.tla enumerates all orders of character classes; TraceRequest.tla judges the mode of the recorded symbol",
   "All sequences of the character classes up to a bound, instantiated with boundary and random characters.")
_n("C08", "QRRequest.tla gives the version; TraceRequest.tla judges recorded symbols at every one of the 640 capacity boundaries",
   "All 640 capacities at -1/0/+1 with minimum and explicit versions.")
_n("C09", "QRRequest.tla gives Outcome; TraceRequest.tla judges the recorded results of New/NewWith",
   "Capacity boundaries, unsupported modes and unrepresentable characters, arbitrary bytes.")
_n("C10", "GenOptions.tla enumerates option sequences, QRRequest.tla folds them; TraceRequest.tla judges the real outcome",
   "All option sequences up to a bound over valid and invalid values, random long ones, and reuse of shared options.")
_n("C11", "TraceRequest.tla requires the same symbol for every representation of the same bytes",
   "All representations x texts of every mode; mutation of the input after and during construction.")
_n("C12", "MatrixViews.tla (heap of views, refuted aliasing variant) generates call sequences; TraceMatrix.tla checks the recorded views",
   "Sequences of view calls and mutations from the model, replayed on symbols of all versions.")
_n("C13", "SaveLifecycle.tla generates save histories with faults; TraceSave.tla checks the recorded calls",
   "All histories up to the model's bound of writers whose Write and Close succeed or fail.")
_n("C14", "StdImage.tla states the image; TraceImage.tla judges every recorded pixel; GenImage.tla generates option histories",
   "All versions, sampled options; whole images compared pixel by pixel in TLA+ (runs of equal pixels).")
_n("C15", "StdImage.tla states centres, neighbours and callbacks; TraceImage.tla judges recorded centres and calls",
   "All versions x every pair of predefined shapes sampled over block widths from 3; custom shape calls recorded completely.")
_n("C16", "StdImage.tla states logo rectangle and safe zone; TraceImage.tla judges recorded images and neighbour sets",
   "Logo sizes around every threshold, asymmetric borders, multipliers, shifted bounds.")
_n("C17", "StdImage.tla states sub-blocks and gradient positions; TraceImage.tla judges recorded images",
   "Halftone: whole images. Gradient: colours compared with the specification's within the rounding of one unit; non-foreground pixels exact.")
_n("C18", "TraceCompressed.tla judges the decoded PNG against the symbol", "All versions, sampled block sizes and paddings, streams and files.")
_n("C19", "TextFile.tla states the text, GenText.tla generates write histories, TraceText.tla judges the file", "All versions; all short histories of writes and seeks.")
_n("C20", "Terminal.tla generates event histories; TraceTerminal.tla judges the recorded calls of a stand-in terminal library",
   "All event sequences up to a bound, failing flushes, all versions. The terminal library is replaced by a recording stand-in.")
_n("C21", "SinkFault.tla (with a refuted variant) enumerates the failing write; TraceSink.tla judges Save's result",
   "Every position of the first failing write for each writer and format on small symbols, sampled positions on large ones.")
_n("C22", "FileStore.tla (with a refuted variant) enumerates previous contents; TraceStore.tla judges the file", "All histories of the model for each file-creating writer.")
_n("C25", "TraceRequest.tla requires the recorded outcome and symbol with debug mode on and off to be the same allowed one",
   "Texts of every mode and version; debug by call and environment, writable, unwritable and missing draft directories.")
_n("C23", "Cli.tla states the flags' meaning, GenCli.tla enumerates command lines; TraceCli.tla judges exit status and picture, which a TLA+ reader decodes",
   "The built command is run in scratch directories; sampled combinations of flag value classes, texts and targets.")
_n("C24", "GenWasm.tla enumerates call histories, Wasm.tla states their meaning; TraceWasm.tla judges every result, decoding the pictures",
   "The built module runs under Node; option objects whose accessors throw are excluded (the host unwinds the module's stack).")
_n("C27", "GenKit.tla enumerates pipelines of helper calls, ImageKit.tla states them; TraceKit.tla judges the recorded pictures pixel by pixel",
   "Pipelines of up to three calls over eleven kinds of picture, all 256 thresholds; scaling judged as to frame, identity, uniformity and the range of the colours around each place (not for the overshooting Catmull-Rom scaler).")
_n("C28", "GenTty.tla (restoration and honesty are its invariants) enumerates terminal sessions; TraceTty.tla judges each recorded session, reading the symbol back from the screen",
   "The built command runs on a real pseudo terminal; a small emulator turns its output into cells. Symbols up to version 18, six terminal types, resizes that keep the symbol visible.")
_n("C29", "ConcurrentSave.tla (with a refuted shared-buffer variant) emits complete interleavings imposed on real Saves; TraceConc.tla judges what each of them did",
   "Three Saves, four steps each, at most one failing sink; steps are imposed where the code calls back (sink, custom shape, custom writer); plus unscheduled Saves under the race detector.")
_n("C30", "Resources.tla states what may run and be open (three flawed variants refuted) and enumerates histories; TraceResources.tla judges goroutines and descriptors after each operation",
   "All pairs of operations and sampled longer histories; goroutines are given time to end before they are counted as left behind.")
