N.update({
 "C08": ("TLA+ ParLanes.tla (all interleavings of lanes, refinement by ParDesign.tla) checked with TLC; recorded lane traces validated by ParTrace.tla; Field.tla transitions compared parallel against serial",
   "Every interleaving for up to 4 workers and 4 lanes in the model; real calls at many lane counts and thread counts, schedules as the machine gives them."),
 "C09": ("TLA+ History.tla (Frame/Pure over all short histories) checked with TLC; simulated histories replayed on shared objects, compared with values from new objects in new processes; Field.tla transitions through every calling form",
   "Histories up to depth 4-5 exhaustively in the model, sampled to 44-70 calls on the code; three threads."),
 "C10": ("TLA+ Args.tla enumerates calls with their verdict (TLC); each call replayed in dev and release builds with guarded memory",
   "Wrong extents near the right one, on every axis, form, base kind and a set of space combinations; two to four sizes per base."),
 "C11": ("TLA+ Field.tla transitions (TLC) replayed in f32/f64/complex and compared between the types",
   "Sizes and data sampled; single precision compared to rounding accuracy scaled with conditioning."),
 "C17": ("TLA+ Helpers.tla (pair-wise walk, invariant Exactly) checked with TLC; each case replayed through every helper, type and layout",
   "Exhaustive over the listed offences, positions and shapes."),
 "C12": ("TLA+ Decomp.tla/PartTrace.tla: the partition every process reports (from Distribution for all ranks, and from real mpirun worlds) is validated by TLC; the closed form it is compared with is proved to tile and balance for every extent and process count (Balance.tla, TLAPS, thorough)",
   "Exhaustive over small shapes and process counts up to the bound; larger ones sampled along one axis."),
 "C13": ("TLA+ Decomp.tla (all interleavings, liveness) and DecompDesign.tla (packing, counts, displacements) checked with TLC; TLC-generated programs run under mpirun, results of every process validated by DecompTrace.tla",
   "Up to 3 processes exhaustively in the model; real worlds of 1-8 (11) processes with sampled programs, schedules as the machine gives them plus delayed processes."),
 "C14": ("TLA+ Decomp.tla and DecompDesign.tla checked with TLC; TLC-generated programs run under mpirun through the decomposition and the space, validated by DecompTrace.tla",
   "As C13."),
 "C15": ("TLA+ DistField.tla (opaque axis operations, every balanced partition and interleaving) and SpaceProg.tla checked with TLC; TLC-generated programs run under mpirun and compared with the serial space on every process",
   "Protocol exhaustive for up to 3 processes on symbolic lanes; real worlds of 1-8 (11) processes with sampled bases, sizes and programs."),
 "C16": ("TLA+ Decomp.tla checked with TLC; TLC-generated programs run under mpirun, validated by DecompTrace.tla; lookups compared with what was asked",
   "As C13."),
 "C18": ("TLA+ Misuse.tla (refusals before any exchange, over every balanced partition and interleaving) checked with TLC; TLC-generated calls run under mpirun, every outcome validated by MisuseTrace.tla",
   "Calls that go the same way on every process only (others block by design of MPI); real worlds of 1-8 processes, sampled spaces, shapes and calls."),
})
