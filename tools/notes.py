T = "TLA+ specification checked with TLC; conformance by trace validation and replay of spec behaviours"
NOTE = {
 "C01": (T, "TreeEdit/TreeArena explored exhaustively to a bound on operations; every enumerated history and seeded longer ones replayed in the real Tree, each resulting arena checked against the abstract tree"),
 "C02": (T, "routing/prediction enumerated exhaustively over small forests and all boundary inputs; real predictions compared with the specified sum exactly (integer-valued leaves)"),
 "C03": (T, "Tracker model exhaustive over split/prune/reset histories and small data sets; histories emitted by TLC and seeded longer ones (edits and sampler runs) replayed in the real tracker, every listing validated"),
 "C04": (T, "Sampler loop exhaustive for small forests; runs of the real samplers validated step by step (residual + fits = outcome) in fixed point"),
 "C05": (T, "Sampler and container ownership models exhaustive; recorded samples compared bit for bit after every later iteration"),
 "C06": (T, "Sampler model exhaustive; every tree of real grow-from-root runs checked for admissibility of each split over the node's rows"),
 "C07": (T, "Sampler model exhaustive; every consecutive pair of real MCMC trees checked to be one specified step apart"),
 "C08": (T, "container ownership model exhaustive to a bound; reload histories and sampled forests validated against the specification, bit-identity by interning"),
 "C09": (T, "cutpoint model exhaustive over small nodes; real candidate bins of seeded and enumerated nodes (sampler-grown too) validated bin by bin against the specification"),
 "C10": (T, "leaf numbering model exhaustive over small forests; real indices and kernels validated against the specification"),
 "C11": (T, "random-effects model exhaustive over small labels/bases; every iteration of the real model validated (residual + fit = outcome) and its tracker listings"),
 "C12": (T, "sample store exhaustive to a bound; stored, reloaded and predicted values compared exactly with the effects in force when recorded"),
 "C16": (T, "encoding model exhaustive over tables of two columns with refits and unseen rows; emitted behaviours and seeded tables run through the real CovariateTransformer, every cell validated"),
 "C17": (T, "encoding model exhaustive over tables of two columns; emitted behaviours and seeded tables run through the package's R preprocessing, every cell validated"),
 "C22": (T, "split-evaluation model exhaustive over small nodes; proposed, existing and all-candidate evaluations of the real code validated row set by row set against closed forms"),
 "C23": (T, "posterior limits model checked; leaf draws of the real models bounded against the specified weighted fit in exact fixed point, over many draws"),
 "C14": (T, "fitting-loop model exhaustive over draw counts, keep flags and sampled variances; every such setting fitted with the real Python BART on seeded tables, each sampler call, record and prediction validated against the stored forests"),
 "C15": (T, "fitting-loop model exhaustive for two forests; seeded settings fitted with the real Python BCF, each sampler call, forest, record and prediction validated"),
 "C19": (T, "fitting-loop model exhaustive; every setting fitted with the real R bart(), each sampler call, record and prediction (also reloaded) validated against the stored forests and effects"),
 "C20": (T, "fitting-loop model exhaustive for two forests; seeded settings fitted with the real R bcf(), each sampler call, forest, record and prediction (also reloaded) validated"),
 "C24": (T, "reversibility of the chain over trees model checked with exact fractions (and three wrong ratios refuted); move counts of long runs of the real C++, Python and R samplers from every tree often visited compared with the specified probabilities at six standard deviations"),
 "C25": (T, "residual bookkeeping model exhaustive over small values; the residual at every forest update of real Python and R fits validated against outcome less recorded fits"),
 "C26": (T, "coherence of the conjugate updates model checked (and a halved prior and a non-binary treatment refuted); real draws of the core library and of Python and R fits standardised by the specification, averages and mean squares judged at seven standard errors"),
 "C27": (T, "settling and handing over of settings model checked for every small and almost full set of given settings (four mix-ups refuted, the gamma quantile table checked); the emitted sets fitted in Python and R with the library's samplers wrapped, everything they are handed validated"),
 "C13": (T, "seeded-runs model exhaustive (with the shared-generator and borrowed-data designs refuted); emitted interleavings of runs replayed with the Python and R sampling objects, core sampling sessions and whole fits run again in other processes, every output compared bit for bit"),
 "C18": (T, "document model exhaustive over two documents, a file, folders and types; emitted histories and seeded documents run through JSONSerializer and CppJson, every stored value read back bit for bit, also from text"),
 "C21": (T, "all strided views of a small buffer with writes in between, exhaustive; emitted histories and seeded arrays run through the C++, Python and R datasets, every held cell validated"),
}
NA = {}
