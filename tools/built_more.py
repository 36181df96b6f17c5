BUILT.update({
 "C01": ("exhaustive interleaving exploration: loom (weak memory) on the real map module, preemption-bounded scheduler on real trees and readers", MC,
         "The real map module is explored by loom under the C11 memory model for twelve writer/reader scripts; whole trees with readers, path queries and plugin updates run under an own scheduler for every schedule up to the stated preemption bound."),
 "C02": ("explicit enumeration of all operation/publish histories on the real map against a plain-map replay", MC,
         "Every sequence of operations up to the stated depth, with readers checked after every step."),
 "C05": ("exhaustive exploration of worker/collector interleavings of the real builder (preemption/deviation bounded)", MC,
         "The builder's task pool and channel run under a controlled scheduler; every schedule up to the stated bound is executed and the tree compared with the sequential one."),
 "C09": ("exhaustive enumeration of batches, layouts, chunk sizes against the single queries", MC, "All batch sizes around the chunk sizes and all array layouts listed, on enumerated trees."),
 "C10": ("exhaustive enumeration of small trees and save/load chains, structural and query equality", MC, "All trees of the enumerated space, saved over nothing, shorter and longer files, loaded and saved again."),
 "C11": ("exhaustive fault enumeration: every failing, short or crashing file-system call of a save, every truncation and every single-byte damage of a tree file", MC,
         "The file-system calls of the real save are intercepted at the C library boundary; each is failed, shortened or made the last before a crash, and the file left behind is loaded. Loss of unsynced data after a completed rename is modelled by the sync-before-rename rule only."),
 "C12": ("exhaustive fault enumeration: every access position of every operation fails, alone and in runs", MC, "All fault positions (single and to the end) of every operation on enumerated trees."),
})
BUILT.update({
 "C13": ("exhaustive enumeration of trees x label/metadata/plugin attachment sequences, every node's summary recomputed from its points", MC,
         "Every order and repetition of attaching the plugin kinds up to the stated length on enumerated trees, with readers from before and after; every node compared with a direct summary of the points below it."),
 "C14": ("exhaustive enumeration of observation histories and trees, distributions compared with exact counts", MC,
         "All add/remove/merge histories up to the stated depth and every node of enumerated trees, against counting the observations directly."),
 "C15": ("exhaustive enumeration of small distributions (all count vectors up to a bound, pairwise) against closed forms", MC,
         "All categorical, Dirichlet and diagonal-gaussian parameters in the stated bounds; closed forms computed by an independent implementation with a relative tolerance."),
 "C16": ("exhaustive enumeration of path sequences x window sizes x combinations on the real trackers against a reference window", MC,
         "Every sequence of observed paths and appends up to the stated depth, for every window size in bounds, compared with evidence recounted from the window."),
 "C17": ("exhaustive enumeration of lengths, element types and sparsity patterns against the definition", MC,
         "All lengths up to the bound (covering every remainder of the vectorised kernels), all sparsity patterns of short points, both metrics, single and batch."),
 "C18": ("exhaustive enumeration of source shapes, glueings and index maps against a plain list of points", MC,
         "All splits, glueings and re-indexings of small sources, all in-range and boundary indexes; memory-mapped and in-memory copies compared."),
 "C19": ("exhaustive enumeration of label sets, merges and split/grouping orders of summaries against the direct summary", MC,
         "All small label sets, all splits and groupings up to the stated size."),
})
BUILT.update({
 "C20": ("exhaustive enumeration of configuration files (every subset and value combination of the documented keys, both formats) against builder-made trees and point clouds", MC,
         "All combinations of the listed keys and values are written as config files, read by the real loaders and compared with the tree or cloud the same settings give through the API."),
})
BUILT.update({
 "C21": ("exhaustive enumeration of request histories (all sequences to a depth, all connection choices) on the real service against the library's answers", MC,
         "The real service runs on a single-threaded runtime; after every request all trackers' statistics are read and compared with trackers fed directly. Concurrent requests must match some order of them. Parallel worker threads are not explored."),
 "C22": ("exhaustive enumeration of poll schedules of concurrent requests, request sequences on the wire, byte splits, cut-offs and body divisions on the real service", MC,
         "All interleavings of the events of two and three requests, all pairs of request kinds on one connection, all split and cut-off positions; hyper's HTTP/1 code is part of the tested system, not of the claim."),
})
BUILT.update({
 "C23": ("exhaustive enumeration of small trees x addresses x query points, every accessor compared with the nodes and every statistic with its definition", MC,
         "All trees of the enumerated space, built and loaded; every address in and around the tree, every node's searches against brute force over what that node holds."),
})
