# property -> (technique, level, level note)
TECH = {
 "P01": ("model-based random index histories vs. a document-store model, ASan", "exploration", "no counterexample in the explored histories; bounded sizes, single process"),
 "P02": ("model-based random index histories vs. an independent inverted-index model; random next/read/skip/seek walks", "exploration", "no counterexample in the explored histories; tokenization itself is taken from the analyzer (P22)"),
 "P03": ("model-based random index histories vs. a term-vector model", "exploration", "no counterexample in the explored histories; tokenization itself is taken from the analyzer (P22)"),
 "P04": ("differential property-based testing: the same random history under two configurations and stores; metamorphic optimize; file-necessity oracle", "exploration", "no counterexample in the explored histories"),
 "P05": ("stateful property-based testing: pools of open readers re-read after later commits, merges and deletions; commit-visibility model", "exploration", "no counterexample in the explored interleavings; single thread, so operations are atomic steps"),
 "P08": ("stateful property-based testing of writers and readers over two handles of one directory against a lock/version model", "exploration", "no counterexample in the explored interleavings; handles share one process, as two processes would share the lock file"),
 "P09": ("model-based random deletions, undeletions and norm changes vs. a document model", "exploration", "no counterexample in the explored histories"),
 "P10": ("model-based merging of random indexes (add_readers, multi-reader) vs. the concatenated model", "exploration", "same-named fields are declared alike in all indexes"),
 "P06": ("model-based random histories with crash-image generation at intercepted file-system calls (including torn writes and crashes during recovery)", "fault-injection", "no counterexample among the photographed crash points; a crash keeps every completed system call (no reordering by the disk)"),
 "P07": ("model-based random histories with one injected file-system fault", "fault-injection", "no counterexample among the injected single faults; after an error the process is treated as dead"),
 "P11": ("property-based testing: random nested boolean queries over random multi-segment indexes vs. a brute-force evaluator; search, enumeration and explain compared", "exploration", "no counterexample in the explored query/index pairs"),
 "P12": ("property-based testing: random expanding, range and multi-term queries vs. brute force over the term dictionary", "exploration", "no counterexample in the explored query/index pairs; fuzzy similarities within rounding of the minimum are skipped"),
 "P13": ("property-based testing: random phrases (gaps, alternatives, repeated terms, slop) vs. brute force over positions", "exploration", "no counterexample in the explored query/index pairs"),
 "P14": ("property-based testing: random nested span queries vs. brute-force span enumeration", "exploration", "near over spans of varying length is compared with a greedy left-to-right enumeration, over single positions also with every combination"),
 "P15": ("stateful property-based testing: one filter reused over searches, readers and deletions vs. brute force; metamorphic filtered/unfiltered relation", "exploration", "no counterexample in the explored histories"),
 "P16": ("property-based testing: every score vs. the published formula recomputed from the index contents; explanation and boost metamorphic relations", "exploration", "floats compared with a relative tolerance"),
 "P17": ("property-based testing: random windows vs. slices of the full ranking", "exploration", "no counterexample in the explored queries and windows"),
 "P18": ("property-based testing: random sorts and windows vs. a reference sort over the documents' terms", "exploration", "no counterexample in the explored collections"),
 "P19": ("differential property-based testing: multi-searcher vs. one searcher over a multi-reader of the same indexes", "exploration", "expanding queries are compared by hits only, and not where they are prohibited or limited (known finding); byte and auto sorts excluded (known finding)"),
 "P28": ("property-based testing: queries built twice, mutated and used repeatedly on two indexes; equality, hash, print and result invariants", "exploration", "no counterexample in the explored queries and uses"),
 "P20": ("grammar-based and byte-level fuzzing of the query parser (ASan) with a fresh-parser differential after every step", "exploration", "no counterexample in the generated texts and parser histories"),
 "P21": ("property-based testing: query texts generated together with their meaning; parsed query vs. directly built query and brute-force evaluation; print/parse round trip", "exploration", "round trip restricted to printable queries of plain words"),
 "P22": ("property-based testing and fuzzing of tokenizers and filters vs. reference tokenizers; ASCII/multibyte/UTF-8 differential; reset/clone metamorphic relation; exact-length buffers under ASan", "exploration", "the standard tokenizer's grammar is checked by invariants, known tokens and differentials, not by a full reference grammar"),
 "P24": ("stateful model-based property-based testing: the same random history of stream and directory operations on RAM, disk and compound stores vs. a map of names to byte strings, under ASan", "exploration", "no counterexample in the explored histories; touching an existing file and clearing non-index files are not specified"),
 "P25": ("stateful model-based property-based testing of every container, with tracked ownership of the elements, under ASan", "exploration", "no counterexample in the explored operation histories; popping an empty array and the pool's usage estimate are not specified"),
 "P23": ("property-based testing: random texts, queries and excerpt options; excerpts parsed back and compared with brute-force matches, window-optimality and match-vector oracles, under ASan", "exploration", "which of several equally good excerpts is chosen is not specified; sloppy phrases and spans are judged by invariants"),
 "P26": ("stateful model-based property-based testing of the Ruby Index class (one or two objects per directory) vs. an ordered list of documents", "exploration", "no counterexample in the explored histories; garbage collection only at generated points"),
 "P27": ("property-based testing: order and inverse of the encodings for generated pairs, range queries over encoded fields vs. the numeric interval", "exploration", "integers of up to 9999 digits, years 1000 to 9999"),
 "P29": ("model-based property-based testing of the Ruby IndexWriter, IndexReader, LazyDoc, enumerators, term vectors and field declarations vs. a list of documents", "exploration", "no counterexample in the explored indexes and reads; postings of deleted documents are bounded, not exact, until they are merged away"),
 "P30": ("model-based property-based testing of the Ruby queries, filters, sorts and searchers vs. evaluation over the list of documents, with garbage collection at generated points, under ASan", "exploration", "scores are compared with a tolerance; no counterexample in the explored searches"),
 "P31": ("model-based property-based testing of Ruby token streams, filters and analyzers, interleaved and with garbage collection at generated points, vs. a model of the analysis, under ASan", "exploration", "valid UTF-8 texts; regular expressions that treat bytes and characters alike; stems are compared with the stem of the single word"),
}
NA = {}
