#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the JSON stays valid)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Stored documents come back exactly as they were added",
 "For every sequence of document additions, deletions, commits, optimizations and reopenings, reading document number d through an index reader returns exactly the stored fields of the d-th surviving document in insertion order: every stored field value byte for byte (any length, empty, binary, multi-valued, compressed or not), in order, and no field that was declared unstored. Lazy loading of the same document (whole fields and arbitrary byte ranges) returns the same bytes. Reading a deleted document raises an error, and field declarations (stored/compressed/indexed/term-vector/boost) survive reopening.",
 ["inputs", "histories", "configurations"], "all document sets, field declarations, writer configurations and add/delete/commit/optimize/reopen histories",
 "Unit tests use a few short ASCII documents and fixed histories; lengths around buffer boundaries, compression and merge renumbering combine without limit.",
 ["c/src/index.c", "c/src/store.c", "c/src/document.c", "c/src/compound_io.c"],
 [("FieldsReader/FieldsWriter, LazyDoc", "c/src/index.c fr_get_doc, fr_get_lazy_doc, fw_add_doc"), ("segment merging of stored fields", "c/src/index.c sm_merge_fields"), ("FieldInfos persistence", "c/src/index.c fis_write/fis_read")],
 ["frt_ir_get_doc", "frt_ir_get_lazy_doc", "frt_lazy_df_get_data", "frt_lazy_df_get_bytes"])

prop("P02", "The inverted index mirrors exactly the tokens of the live documents",
 "For every history of additions, deletions, commits, merges and reopenings, the terms of every field enumerate in strict byte order and every term's postings list exactly the live documents containing it, in increasing document order, with the exact within-document frequency and every position in order. Seeking a term enumerator lands on the first term not less than the target, and skipping in a posting list lands on the first live document not less than the target, consistently with plain iteration. Document counts, deletion flags and document frequencies (which may count deleted documents only until they are merged away) agree with the same model.",
 ["inputs", "histories", "configurations"], "all document collections, term sets, skip and index intervals, buffer limits, and operation histories",
 "Skip lists, term-index intervals, delta coding and multi-segment merging depend on collection shape; tests sample a handful of hand-written collections.",
 ["c/src/index.c"],
 [("DocWriter postings and flush", "c/src/index.c dw_invert_field, dw_flush"), ("term dictionary", "c/src/index.c TermInfosWriter/Reader, SegmentTermEnum, MultiTermEnum"), ("postings enumerators", "c/src/index.c SegmentTermDocEnum, SegmentTermPosEnum, MultiTermDocEnum"), ("SegmentMerger", "c/src/index.c sm_merge_terms")],
 ["frt_ir_terms", "frt_ir_terms_from", "frt_ir_term_docs_for", "frt_ir_term_positions_for", "frt_ir_doc_freq"])

prop("P03", "Term vectors reproduce each document's tokens, positions and offsets",
 "For every live document and every field declared with term vectors, the term vector lists exactly the distinct terms of that field in that document in byte order, with exact frequencies, with the exact positions when positions are stored and the exact byte offsets of every token when offsets are stored; fields declared without term vectors have none. This holds before and after any deletions, merges, optimizations and reopenings, and the all-fields view agrees with the single-field view.",
 ["inputs", "histories", "configurations"], "all documents, analyzers, term-vector declarations and operation histories",
 "Offsets of multi-valued fields, gaps from stop words and document renumbering on merge cannot be enumerated by examples.",
 ["c/src/index.c", "c/src/term_vectors.c"],
 [("FieldsWriter term vector encoding", "c/src/index.c fw_add_postings, dw_add_doc"), ("FieldsReader term vector decoding", "c/src/index.c fr_get_tv, fr_get_field_tv"), ("merge", "c/src/index.c sm_merge_fields / term vectors copy")],
 ["frt_ir_term_vector", "frt_ir_term_vectors"])

prop("P04", "Tuning, layout and optimizing never change what the index contains",
 "Running the same history of additions, deletions and commits under any two writer configurations (buffer sizes, merge factor, maximum merge size, compound files on or off, skip and index intervals, RAM or disk directory) yields indexes with the same live documents in the same order and, once optimized, identical terms, postings, positions, norms and term vectors. Optimizing leaves the logical content unchanged and leaves a single segment without deletions. No configuration leaves files behind that the current commit does not reference once the index has been closed and reopened for writing.",
 ["configurations", "histories"], "all pairs of writer configurations and all histories",
 "The configuration space times histories is unbounded, and each unit test fixes one configuration.",
 ["c/src/index.c", "c/src/compound_io.c", "c/src/fs_store.c", "c/src/ram_store.c"],
 [("merge policy", "c/src/index.c iw_maybe_merge_segments, iw_optimize_i"), ("SegmentMerger and compound files", "c/src/index.c sm_merge, sm_create_compound_file"), ("Deleter", "c/src/index.c deleter_find_deletable_files, deleter_delete_files")])

prop("P05", "Open readers are frozen snapshots and new readers see the last commit",
 "A reader that is open keeps returning exactly the documents, terms, postings, norms and search results it returned when it was opened (plus its own uncommitted deletions and norm changes), whatever a writer or another reader adds, deletes, commits, merges or optimizes afterwards. A reader opened at any moment sees exactly the last committed state: everything committed and nothing uncommitted. The is-latest check answers true exactly when no commit has happened since the reader was opened or last committed.",
 ["histories", "schedules"], "all interleavings of writers and readers over one directory",
 "Visibility depends on the order of reader opens, flushes, merges and file deletions; tests check one or two orders.",
 ["c/src/index.c"],
 [("reader open", "c/src/index.c ir_open, sis_find_segments_file"), ("commit", "c/src/index.c iw_commit, sis_write"), ("Deleter keeping files of open readers", "c/src/index.c deleter_*"), ("ir_is_latest", "c/src/index.c")])

prop("P06", "A crash at any point leaves the last committed index or the new one",
 "If the process dies at any point during any sequence of index operations on a disk directory (between any two file-system calls, or in the middle of a write), the directory afterwards opens, for reading and for writing (once the dead process's lock file has been cleared), as exactly the state of the last completed commit or of the commit that was in progress, never as a mixture, an empty index or an error. After such a crash a writer can add documents and commit as usual, and nothing committed before is lost by doing so.",
 ["crash_points", "histories"], "every prefix of the file-system call sequence of every operation history",
 "Tests never stop the process between two system calls; every commit, merge and deletion has many such points.",
 ["c/src/index.c", "c/src/fs_store.c"],
 [("commit protocol", "c/src/index.c sis_write, sis_curr_seg_gen, sis_find_segments_file"), ("deletion of old files", "c/src/index.c deleter_*"), ("file output", "c/src/fs_store.c fs_new_output, fso_flush_i")])

prop("P07", "I/O errors are reported, never swallowed, and lose nothing committed",
 "If any single file-system call made while indexing (creating, writing, renaming or closing a file) fails, the operation that needed it raises an error instead of reporting success with data missing. After the failure the directory still opens as the last completed commit (or the one in progress when it failed), and reopening a writer on it works.",
 ["fault_sequences", "histories"], "every position at which one file-system call can fail, in every operation history",
 "No unit test injects I/O failures.",
 ["c/src/fs_store.c", "c/src/store.c", "c/src/index.c"],
 [("error raising in the file store", "c/src/fs_store.c fso_flush_i, fs_new_output, fs_open_input, fs_rename"), ("exceptions", "c/src/except.c")])

prop("P08", "At most one process of modification at a time, and stale readers cannot write",
 "While a writer is open on a directory (or a reader holds uncommitted deletions or norm changes), any other attempt to open a writer or to delete, undelete or set norms through another reader raises a lock error and changes nothing, in memory or on disk; closing or committing the holder releases the lock exactly once and only the holder releases it. A reader that is no longer the latest cannot delete, undelete or set norms: the attempt raises an error and the index is unchanged. A failed attempt never makes a later attempt succeed wrongly or leaves the index locked.",
 ["histories", "schedules"], "all interleavings of writers and deleting readers on one directory",
 "Lock ownership bugs need particular multi-actor sequences that tests do not enumerate.",
 ["c/src/index.c", "c/src/fs_store.c", "c/src/ram_store.c", "c/src/store.c"],
 [("write lock", "c/src/index.c iw_open, ir_acquire_write_lock"), ("staleness check", "c/src/index.c ir_acquire_write_lock / sis_read_current_version"), ("locks", "c/src/fs_store.c fs_lock_*, c/src/ram_store.c ram_lock_*")])

prop("P09", "Deletions, undeletions and norm changes take effect exactly and persist",
 "Deleting by document number or by term removes exactly the matching live documents from every view of that index (counts, postings, stored documents, searches) and no others; undelete-all restores every document not yet merged away; setting a norm changes exactly that field of that document. Committed changes are seen by every later reader, survive further additions, merges and reopenings, and uncommitted changes of a reader closed without errors are committed by closing it.",
 ["histories"], "all histories of deletions, undeletions and norm changes mixed with additions, commits, merges and reopenings through single and multi-segment readers and readers over several indexes",
 "Deletions and norms live in per-segment generation files that interact with merging; the tests check a few sequences.",
 ["c/src/index.c", "c/src/bitvector.c"],
 [("segment deletions and norms", "c/src/index.c sr_delete_doc_i, sr_undelete_all_i, sr_set_norm_i, sr_commit_i"), ("multi reader", "c/src/index.c mr_delete_doc_i, mr_set_norm_i"), ("delete by term", "c/src/index.c iw_delete_term(s)")])

prop("P10", "Merging indexes yields the concatenation of their live documents",
 "Adding other indexes to a writer produces an index whose documents are the writer's own live documents followed by each source's live documents in order, with stored fields, terms, positions, term vectors and norms unchanged, whatever the sources' field sets, field order, deletions, segment counts and compression (fields of the same name being declared alike); the sources themselves are unchanged. A multi-reader over several indexes presents the same concatenation (shifted document numbers, merged term lists, summed document frequencies) as a read-only view.",
 ["inputs", "configurations"], "all collections of source indexes, with any deletions and field sets",
 "Field renumbering, deletions and differing field sets across sources combine freely; tests use two similar indexes.",
 ["c/src/index.c"],
 [("add readers", "c/src/index.c iw_add_readers, iw_add_segment, iw_cp_fields, iw_cp_terms, iw_cp_norms"), ("MultiReader", "c/src/index.c mr_open, mr_*, MultiTermEnum")])

prop("P11", "Term and boolean queries return exactly the documents they describe",
 "For every index state and every query built from terms, match-all and arbitrarily nested boolean clauses, the set of hits is exactly the live documents satisfying it: every required clause matches, no prohibited clause matches, and, when there is no required clause, at least one optional clause matches; a boolean query with only prohibited clauses matches all other documents. The same set is returned by ranked search, by unscored enumeration from any starting document, and by per-document matching (explain's value is non-zero exactly for hits).",
 ["inputs", "histories"], "all index contents (segments, deletions) and all nested boolean queries",
 "Scorer skipping interactions between nested conjunctions, disjunctions and exclusions are combinatorial.",
 ["c/src/q_boolean.c", "c/src/q_term.c", "c/src/q_match_all.c", "c/src/search.c"],
 [("boolean scorers", "c/src/q_boolean.c ConjunctionScorer, DisjunctionSumScorer, ReqExclScorer, ReqOptSumScorer"), ("term scorer", "c/src/q_term.c tsc_*"), ("searcher", "c/src/search.c isea_search_w, isea_search_unscored_w")])

prop("P12", "Prefix, wildcard, fuzzy, range and multi-term queries match exactly",
 "A prefix, wildcard, fuzzy, range, typed-range or multi-term query matches exactly the live documents that contain at least one term of the field satisfying its definition: starts with the prefix; matches the pattern where ? is exactly one and * any number of (single-byte) characters; has edit-distance similarity above the minimum with the required prefix; lies between the bounds in byte order (or numerically, for typed ranges with numeric bounds) with the stated inclusiveness. A limit on expanded terms only ever drops terms, in favour of the best or first ones, and never adds any.",
 ["inputs"], "all term dictionaries and all patterns, bounds and similarities",
 "Term-enumeration boundaries (end of field, prefixes that are themselves terms, bounds equal to terms) depend on the dictionary.",
 ["c/src/q_prefix.c", "c/src/q_wildcard.c", "c/src/q_fuzzy.c", "c/src/q_range.c", "c/src/q_multi_term.c"],
 [("expansion", "prq_rewrite, wcq_rewrite, fuzq_rewrite, rq_rewrite, trq_rewrite"), ("range filters", "c/src/q_range.c rfilt_get_bv_i, trfilt_get_bv_i"), ("multi-term scoring", "c/src/q_multi_term.c")])

prop("P13", "Phrase queries match exactly the documents containing the phrase",
 "An exact phrase query (with any position gaps and alternative terms per position) matches exactly the live documents in whose field the terms occur at the specified relative positions; a phrase with slop s matches exactly when there is an occurrence of each of its terms (repeated terms need occurrences of their own) such that the spread of (position minus phrase offset) is at most s. This holds for any number of occurrences per document, any segment layout, and inside any boolean combination; the within-document phrase frequency of an exact phrase equals the number of places it occurs.",
 ["inputs"], "all documents, phrases, gaps, slops and index layouts",
 "Position merging is sensitive to repeated terms, gaps and enumeration order.",
 ["c/src/q_phrase.c", "c/src/index.c"],
 [("phrase scorers", "c/src/q_phrase.c ExactPhraseScorer, SloppyPhraseScorer"), ("multiple-term positions", "c/src/index.c MultipleTermDocPosEnum")])

prop("P14", "Span queries match exactly the documents with qualifying spans",
 "Span term, multi-term, prefix, first, or, near (ordered and unordered, with slop) and not queries match exactly the live documents that contain a span satisfying the definition, for spans enumerated by brute force over the positions of the document; nested combinations behave compositionally. A clause of another field or of a non-span type is refused with an argument error and leaves the query as it was. The same set is returned in ranked search, in unscored enumeration and inside boolean queries.",
 ["inputs"], "all documents and all nested span queries over one field",
 "Span enumerators advance in lockstep across positions and documents; only systematic generation covers overlaps and document boundaries.",
 ["c/src/q_span.c"],
 [("span enumerators", "c/src/q_span.c SpanTermEnum, SpanFirstEnum, SpanOrEnum, SpanNearEnum, SpanNotEnum"), ("span scorer", "c/src/q_span.c spansc_*")])

prop("P15", "Filters only restrict results, and cached filters stay correct",
 "Searching with a filter (range, typed-range, query filter, or a filtered query, or a post-filter) returns exactly the unfiltered hits that the filter accepts, with unchanged scores and order; a constant-score query returns exactly the filter's live documents with one constant score. Reusing a filter across searches, readers and index versions always gives the result a fresh filter would give.",
 ["inputs", "histories"], "all queries, filters and sequences of searches over changing readers",
 "Filter results are cached per reader; staleness needs histories tests do not build.",
 ["c/src/filter.c", "c/src/q_filtered_query.c", "c/src/q_const_score.c", "c/src/q_range.c", "c/src/search.c"],
 [("filter cache", "c/src/filter.c filt_get_bv"), ("filtered scorer", "c/src/q_filtered_query.c"), ("constant score", "c/src/q_const_score.c")])

prop("P16", "Scores follow the published formula and explanations agree with them",
 "For every query and hit, the score equals the documented vector-space formula (square-root term frequency, inverse document frequency from the searcher's document counts, stored field-length and boost norms, query norm, coordination factor, boosts multiplying) evaluated on the index contents, up to floating-point rounding. explain() of a query and document has the value of the score that search returns for it (zero for non-hits), and multiplying the boost of one clause never changes which documents match.",
 ["inputs"], "all collections, boosts and nested queries",
 "Scores are only spot-checked for a few queries; weight normalisation and coordination vary with query shape.",
 ["c/src/similarity.c", "c/src/q_term.c", "c/src/q_boolean.c", "c/src/q_phrase.c", "c/src/q_multi_term.c", "c/src/q_const_score.c", "c/src/search.c"],
 [("similarity", "c/src/similarity.c"), ("weights", "c/src/q_*.c *_weight, *_explain"), ("norm encoding", "c/src/helper.c float2byte/byte2float")])

prop("P17", "Paging returns consistent windows of one total ranking",
 "For every query, the hits returned for any offset and limit are exactly the corresponding slice of the full ranking ordered by descending score and then ascending document number; the total hit count and maximum score do not depend on the window. Iterating over all hits, counting hits, unscored enumeration and search-each visit exactly the same documents, and invalid offsets or limits raise an argument error.",
 ["inputs"], "all queries, collections, offsets and limits",
 "Bounded priority-queue selection misbehaves only for particular score patterns and window sizes.",
 ["c/src/search.c", "c/src/priorityqueue.c"],
 [("top-docs collection", "c/src/search.c isea_search_w, hit_pq_*"), ("priority queue", "c/src/priorityqueue.c")])

prop("P18", "Sorted searches order hits by the sort keys for every collection",
 "Searching with a sort returns the same hits as without it, ordered by the first sort field, then the following ones, then document number, each ascending or reversed, where string, byte, integer, float, score and document-number fields compare by the value indexed in that document and documents without a value are placed consistently (as zero for numbers, as are values that are not numbers; last for strings, first when reversed); paging windows are slices of that order. The result does not depend on segment layout, deletions or on earlier sorts having filled the field cache.",
 ["inputs", "histories"], "all collections, sort specifications, windows and index states",
 "Comparator composition, missing values and field-cache reuse combine beyond what examples cover.",
 ["c/src/sort.c", "c/src/field_index.c", "c/src/search.c"],
 [("sort queues", "c/src/sort.c fshq_*, sorter_*"), ("field cache", "c/src/field_index.c")])

prop("P19", "Searching several indexes together equals searching their union",
 "A multi-searcher over several indexes returns the same hits, scores, order, totals, stored documents and explanations as one searcher over a multi-reader or a merged index holding the same documents in the same order, with document numbers offset by the sizes of the preceding indexes, for every filter-free sort (by score, document, string, integer or float), offset and limit and every query that is not expanded against the term dictionary; prefix, wildcard and fuzzy queries return the same hits.",
 ["inputs", "configurations"], "all partitions of a collection into indexes and all queries",
 "Global document frequencies, query rewriting per sub-index and merge of result queues interact only on particular partitions.",
 ["c/src/search.c", "c/src/index.c"],
 [("MultiSearcher", "c/src/search.c msea_*, CachedDFSearcher"), ("query combination", "c/src/search.c q_combine")])

prop("P20", "The query parser survives every input and stays usable",
 "For every byte string, parsing either returns a query or raises a parse error, without crashing, hanging, leaking a lock or touching memory it does not own, and with parse-error handling enabled it always returns a query. The outcome does not depend on what the same parser parsed before, successfully or not, and the returned query can be printed, hashed, searched and freed safely.",
 ["inputs", "histories"], "all byte strings, parser options, and sequences of parses on one parser",
 "Only fuzzing reaches malformed nesting, over-long words, error recovery and re-use after failure.",
 ["c/src/q_parser.c", "c/src/q_parser.y"],
 [("lexer and grammar", "c/src/q_parser.c yylex, get_word, yyparse"), ("error recovery", "c/src/q_parser.c yyerror, qp_get_bad_query, qp_clean_str")])

prop("P21", "Query-language text means the query it describes",
 "A query written in the query language (words, phrases with slop and alternatives, AND, OR, NOT, REQ and their symbols, fields, field lists, the all-fields star, ranges, wildcards, fuzzy words, boosts, grouping, escapes) parses to a query that matches and ranks exactly like the query built directly from its meaning, for either default operator. Printing a parsed query of plain words (no escaped characters, clause limit not exceeded) and parsing the text again yields a query with the same hits, and cleaning a malformed query keeps its escaped characters and quoted phrases.",
 ["inputs"], "all well-formed query texts over a vocabulary and all small collections",
 "The grammar composes without bound; tests check about a hundred fixed strings.",
 ["c/src/q_parser.c", "c/src/q_boolean.c", "c/src/q_phrase.c", "c/src/q_range.c"],
 [("query construction", "c/src/q_parser.c get_term_q, get_phrase_q, get_r_q, get_wild_q, get_bool_q"), ("to_s", "c/src/q_*.c *_to_s")])

prop("P22", "Analyzers tokenize every text safely with faithful offsets",
 "For every text (any bytes, any length), each analyzer terminates without touching memory it does not own and yields tokens whose byte offsets lie inside the text in non-decreasing order, whose position increments are non-negative, and whose text is at most the maximum word size. Whitespace and letter analyzers yield exactly the maximal runs of non-space or letter characters (lower-cased on request); stop, lower-case, mapping, hyphen and stemming filters change tokens only as defined and stop words increase the next position increment; on ASCII text the ASCII, multi-byte and UTF-8 variants agree. Resetting or cloning a stream yields the same tokens as a fresh one.",
 ["inputs"], "all texts, analyzers and filter chains",
 "Text space is unbounded and offsets are only spot-checked.",
 ["c/src/analysis.c", "c/src/scanner.c", "c/src/scanner_mb.c", "c/src/scanner_utf8.c", "c/src/multimapper.c", "c/src/stopwords.c"],
 [("tokenizers", "c/src/analysis.c *_next"), ("scanners", "c/src/scanner*.c frt_std_scan*"), ("filters", "c/src/analysis.c sf_next, hf_next, mf_next, stemf_next, mb_lcf_next")])

prop("P23", "Highlighting marks exactly matching text inside faithful excerpts",
 "For every query, document and highlighting option, removing the tags and ellipses from each excerpt leaves a contiguous piece of the stored field text (also of compressed and multi-valued fields), every tagged piece is an occurrence of a term or phrase of the query, no tagged pieces overlap or nest, and every match that lies inside an excerpt is tagged. There are at most the requested number of excerpts, in text order and, as long as no match is longer than an excerpt, without overlap and with about the requested length; a single excerpt covers as many matches as one window can; when the whole field is requested, or fits the requested total, every occurrence is tagged. A field or document without matches yields no highlights, and the match vector of a query lists exactly its matches.",
 ["inputs"], "all texts, queries and excerpt options",
 "Excerpt selection depends on lengths, overlaps and window sizes in combinations tests do not sample.",
 ["c/src/search.c", "c/src/q_phrase.c", "c/src/q_span.c", "c/src/q_term.c"],
 [("match vectors", "c/src/search.c matchv_*, searcher_get_match_vector, q_*.c *_get_matchv_i"), ("excerpts", "c/src/search.c searcher_highlight, excerpt_*")])

prop("P24", "Directory streams read back exactly what was written",
 "For every sequence of typed writes (bytes, 32- and 64-bit integers, variable-length integers, strings, raw blocks), seeks and copies on a RAM, disk or compound-file directory, reading, seeking and cloning input streams returns exactly the written values and bytes, positions and lengths are exact, and reading past the end raises an error instead of returning data (output seeks stay within the file). The three kinds of directory behave identically, and file listing, existence, renaming, removal and counting agree with a simple map of names to contents, on which creating an output replaces the contents and removing reports whether the file existed.",
 ["inputs", "histories"], "all operation sequences, sizes around buffer boundaries, and interleavings of several open streams",
 "Buffer-boundary arithmetic needs sizes and seek patterns that examples miss.",
 ["c/src/store.c", "c/src/fs_store.c", "c/src/ram_store.c", "c/src/compound_io.c"],
 [("buffered streams", "c/src/store.c os_*, is_*"), ("stores", "c/src/fs_store.c, c/src/ram_store.c, c/src/compound_io.c")])

prop("P25", "Core containers behave like their mathematical models",
 "For every operation sequence, the hash table and hash set behave as a map and an insertion-ordered set, the bit vector as a set of integers (with and, or, xor, not, scans, counts, equality and hashing consistent, including the extends-as-ones representation), the priority queue pops in order and keeps exactly the best elements when bounded, arrays behave as lists, symbols are unique per string, and the multi-mapper replaces, scanning from the left, the pattern that is completed first (the longest of those completed at the same character).",
 ["inputs", "histories"], "all operation sequences and element sets",
 "Collisions, resizes, tombstones and word boundaries need long random sequences.",
 ["c/src/hash.c", "c/src/hashset.c", "c/src/bitvector.c", "c/include/bitvector.h", "c/src/priorityqueue.c", "c/src/array.c", "c/src/multimapper.c", "c/src/symbol.c", "c/src/mempool.c"],
 [("hash table", "c/src/hash.c"), ("hash set", "c/src/hashset.c"), ("bit vector", "c/include/bitvector.h, c/src/bitvector.c"), ("priority queue", "c/src/priorityqueue.c"), ("multi mapper", "c/src/multimapper.c")])

prop("P26", "The Ruby Index keeps keys unique and sees its own changes",
 "For every sequence of Ruby Index operations (add, update, batch update, query update, delete by id, number, query or batch, flush, optimize, reopen), the index contains exactly the documents a simple ordered model contains: adding a document with the index's key replaces the previous document with that key (single or compound), deletions remove exactly the matching documents, every read sees all earlier writes of the same Index object, and counts, lookups by id and searches agree with the model. The result is the same with and without auto-flush and after closing and reopening.",
 ["inputs", "histories"], "all operation sequences and key configurations",
 "The Index class juggles a writer, a reader and a searcher; which one is open depends on the whole history.",
 ["ruby/lib/ferret/index.rb", "ruby/ext/r_index.c", "ruby/ext/r_search.c"],
 [("Index", "ruby/lib/ferret/index.rb add_document, update, delete, query_delete, query_update, ensure_writer_open, ensure_reader_open"), ("bindings", "ruby/ext/r_index.c, ruby/ext/r_store.c")])

prop("P27", "Lexicographic encodings preserve order and round-trip",
 "For all integers a and b, a.to_s_lex compares with b.to_s_lex as a compares with b, and to_i_lex inverts to_s_lex; for times and dates the encodings at each precision order like the truncated times and to_time_lex inverts them; to_s_pad orders non-negative integers of the padded width. Range queries over fields holding these encodings therefore select exactly the numeric interval.",
 ["inputs"], "all integers (within the length the format allows), dates and times",
 "Order preservation is a statement about all pairs.",
 ["ruby/lib/ferret/number_tools.rb"],
 [("encodings", "ruby/lib/ferret/number_tools.rb to_s_lex, to_i_lex, to_time_lex, to_s_pad")])

prop("P28", "Query objects are reusable values",
 "Two queries built the same way are equal and have equal hashes, and queries that differ in field, term, boost, slop, bounds, inclusiveness, occurrence or clause structure are not equal. Searching, explaining, highlighting or printing with a query never changes it: repeating the search, on the same or on another index, gives what a freshly built query gives, and its printed form stays the same.",
 ["inputs", "histories"], "all queries and all sequences of uses over several readers",
 "Mutation by rewriting shows only on a second use with different contents.",
 ["c/src/q_boolean.c", "c/src/q_span.c", "c/src/q_multi_term.c", "c/src/q_phrase.c", "c/src/search.c"],
 [("rewrite", "c/src/q_*.c *_rewrite"), ("hash and eq", "c/src/q_*.c *_hash, *_eq")])

prop("P29", "The Ruby readers, writers and enumerators show exactly the index contents",
 "For every set of documents given to a Ruby IndexWriter in any form the API takes (hashes with String, Symbol, number or array values, Documents and Fields), with any field declarations, ready-made or Ruby-written analyzers and any deletions, over one or several directories, an IndexReader reports exactly the live documents: their stored fields through LazyDoc, the terms and document frequencies through TermEnum (from any start and after any skip), documents, frequencies and positions through TermDocEnum (also after skips), term vectors, norms, field declarations and the JSON forms. A field the index does not have has no terms and no documents. Enumerators and documents stay valid when the reader object they came from is dropped and collected.",
 ["inputs", "histories"], "all documents, declarations, writer options, sets of directories and sequences of reads",
 "Every read combines a binding, a reader kind and an index shape; tests sample a few combinations on one fixed index.",
 ["ruby/ext/r_index.c", "ruby/ext/r_analysis.c", "ruby/ext/ferret.c", "ruby/lib/ferret/document.rb", "ruby/lib/ferret/field_infos.rb", "c/src/index.c"],
 [("readers and enumerators", "ruby/ext/r_index.c frb_ir_*, frb_te_*, frb_tde_*, frb_get_tv, frb_lzd_*"), ("documents", "ruby/ext/r_index.c frb_get_doc, frb_hash_to_doc_i"), ("Ruby token streams", "ruby/ext/r_analysis.c cwrts_next, cwa_get_ts")])

prop("P30", "Searching through the Ruby classes finds exactly the matching documents",
 "For every query built through the Ruby query classes and their options (also through BooleanClause objects, changed clauses and Ruby-written filters and filter procs), every index of one or several directories and every Searcher or MultiSearcher over them, search, search_each, scan, explain, bits, doc_freq, extracted terms and highlight report exactly what evaluating the query over the documents gives: the documents found, total_hits, scores that agree with each other and with explain, the order asked for by Sort, the window asked for by offset and limit, and the JSON form of the result. Queries compare equal to equal queries only and never fail to compare. Garbage collection at any point, also of queries, readers and searchers that are no longer referenced, changes nothing and frees nothing twice.",
 ["inputs", "histories"], "all queries, options, document sets, searcher kinds and points of garbage collection",
 "The bindings convert every option and share C objects between Ruby objects; mistakes show only for particular combinations of options, kinds and collection points.",
 ["ruby/ext/r_search.c", "ruby/ext/r_utils.c", "ruby/ext/ferret.c", "c/src/search.c"],
 [("queries", "ruby/ext/r_search.c frb_*q_init, frb_bc_*, get_range_params"), ("searchers", "ruby/ext/r_search.c frb_sea_*, frb_ms_*"), ("filters and sorts", "ruby/ext/r_search.c frb_f_*, frb_sf_*, frb_sort_*"), ("results", "ruby/ext/r_search.c frb_td_*, frb_lzd_load_to_json")])

prop("P31", "Analysis through the Ruby classes gives exactly the tokens of its definition",
 "For every text and every stack of tokenizers and filters built through the Ruby analysis classes (ready-made, RegExpTokenizer with any regular expression and proc, MappingFilter with any mapping, StopFilter with any list, StemFilter, HyphenFilter, tokenizers, filters and analyzers written in Ruby, PerFieldAnalyzer), the stream yields exactly the tokens of its definition: text, byte offsets into the text, position increments, then nil. Setting text= starts it anew with the new text, which text then returns. Streams of the same analyzer do not influence each other. Indexing with an analyzer stores those tokens at those positions, and a QueryParser given it looks for those tokens. Garbage collection at any point, minor or full, and dropping the analyzer while its streams are in use, change nothing.",
 ["inputs", "histories"], "all texts, analyzers, interleavings of streams and points of garbage collection",
 "Ruby objects and C streams refer to each other's memory; a missing reference shows only for particular stacks and collection points.",
 ["ruby/ext/r_analysis.c", "ruby/ext/ferret.c", "c/src/analysis.c", "c/src/multimapper.c", "c/src/stopwords.c"],
 [("token streams", "ruby/ext/r_analysis.c frb_ts_*, rets_*, cwrts_*"), ("filters", "ruby/ext/r_analysis.c frb_*_filter_init"), ("analyzers", "ruby/ext/r_analysis.c frb_*_analyzer_init, cwa_get_ts, frb_pfa_*")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
