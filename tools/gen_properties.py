#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the records stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- transactions
prop("T01", "Readers of a dynamic store see an atomic, stable committed snapshot",
 "A started reader of a dynamic store (or a clone of it) sees all of the text and annotations of some set of committed transactions and nothing of any other transaction; that set contains every transaction whose commit returned before the reader started, none that was aborted or never committed, and is downward closed for transactions committed one after the other. "
 "What the reader sees stays the same until it ends, whatever other threads commit, erase, clone, or merge in the background meanwhile.",
 ["schedules", "histories"],
 "every interleaving (up to the preemption bound, at every lock, atomic, condition wait, thread start/exit and instrumented shared access) of small mixes of writers, committers, aborters, readers, cloners and background merge workers",
 "The bigwig tests run one free-running schedule per process, with a handful of threads; they cannot hold a reader between another thread's ready and commit, nor swap shards under a started view at a chosen point.",
 ["src/bigwig.cc", "src/bigwig.h", "src/fluffle.h", "src/fiver.cc", "src/owsla.cc", "src/owsla.h", "src/hazel.cc", "src/committable.h", "src/array_hopper.cc", "src/cache_gate.h"],
 [("snapshot captured under the shared lock at start", "src/bigwig.cc Bigwig::start_"),
  ("two-phase ready/commit: kitten published invisible, made visible at commit together with a fresh posting cache", "src/bigwig.cc Bigwig::ready_/commit_"),
  ("merge worker replaces a run of shards with an equivalent shard under the lock", "src/bigwig.cc merge_worker"),
  ("per-generation merged posting cache with completion gate", "src/owsla.cc OwslaCache::get; src/cache_gate.h")],
 ["warren->idx()->hopper(f), count(f)", "warren->txt()->translate/range/tokens"],
 [("visible shards", "ordered list of shards shared by all clones", "src/fluffle.h warrens"),
  ("sequence/address", "next transaction number and next free address", "src/fluffle.h")])

prop("T02", "Concurrent use of a store never races, deadlocks or loses a wakeup",
 "In every interleaving of concurrent readers, clones, writers, committers and background workers on shared stores, no two threads make conflicting unsynchronised accesses to the same memory, no thread waits forever, and no operation aborts the process; every call returns, and background workers finish once the callers are done.",
 ["schedules"],
 "every interleaving within the preemption bound of small scenarios over dynamic, in-memory, single-file and static stores, with a vector-clock race check on every explored schedule",
 "The test suite is single-schedule and not run under a race detector; a missing lock or a lost notification only shows for particular interleavings.",
 ["src/bigwig.cc", "src/fiver.cc", "src/hazel.cc", "src/owsla.cc", "src/fluffle.h", "src/read_gate.h", "src/cache_gate.h", "src/safe_map.h", "src/simple_idx.cc", "src/simple_txt.cc", "src/simple_annotator.cc", "src/simple_appender.cc", "src/array_hopper.cc", "src/porter.cc"],
 [("fluffle lock", "src/fluffle.h"), ("counting read gate", "src/read_gate.h"), ("one-way completion gate", "src/cache_gate.h"),
  ("text chunk cache: published flag + lock", "src/hazel.cc HazelTxt::obtain"), ("per-text mutexes", "src/fiver.cc FiverTxt; src/simple_txt.cc")],
 ["thread-library calls, atomics and memory accesses of the compiled implementation"])

prop("T03", "Committed text and annotations keep one unique, ordered address range",
 "Transactions made ready on a dynamic store are given disjoint address ranges in the order they were made ready, an aborted transaction's text is never readable, and every interval a writer annotated relative to text it appended denotes, after commit and in every later view, exactly the text and tokens it denoted when written. "
 "Addresses already visible are never reused or changed by later transactions, aborts, reopening, or merging; one transaction's appended pieces are contiguous and in append order.",
 ["histories", "inputs"],
 "every sequence up to a bounded length of begin/append/annotate/ready/commit/abort steps over two or three clones, with empty, token-free and multi-block texts, and with close/reopen and shard maintenance steps",
 "Tests use one or two fixed histories with long texts; relocation edge cases (annotation across pieces, empty text, absolute annotations, abort after ready, reopen) need enumeration.",
 ["src/bigwig.cc", "src/fiver.cc", "src/fluffle.h"],
 [("address assignment under the lock at ready", "src/bigwig.cc Bigwig::ready_"), ("relocation of staged annotations", "src/fiver.cc Fiver::relocate"), ("text chunk annotations map addresses to text", "src/fiver.cc FiverAppender/FiverTxt")],
 ["append() results", "txt()->translate", "idx()->hopper"])

prop("T04", "Erasing hides exactly the annotations inside the erased interval",
 "After a transaction that erased an address interval commits, every later view omits exactly those annotations, of every feature, that lie inside an erased interval, and no others, whether they were committed earlier, in the same transaction, or later, and whatever physical merging, conversion or reopening has happened; views started before that commit are unaffected.",
 ["histories"],
 "every bounded history of annotate, erase, commit, merge, convert and reopen steps over a small address space, for features with non-nesting intervals (see DESIGN.md for the recorded nesting finding)",
 "Tests erase a few fixed intervals once; the interaction of erase order with each merge grouping and with garbage collection of erased annotations is a product space.",
 ["src/bigwig.cc", "src/fiver.cc", "src/hazel.cc", "src/simple_posting.cc", "gcl/gcl.cc"],
 [("erase recorded as annotation of the null feature, applied as not-contained-in at read", "src/bigwig.cc BigwigIdx::hopper_"), ("physical removal when shards merge", "src/simple_posting.cc posting_from_merge(postings, exclude)")],
 ["warren->idx()->hopper(f)"])

# ---------------------------------------------------------------- durability
prop("D01", "A crash never loses a committed transaction nor exposes an uncommitted one",
 "If the process dies at any point while a dynamic store is being created, written, committed or merged, reopening the store succeeds and shows all of the text and annotations of every transaction whose commit had returned, nothing of any transaction whose commit had not been called, and every other transaction either completely or not at all. "
 "The reopened store accepts, keeps and orders new transactions normally, and recovery itself may be interrupted and repeated.",
 ["crash_points", "histories"],
 "process death before every file-system operation and in the middle of every write (partial write lengths), for a set of bounded histories covering commit, abort, batch commit, erase, background merge and conversion, and death again at every point of the recovery",
 "No test kills the process; the protocol (temp, link, kitten, rename, remove) is only correct if every prefix of the operation sequence is recoverable.",
 ["src/fiver.cc", "src/bigwig.cc", "src/working.h", "src/working.cc", "src/hazel.cc", "src/dna.cc"],
 [("temp file, link to kitten, link to final name", "src/fiver.cc Fiver::pickle/commit_"), ("startup sanitising", "src/bigwig.cc sanitize; src/fiver.cc Fiver::sanitize; src/hazel.cc Hazel::sanitize")],
 ["Warren::make on the surviving directory, full content dump"])

prop("D02", "Batch commit over several writers is all-or-nothing across crashes",
 "When several ready transactions on the same dynamic store are committed as one batch, then after process death at any point during the batch commit the reopened store (after any number of interrupted recoveries) shows either all of the batch's transactions or none of them, and all of them once the batch commit has returned.",
 ["crash_points"],
 "process death before every file-system operation and inside every write of the batch commit for batches of 1..3 writers, single or multi-store, and at every operation of the recovery that follows",
 "Tests call the batch commit once and never interrupt it.",
 ["src/bigwig.cc", "src/warren.cc", "src/scribe.cc", "src/fiver.cc"],
 [("commit script written to temp, linked, executed, removed", "src/bigwig.cc Bigwig::commit_all"), ("script replay at open", "src/bigwig.cc finalize_commits"), ("grouping of warrens", "src/warren.cc Warren::commit_all; src/scribe.cc Scribe::commit_all")],
 ["Warren::make on the surviving directory"])

prop("D03", "Storage errors never lose acknowledged data or fake a success",
 "If any single file-system operation fails (no space, short write, I/O error, failed link, rename or open) while a store is used, then every transaction reported ready and committed is completely present after reopening, every operation that could not do its work reports failure instead of success, and previously committed data stays readable both in the running process and after reopening. "
 "Background maintenance that meets such an error gives up without deleting the shards it was meant to replace.",
 ["fault_sequences"],
 "one injected failure at every file-system operation (each applicable error kind) of bounded histories covering create, append, ready, commit, abort, merge, conversion and shard merge, and every later operation also failing (persistent fault)",
 "Tests never inject I/O errors.",
 ["src/fiver.cc", "src/bigwig.cc", "src/hazel.cc", "src/simple_posting.cc", "src/working.cc", "src/dna.cc"],
 [("pickle/link error returns", "src/fiver.cc Fiver::pickle, Fiver::ready_"), ("conversion and merge publish only after a complete file", "src/fiver.cc Fiver::hazel; src/hazel.cc Hazel::merge"), ("merge worker replaces and discards sources", "src/bigwig.cc merge_worker")],
 ["return values, content dump in process and after reopen"])

prop("D04", "Opening a store resolves every shard layout a crash can leave",
 "Opening a dynamic store directory that holds any combination of live shards, superseded shards, uncommitted shards, merge leftovers and temporary files that is consistent (every superseded or overlapped shard lies within one surviving shard) succeeds, shows exactly the content of the surviving shards, removes only superseded or uncommitted files, and gives the same result when opened again. "
 "A directory whose shards partially overlap in a way no run can produce is refused with an error and left unmodified as to live data.",
 ["configurations"],
 "every subset, up to a bound, of shard files over sequence ranges within 1..4 (in-memory-format and single-file-format), pending commits, sidecars and temporary files",
 "Tests build two or three hand-made directories.",
 ["src/bigwig.cc", "src/fiver.cc", "src/hazel.cc", "src/owsla.h"],
 [("same-kind containment cleanup", "src/fiver.cc Fiver::sanitize; src/hazel.cc Hazel::sanitize"), ("cross-kind resolution", "src/bigwig.cc combine_shards")],
 ["Warren::make, directory listing, content dump"])

# ---------------------------------------------------------------- maintenance
prop("M01", "Merging and converting shards never changes what queries see",
 "For every store content and every grouping and order of shard merges and conversions between shard formats, the merged or converted shard answers every index, cursor, text, token-count, range and parameter query exactly as the set of shards it replaces does for a reader of the store, with every compression choice and chunk size.",
 ["histories", "inputs", "configurations"],
 "every way to partition and order merges/conversions of 2..4 small shards whose contents are enumerated from a bounded universe, times compressor and chunk-size configurations",
 "Tests merge one fixed set of shards in one order.",
 ["src/fiver.cc", "src/hazel.cc", "src/simple_posting.cc", "src/bigwig.cc"],
 [("in-memory shard merge", "src/fiver.cc Fiver::merge"), ("conversion writers", "src/fiver.cc hazel_write_idx_blob/hazel_write_txt_blob"), ("streaming shard merge", "src/hazel.cc HazelIdx::merge/HazelTxt::merge")],
 ["idx()->hopper/count/vocab, txt()->translate/range/tokens"])

prop("M02", "An interrupted shard merge resumes to the same result or restarts cleanly",
 "If a merge of single-file shards is interrupted at any point, by process death or by an I/O error, then running it again, from whatever sidecar files were left behind, produces a shard that answers every query exactly as an uninterrupted merge would, or fails cleanly leaving the sources untouched; and nothing is left behind after success. "
 "Leftovers that do not belong to the merge being run are never mistaken for its progress.",
 ["crash_points", "fault_sequences"],
 "process death before every file-system operation and at partial lengths of every write of a merge, then re-run (and killed again at every operation of the re-run), plus every truncation of each sidecar",
 "Tests resume from one or two hand-made checkpoints.",
 ["src/hazel.cc"],
 [("checkpoint directory and posting sidecars with repair", "src/hazel.cc hazel_repair_checkpoint/HazelIdx::merge"), ("publication by link and sidecar cleanup", "src/hazel.cc Hazel::merge")],
 ["merged shard content, directory listing"])

prop("M03", "A damaged shard or index file is refused, never silently misread",
 "Opening a single-file shard that has been truncated at any point, or whose headers, directories or sizes have been altered inconsistently, either fails with an error or yields a store that answers every query exactly as the intact file would; damage that shows only inside a posting list or text chunk read on demand stops the program when it is read; it never hangs or returns different content.",
 ["fault_sequences", "inputs"],
 "every truncation length, and every single-byte change of structural (non-payload) bytes, of small shard files",
 "Tests corrupt a few chosen fields.",
 ["src/hazel.cc"],
 [("magic, length and directory validation on activation", "src/hazel.cc HazelIdx::make/HazelTxt::make/Hazel::make")],
 ["Warren::make result, content dump"])

# ---------------------------------------------------------------- static store
prop("S01", "Static store transactions are atomic, also across crash and recovery",
 "A transaction on a static store is invisible to readers until it commits, leaves the store exactly as before when aborted, and makes exactly its appended text and annotations visible when committed. "
 "If the process dies at any point, recovering with the abort decision any time before commit was called restores exactly the previous content, recovering with the commit decision any time after the transaction was successfully readied gives exactly the new content, recovery may itself be interrupted and repeated, and the store then accepts new transactions.",
 ["crash_points", "histories"],
 "process death before every file-system operation and at partial lengths of every write of bounded transaction histories, followed by each permitted recovery decision, itself killed at every operation",
 "Tests recover from one hand-made interruption per component with the writer object still alive.",
 ["src/simple_annotator.cc", "src/simple_appender.cc", "src/simple_txt_io.cc", "src/simple_warren.cc", "src/simple_idx.cc", "src/committable.h"],
 [("new files renamed over old at commit", "src/simple_annotator.cc, src/simple_appender.cc"), ("saved last chunk and map limit", "src/simple_txt_io.cc restore"), ("explicit recovery entry points", "Appender::recover, Annotator::recover")],
 ["SimpleWarren::make, content dump"])

prop("S02", "Chunked text storage reads back exactly the bytes that were appended",
 "For every chunk size, compressor and sequence of appends, reads, flushes, clones, commits, aborts and reopens, reading any byte range of a chunked text file returns exactly that range of the concatenation of the committed (or in-progress, for the writer) appends, clipped to its size; aborting restores exactly the bytes before the transaction.",
 ["histories", "inputs"],
 "every operation sequence up to a bounded depth with append lengths around multiples of the chunk size, all byte ranges read back after each step",
 "Tests append a few sonnets at six chunk sizes.",
 ["src/simple_txt_io.cc", "src/simple_txt_io.h", "src/zlib_compressor.cc"],
 [("last-chunk cache and sync", "src/simple_txt_io.cc append/fetch_chunk/sync_last_chunk"), ("transaction limits", "src/simple_txt_io.cc transaction_/restore")],
 ["read(start, n), size()"])

prop("S03", "All store kinds give the same text and annotations for the same input",
 "Loading the same sequence of texts and annotations into a static store (by builder, or by transactions), a dynamic store, an in-memory shard and a single-file shard yields stores that agree on every query: the text of every address range is exactly the original text from the first through the last token of the range, token counts and ranges agree, and every feature's annotations are exactly those given (outermost ones removed where they contain another). "
 "This holds for any text, chunk size, compressor, and any order of reads.",
 ["inputs", "configurations", "histories"],
 "every sequence of up to three texts from a bounded universe of token/separator patterns, every address range, in several read orders (forward, backward, repeated), times tokenizer and compressor configurations",
 "Tests compare one corpus of files, reading in one order.",
 ["src/simple_builder.cc", "src/simple_txt.cc", "src/simple_appender.cc", "src/simple_idx.cc", "src/fiver.cc", "src/hazel.cc", "src/bigwig.cc", "src/fastid_txt.cc"],
 [("address-to-offset map with blocking and memo", "src/simple_txt.cc translate_"), ("text chunk features", "src/fiver.cc FiverTxt, src/hazel.cc HazelTxt"), ("external sort and merge of annotations", "src/simple_builder.cc, src/simple_annotator.cc merge_updates")],
 ["txt()->translate/tokens/range", "idx()->hopper/count/vocab"])

# ---------------------------------------------------------------- queries
prop("Q01", "Index cursors return the defined interval for any key, in any call order",
 "For every set of annotations and every sequence of forward/backward cursor calls on one cursor, each call returns exactly the annotation its definition selects (the first starting at or after a position, the first ending at or after it, the last ending at or before it, the last starting at or before it) with its value, or the end marker, independent of the calls made before and of how the postings are stored.",
 ["inputs", "histories"],
 "every non-nesting interval list over a small address range, every call sequence up to a bounded length over all four operations and all keys including both infinities; plus galloping-size lists with every key pair",
 "Tests use a few lists and mostly monotone keys.",
 ["src/array_hopper.cc", "src/hopper.cc", "src/hopper.h", "src/simple_posting.cc", "src/simple_idx.cc", "src/fiver.cc", "src/hazel.cc"],
 [("galloping search from the last position", "src/array_hopper.cc"), ("memo of the last key", "src/hopper.h"), ("fixed-width and singleton cursors", "src/hopper.cc")],
 ["Hopper::tau/rho/uat/ohr"])

prop("Q02", "Structural query operators compute the minimal-interval algebra exactly",
 "For all operand annotation lists, every structural query operator (all-of, one-of, followed-by, contained-in, containing, not-contained-in, not-containing, link, merge of many sources, materialised and fixed-width operands) and their nestings yields, from any starting key, in any of the four directions and after any earlier calls, exactly the solution set defined by its meaning over minimal intervals, in order, with no solution missed, duplicated or invented.",
 ["inputs", "histories"],
 "every pair and triple of non-nesting interval lists over a small address range, every operator and two-level nesting, every key and every pair of consecutive calls",
 "Tests check chosen queries on one corpus, forward only.",
 ["gcl/gcl.cc", "gcl/gcl.h", "gcl/vector_hopper.cc", "gcl/materialize.cc", "src/hopper.cc"],
 [("lazy operator cursors", "gcl/gcl.cc"), ("priority-queue merge", "gcl/vector_hopper.cc"), ("materialisation", "gcl/materialize.cc")],
 ["hopper_from_gcl / operator constructors, tau/rho/uat/ohr"])

prop("Q03", "Query text parses to its documented meaning or is refused",
 "Every query string either parses to an expression that prints back to an equivalent string (printing and reparsing is stable, with and without phrase expansion and binary conversion, all giving the same results on every store) or is refused with an error; a string is never half-accepted, and parsing never crashes or hangs. "
 "The infix query language translates to an expression with the same meaning as its documented operators, for every operator combination and precedence.",
 ["inputs", "programs"],
 "every string up to a bounded length over the token alphabet of each query language, and every expression tree up to a bounded size with brute-force evaluation against a small store",
 "Tests parse a few dozen fixed queries.",
 ["gcl/parse.cc", "gcl/parse.h", "gcl/mt.cc", "gcl/mt.h", "src/warren.cc"],
 [("s-expression parser, phrase expansion, binary conversion", "gcl/parse.cc"), ("infix translation", "gcl/mt.cc")],
 ["hopper_from_gcl, SExpression::to_string, Mt::s_expression"])

prop("Q04", "Query optimisation never changes query results",
 "For every query and every store content, the optimised form of the query yields exactly the same solutions as the unoptimised query for every starting key and direction.",
 ["programs", "inputs"],
 "every expression tree up to a bounded size and shape around the rewritten patterns, times every small operand assignment, all keys and directions",
 "Tests compare a few queries on a small corpus.",
 ["gcl/optimizer.cc", "gcl/optimizer.h", "gcl/materialize.cc", "gcl/parse.cc"],
 [("contained-in/all-of rewrite with materialisation", "gcl/optimizer.cc")],
 ["hopper_from_gcl with the optimiser on and off"])

prop("Q05", "Ranking returns the true top results of its scoring, however it is run",
 "For every collection of containers that do not overlap and every query, shortest-substring (also tiered, and over a range), bm25, language-model and product ranking return exactly the best-scoring containers among those with a positive score, each once, with the scores their formulas define over the text that is there and in non-increasing order, cut at the requested depth; collection statistics (term frequencies, document frequencies, average length), however made, are those of the containers, and making them of what cannot be is refused with an error, never a crash; the results are independent of depth-pruning, of the number of threads and their schedule, and of how the collection is split into shards.",
 ["inputs", "configurations", "schedules"],
 "every small collection (documents as term sequences over a tiny vocabulary) and every query over that vocabulary, all depths, each ranker, static and sharded stores",
 "Tests compare a handful of rankings on one corpus with fixed parameters.",
 ["src/ranking.cc", "src/ranking.h", "src/ranker.cc", "src/stats.cc", "src/df_stats.cc", "src/idf_stats.cc", "src/field_stats.cc", "meadowlark/tf-idf_forager.cc", "meadowlark/tf-idf_stats.cc"],
 [("threaded top-k accumulation", "src/ranking.cc"), ("collection statistics", "src/stats.cc, src/df_stats.cc, src/idf_stats.cc")],
 ["ranking functions"])

# ---------------------------------------------------------------- codecs / ingest
prop("C01", "Compressed and serialised index data decodes to exactly what was encoded",
 "Every compressor reproduces every input it accepts byte for byte within its declared expansion bound; every posting list written to a file or shard reads back identical in features, intervals and values with any compressor choice; and combining posting lists yields the minimal intervals of their union in order, independent of grouping.",
 ["inputs", "configurations"],
 "every byte string and every position list up to a bounded size over boundary values, times every compressor; every pair and triple of small posting lists",
 "Tests round-trip a few random or fixed arrays.",
 ["src/compressor.h", "src/post_compressor.cc", "src/tfdf_compressor.cc", "src/zlib_compressor.cc", "src/simple_posting.cc", "src/bad_compressor.h"],
 [("variable-byte gap coding", "src/post_compressor.cc"), ("posting record layout", "src/simple_posting.cc write/posting_from_file"), ("merge", "src/simple_posting.cc posting_from_merge")],
 ["crush/tang, SimplePosting"])

prop("C02", "Tokenising, skipping and splitting text agree and cover it faithfully",
 "For every byte string, tokenisation gives non-decreasing addresses starting at zero, disjoint in-range spans in text order, and features that equal those of the token's text alone; skipping n tokens stops exactly where token n begins, splitting yields one text per token, whose feature is the first one the token is indexed under, and cutting a text at a token boundary and processing the parts gives the same tokens. Every tokenizer variant also never reads beyond the text it is given.",
 ["inputs"],
 "every byte string up to a bounded length over an alphabet of representative characters (letters of both cases, digits, separators, markup, multi-byte letters, combining marks, ideographs, noncharacters, invalid and truncated sequences)",
 "Tests tokenise a few dozen strings.",
 ["src/ascii_tokenizer.cc", "src/utf8_tokenizer.cc", "src/tokenizer.cc", "src/unicode.h"],
 [("character classification and folding", "src/utf8_tokenizer.cc, src/ascii_tokenizer.cc")],
 ["Tokenizer::tokenize/skip/split"])

prop("C03", "JSON documents survive storage and every path finds exactly its values",
 "For every JSON document, the stored document renders back to JSON with the same structure, keys, strings and (to stored precision) numbers, and for every path in it the path's annotations are exactly the intervals of the values at that path with the documented value (number, truth value, array length); nested values render back on their own, and a malformed document is refused without leaving anything visible.",
 ["inputs"],
 "every JSON value up to a bounded size over a small alphabet of keys, strings (quotes, backslashes, spaces, multi-byte), numbers, literals and nesting, in each store kind",
 "Tests store a handful of documents.",
 ["src/json.cc", "src/json_txt.cc", "src/json_featurizer.cc", "src/scribe.cc", "src/utf8_tokenizer.cc"],
 [("recursive scribing with noncharacter tokens", "src/json.cc"), ("rendering", "src/json.cc json_translate, src/json_txt.cc")],
 ["warren->txt()->translate, hopper_from_gcl(path)"])

prop("C04", "Store settings and parameters survive freezing, reopening and cloning",
 "Every map of settings, including nested ones and arbitrary characters, freezes to a string that cooks back to the same map; malformed setting strings are refused; parameters set on a store are returned by every later read in that process, its clones and after reopening, keeping all others unchanged; and a store reopened from its recorded settings uses the same tokenizer, featurizer, compressors and stemmer.",
 ["inputs", "histories", "crash_points"],
 "every map up to a bounded size over keys and values with every special character, every string up to a bounded length over the recipe alphabet, every bounded sequence of parameter updates with reopen, and process death at every operation of an update",
 "Tests freeze and cook a few maps.",
 ["src/recipe.cc", "src/dna.cc", "src/simple_warren.cc", "src/bigwig.cc", "src/hazel.cc", "src/warren.cc"],
 [("quoting and parsing", "src/recipe.cc"), ("settings file rewritten through a temporary", "src/dna.cc")],
 ["freeze/cook, set_parameter/get_parameter"])

prop("E01", "Effectiveness measures equal their definitions for every ranking",
 "For every ranking of distinct documents and every set of graded judgments, each reported measure (average precision, reciprocal rank, precision overall and at 5, 10 and 20, recall, counts, DCG and NDCG overall and at 5, 10 and 20, rank-biased precision, time-biased gain) equals its definition; the similarity of two rankings is the largest difference any binary judgments could make between them; fused rankings hold every document once with the sum of its reciprocal ranks, in order; the mean over topics is the arithmetic mean of the measures all topics have; no measure is ever not a number. Judgments read from a file are exactly those of its lines, each for the document with that identifier, scaled as documented, and a malformed file is refused.",
 ["inputs"],
 "all rankings and judgments over four grades to a bounded length, all relevant positions in lists crossing every cut-off, all pairs of rankings over a few documents, all sequences of topics, all judgment files over a menu of lines",
 "The evaluation test checks one ranking of one document; nothing reaches the cut-offs, empty lists, missing measures, or identifiers that contain each other.",
 ["src/eval.cc", "src/eval.h", "src/ranking.cc"],
 [("measures of one topic", "src/eval.cc trec_eval, ndcg_eval, rbp_eval, tbg_eval"),
  ("rank similarity and fusion", "src/eval.cc med; src/ranking.cc rrf_fusion"),
  ("mean over topics", "src/eval.cc mean"),
  ("judgments resolved to documents by identifier", "src/eval.cc load_trec_qrels, translate_docno, trec_docno")],
 ["eval, med, mean, rrf_fusion, load_trec_qrels"])

prop("F01", "Fast identifiers never change what a store answers",
 "However a static store is given fast identifiers, extended, reopened, cloned and read (by any number of threads through their own clones), every translation, range and statistic is the one the same store gives without them: every identifier, whatever bytes it holds and wherever it stands, maps to its own text. A process that ends, or an operation that fails, while they are made leaves a store that opens and answers as before or with all of them.",
 ["inputs", "schedules", "crash points"],
 "all operation sequences to a bounded depth over all small collections of identifiers, all crash points and failing operations of making them, all schedules to a preemption bound",
 "No test makes fast identifiers and then appends, clones, reads from two threads, or fails to write them.",
 ["src/fastid_txt.cc", "src/fastid_txt.h", "src/txt.cc", "apps/fast-id.cc"],
 [("identifiers kept in memory and looked up by position", "src/fastid_txt.cc FastidTxt::translate_, fastid"),
  ("text read through a wrapped reader", "src/fastid_txt.cc wrap, clone_, raw_, range_"),
  ("identifiers written beside the store", "src/fastid_txt.cc fastid")],
 ["Txt::translate, raw, range, tokens; fastid"])

prop("W01", "A store lives in its directory, whatever the name, and touches nothing else",
 "For every directory name the file system accepts (with spaces, quotes, leading dashes, characters that mean something to a shell), a static or dynamic store can be made there, extended, recovered after a crash and opened again with the content it was given, and nothing outside that directory is created, changed or removed. A file written through any kind of writer reads back byte for byte through the matching reader at every offset, its size is the number of bytes written, temporary names are never handed out twice, and a reader or writer of an unknown kind is refused.",
 ["inputs", "crash points"],
 "all names to a bounded length over characters with a meaning to the shell, all crash points of a batch commit, all sequences of writes of boundary sizes read at all offsets",
 "Every test uses one plain relative directory name and files of one size.",
 ["src/working.h", "src/working.cc", "src/bigwig.cc", "src/simple_warren.cc"],
 [("directory made and cleaned through the shell", "src/working.h Working::Working"),
  ("directory listed through the shell", "src/working.cc Working::ls"),
  ("commit scripts run through the shell", "src/bigwig.cc recover, commit_all"),
  ("plain, in-memory and compressed readers and writers", "src/working.cc Reader::make, Writer::make")],
 ["Working::mkdir, make_name, ls, reader, writer; Warren::make; Bigwig::make"])

prop("N01", "The query server answers every request, in order, and outlives every client",
 "Whatever lines a client sends, the query server gives each exactly one response, in order, and goes on serving that client and the next: malformed requests are refused with a reason, clients that hang up end only their own connection, and text that is not UTF-8 is still answered. A query gives the results of all collections merged by score; its successors are handed out one by one, each once, best first, with consecutive ranks, in any later connection and however requests are interleaved, until it is done. Snippets are text of the content around the marked passage, at most 200 tokens; a document is given only if exactly one matches, with its whole text or its fields in the order asked for.",
 ["inputs", "histories", "schedules"],
 "all request sequences to a bounded length across connections, all short byte lines and wrongly typed requests, all boundary shapes of snippets, all field lists, all schedules of a query's threads to a preemption bound",
 "No test runs the server at all.",
 ["apps/ssr-server.cc"],
 [("one response per request, refusals", "apps/ssr-server.cc Server::handle, send_record"),
  ("sessions handed out result by result", "apps/ssr-server.cc Server::query, Server::next"),
  ("documents located and assembled", "apps/ssr-server.cc Server::document, locate_document, document_text"),
  ("snippets", "apps/ssr-server.cc snippet, highlighted")],
 ["JSON lines sent to and received from ssr-server"])

prop("I01", "Bulk ingestion loads every record exactly once and marks the source",
 "Appending a TSV or JSONL source to a meadow, with any number of worker threads, makes every record of the source visible exactly once with its field, record and source annotations covering exactly its text, and marks the source as present; a failed append reports failure and leaves nothing visible, a source is reported as already present exactly when its append completed, and process death during an append never leaves a source marked present with records missing.",
 ["inputs", "configurations", "crash_points", "schedules"],
 "every small source file (lines over a tiny alphabet of records, empty and malformed lines), thread counts 1..3, and process death before every file-system operation",
 "Tests ingest two fixed files with free-running threads.",
 ["meadowlark/meadowlark.cc", "src/scribe.cc", "src/json.cc", "src/bigwig.cc"],
 [("marker transaction committed with the workers' transactions", "meadowlark/meadowlark.cc append_jsonl/append_tsv"), ("presence test", "meadowlark/meadowlark.cc already_appended")],
 ["append_tsv/append_jsonl/already_appended, content dump"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
