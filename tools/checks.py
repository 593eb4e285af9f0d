"""The checks: which harness decides which property, at which bounds."""


def st(s, *names):
    return sum(s.get(n, 0) for n in names)


def expl(rule, ev, nontrivial):
    """coverage block of kind 'exploration'/'fault_enumeration'"""
    def f(s):
        return {"evaluations": st(s, *ev), "distinct_nontrivial": st(s, *nontrivial), "rule": rule}
    return f


def mc(states, transitions, traces=None):
    def f(s):
        t = st(s, *transitions)
        return {"states": st(s, *states), "transitions": t,
                "traces_validated_against_impl": st(s, *(traces or states))}
    return f


CHECKS = {}

CHECKS["Q01"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of cursor call sequences on the real cursors against the defining semantics",
    "level_note": "Every non-nesting list over a small address range, in every storage form, with every sequence of 2-3 "
                  "calls (all directions, all keys incl. infinities); long lists for galloping with all call pairs. "
                  "Lists longer than the bound are covered only by the gallop shapes.",
    "steps": [{"name": "q01", "sources": ["q01.cc"], "variant": "plain",
               "quick": [["--n2=6", "--n3=4", "--gallop=32"]],
               "thorough": [["--n2=8", "--n3=5", "--gallop=70"]]}],
    "coverage": mc(["lists"], ["cursor_calls"], ["call_sequences"]),
    "assumptions": ["addresses outside the enumerated range behave as translations of it"],
}

CHECKS["Q02"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of operand lists, operator nestings and call sequences on the real operators against brute-force algebra",
    "level_note": "All operand lists over a bounded address range, all operators, all nestings of depth two, merges of three "
                  "sources, fixed-width and link operands, from every key in every direction incl. repeated calls; nothing is "
                  "claimed for deeper nestings or longer lists than enumerated.",
    "steps": [{"name": "q02", "sources": ["q02.cc"], "variant": "plain",
               "quick": [["--n1=5", "--n1s=4", "--n1t=2", "--n2=3", "--nm=3", "--nf=4"]],
               "thorough": [["--n1=7", "--n1s=5", "--n1t=3", "--n2=4", "--nm=4", "--nf=5"]]}],
    "coverage": mc(["expressions"], ["cursor_calls"], ["expressions"]),
    "assumptions": ["operands are non-nesting lists, as every store produces"],
}

MC_SRC = ["t01.cc", "mcrt.cc", "fsx.cc"]


def scn(name, bound, races=0, budget=150, policy=0):
    return ["--scn=%s" % name, "--bound=%d" % bound, "--races=%d" % races, "--budget=%d" % budget, "--policy=%d" % policy]


ALL_SCN = ("commit", "erase", "eraseold", "two", "abort", "clone", "readers", "disk", "hazel", "hreaders",
           "batch", "diskbatch", "batches", "toggle", "settings")


CHECKS["T01"] = {
    "level": "model_checking",
    "technique": "exhaustive exploration of thread interleavings of the real store under a controlled scheduler (bounded deviations)",
    "level_note": "Every schedule with at most the stated number of deviations from the default one, in each scenario (readers, "
                  "writers, erasers, aborts, batches, changed settings, merge workers, packed-shard conversion, in memory and on disk), from two "
                  "default schedules (the current thread goes on; the newest one does); sequentially "
                  "consistent memory, small transactions, at most four threads plus two merge workers.",
    "steps": [{"name": "t01", "sources": MC_SRC, "variant": "mc",
               "quick": [scn("commit", 2), scn("erase", 2), scn("eraseold", 2), scn("two", 3), scn("abort", 3),
                         scn("clone", 1), scn("readers", 2), scn("disk", 2), scn("hazel", 1), scn("hreaders", 1),
                         scn("batch", 2), scn("diskbatch", 2), scn("batches", 2), scn("toggle", 2), scn("settings", 2)]
                        + [scn(n, 1 if n == "hazel" else 2, 0, 150, 3) for n in ALL_SCN],
               "thorough": [scn(n, b, 0, 1500) for n, b in (("commit", 3), ("erase", 3), ("eraseold", 3), ("two", 4), ("abort", 4),
                            ("clone", 2), ("readers", 3), ("disk", 3), ("hazel", 2), ("hreaders", 2),
                            ("batch", 3), ("diskbatch", 3), ("batches", 3), ("toggle", 3), ("settings", 3))]
                           + [scn(n, 2 if n == "hazel" else 3, 0, 900, 3) for n in ALL_SCN]}],
    "coverage": mc(["schedules"], ["choice_points"], ["schedules"]),
    "assumptions": ["sequentially consistent memory between synchronisation operations (races are T02's subject)"],
}
CHECKS["T02"] = {
    "level": "model_checking",
    "technique": "exhaustive exploration of thread interleavings under a controlled scheduler with a vector-clock race monitor, deadlock and lost-wakeup detection",
    "level_note": "As T01, with every plain and atomic access reported to a happens-before race monitor in every explored "
                  "schedule; a schedule in which no thread can run, or a thread waits for a wakeup nobody will send, is a violation.",
    "steps": [{"name": "t01", "sources": MC_SRC, "variant": "mc",
               "quick": [scn("commit", 1, 1), scn("erase", 1, 1), scn("eraseold", 1, 1), scn("two", 2, 1), scn("abort", 2, 1),
                         scn("clone", 1, 1), scn("readers", 2, 1), scn("disk", 1, 1), scn("hazel", 1, 1), scn("hreaders", 1, 1),
                         scn("batch", 1, 1), scn("diskbatch", 1, 1), scn("batches", 1, 1), scn("toggle", 1, 1), scn("settings", 1, 1)]
                        + [scn(n, 1, 1, 150, 3) for n in ALL_SCN],
               "thorough": [scn(n, b, 1, 1500) for n, b in (("commit", 2), ("erase", 2), ("eraseold", 2), ("two", 3), ("abort", 3),
                            ("clone", 2), ("readers", 3), ("disk", 2), ("hazel", 2), ("hreaders", 3),
                            ("batch", 2), ("diskbatch", 2), ("batches", 2), ("toggle", 2), ("settings", 2))]
                           + [scn(n, 2, 1, 900, 3) for n in ALL_SCN]}],
    "coverage": mc(["schedules"], ["choice_points"], ["schedules"]),
    "assumptions": ["the race monitor sees every access compiled from /repo and from libstdc++ templates; memory accesses inside libc are modelled by interceptors"],
}
CR_SRC = ["crash.cc", "mcrt.cc", "fsx.cc"]
CR_ASSUME = ["a process death keeps every file-system operation before it and none after (the code never calls fsync, so power "
             "failure is outside what it can promise); the operation under way may be cut short",
             "the code under test changes files only through the interposed libc entry points"]


def crash_cov(s):
    return {"evaluations": st(s, "crash_points", "fault_points", "recoveries", "interrupted_recoveries"),
            "distinct_nontrivial": st(s, "distinct_crash_states"),
            "fault_sites": st(s, "crash_points", "fault_points"),
            "schedules": st(s, "schedules"),
            "rule": "every file-system operation of every history x torn-write variant x schedule policy, and every operation of every recovery"}


CHECKS["D01"] = {
    "level": "fault_enumeration",
    "technique": "exhaustive crash-point and torn-write enumeration on the real store, over all scheduled interleavings of its concurrent histories, with every interrupted recovery",
    "level_note": "Process death before, or in the middle of, every file-system operation of each history (create, write, commit, "
                  "parameters, background merges, packing, reopening) under three scheduling policies, and in every explored "
                  "interleaving of the concurrent histories; every recovery is interrupted at every operation too.",
    "steps": [{"name": "crash", "sources": CR_SRC, "variant": "plain",
               "quick": [["--prop=D01", "--mode=crash", "--policies=012", "--torn=3"],
                         ["--prop=D01", "--mode=sched", "--bound=3", "--budget=120"]],
               "thorough": [["--prop=D01", "--mode=crash", "--policies=012", "--torn=3"],
                            ["--prop=D01", "--mode=sched", "--bound=5", "--budget=2400"]]}],
    "coverage": crash_cov, "assumptions": CR_ASSUME,
}
CHECKS["D02"] = {
    "level": "fault_enumeration",
    "technique": "exhaustive crash-point and torn-write enumeration of batch commits on the real store, over all scheduled interleavings of the concurrent histories, with every interrupted recovery",
    "level_note": "As D01, for histories that commit several writers as one batch, alone, beside other committers, beside another "
                  "batch and beside background merges.",
    "steps": [{"name": "crash", "sources": CR_SRC, "variant": "plain",
               "quick": [["--prop=D02", "--mode=crash", "--policies=012", "--torn=3"],
                         ["--prop=D02", "--mode=sched", "--bound=3", "--budget=120"]],
               "thorough": [["--prop=D02", "--mode=crash", "--policies=012", "--torn=3"],
                            ["--prop=D02", "--mode=sched", "--bound=5", "--budget=2400"]]}],
    "coverage": crash_cov, "assumptions": CR_ASSUME,
}
CHECKS["D03"] = {
    "level": "fault_enumeration",
    "technique": "exhaustive fault injection: every file-system operation of every history fails, is cut short, or starts a full-disk episode, on the real store",
    "level_note": "Each modification (and, in a second pass, each open and read) of each history fails once, is cut short, or begins an "
                  "episode of failures; what was reported is compared with what the running process and the reopened store show. "
                  "A process that stops itself on an error is judged as a crash.",
    "steps": [{"name": "crash", "sources": CR_SRC, "variant": "plain",
               "quick": [["--prop=D03", "--mode=fault", "--policies=012", "--torn=3"],
                         ["--prop=D03", "--mode=fault", "--policies=01", "--torn=3", "--reads=1"]],
               "thorough": [["--prop=D03", "--mode=fault", "--policies=012", "--torn=3"],
                            ["--prop=D03", "--mode=fault", "--policies=012", "--torn=3", "--reads=1"]]}],
    "coverage": crash_cov, "assumptions": CR_ASSUME,
}
SPECIAL = ["--menu=-", "--contents=L,aL,La,Le,LE,MM,LM,ML,Mx,LEn", "--chunks=1,100,1000,65536"]
CHECKS["M01"] = {
    "level": "model_checking",
    "technique": "exhaustive exploration of the store's layout state space: every sequence of merges, conversions and reopenings of every enumerated content, each state's full answers compared with the contents' definition",
    "level_note": "All contents of 2-3 transactions from a menu (plain, nested, crossing, valued, punctuated, erasing, empty, long text), all "
                  "layouts reachable by merging and packing any run of shards, several compressor sets and text chunk sizes; every "
                  "cursor call from every position for every feature, and every text window, in every layout.",
    "steps": [{"name": "m01", "sources": ["m01.cc"], "variant": "plain",
               "quick": [["--prop=M01", "--n=2", "--menu=abpexoEndzA", "--opts=01"],
                         ["--prop=M01", "--n=3", "--menu=abxeE", "--opts=0"],
                         ["--prop=M01", "--opts=02"] + SPECIAL,
                         ["--prop=M01", "--menu=-", "--contents=ijk", "--opts=0"]],
               "thorough": [["--prop=M01", "--n=2", "--menu=abpexoEndzA", "--opts=012"],
                            ["--prop=M01", "--n=3", "--menu=abpexoEnA", "--opts=01"],
                            ["--prop=M01", "--opts=012"] + SPECIAL,
                            ["--prop=M01", "--menu=-", "--contents=ijk", "--opts=012"]]}],
    "coverage": mc(["layouts"], ["layout_steps"], ["opens"]),
    "assumptions": ["texts and annotation sets as enumerated; larger contents only differ in size (block boundaries are covered by the long-text contents)"],
}
CHECKS["T04"] = {
    "level": "model_checking",
    "technique": "exhaustive exploration of erase histories and layouts: every content of erasing and annotating transactions, every layout, with views opened before each step asked again after it",
    "level_note": "All contents of three transactions from a menu of erasing ones (tail, whole, nested, overlapping, text-less, before and "
                  "after the annotations they hide); every layout reachable by merging and packing; older views must not change.",
    "steps": [{"name": "m01", "sources": ["m01.cc"], "variant": "plain",
               "quick": [["--prop=T04", "--n=3", "--menu=aexEnA", "--opts=0"],
                         ["--prop=T04", "--n=2", "--menu=abpexoEndzA", "--opts=1"]],
               "thorough": [["--prop=T04", "--n=3", "--menu=abexoEnAz", "--opts=01"]]}],
    "coverage": mc(["layouts"], ["layout_steps", "older_views_asked"], ["opens"]),
    "assumptions": ["one erasing process at a time (schedules of concurrent erasers are T01's subject)"],
}
CHECKS["D04"] = {
    "level": "fault_enumeration",
    "technique": "exhaustive enumeration of store directories: every combination of shard files, supersets, gaps and interrupted leftovers, opened by the real code and compared with the set of contents recovery may show",
    "level_note": "All subsets of the shard files (single, merged, packed, overlapping) and leftovers (temporary, unfinished, "
                  "uncommitted and sidecar files, batch scripts) of a three-transaction content.",
    "steps": [{"name": "m01", "sources": ["m01.cc"], "variant": "plain",
               "quick": [["--prop=D04"]],
               "thorough": [["--prop=D04"], ["--prop=D04", "--content=xae"], ["--prop=D04", "--content=bEp"]]}],
    "coverage": expl("every subset of the shard files and leftovers of a content", ["directories", "directories_refused"], ["directories"]),
    "assumptions": CR_ASSUME,
}
CHECKS["M02"] = {
    "level": "fault_enumeration",
    "technique": "exhaustive breadth-first search over the directory states that interruptions of a shard merge can leave (every operation, every byte of the checkpoint files, every failing operation), with the merge run again in each",
    "level_note": "Merges of three-shard groups (also chained, partial, beside leftovers of other merges): every file-system operation "
                  "and every byte of the checkpoint files as a point of death, every operation failing, repeated interruptions to depth "
                  "two, all pairs of checkpoint cuts; and whole stores killed at every operation of every background merge.",
    "steps": [{"name": "m02", "sources": ["m02.cc", "mcrt.cc", "fsx.cc"], "variant": "plain",
               "quick": [["--contents=abe,oEa", "--opts=0", "--depth=1"],
                         ["--contents=abe,bxe,apo,MMa,aLE", "--opts=01", "--depth=2", "--bytes=0"],
                         ["--contents=abe", "--opts=0", "--product=1"]],
               "thorough": [["--contents=abe,oEa,bxe,apo,MMa,aLE", "--opts=01", "--depth=1", "--fdepth=2"],
                            ["--contents=abe,bxe,apo,oEa,MMa,aLE,xae,LMe", "--opts=012", "--depth=3", "--bytes=0", "--fdepth=2"],
                            ["--contents=abe,oEa,bxe,MMa", "--opts=01", "--product=1"]]},
              {"name": "crash", "sources": CR_SRC, "variant": "plain",
               "quick": [["--prop=M02", "--mode=crash", "--policies=012"], ["--prop=M02", "--mode=sched", "--bound=3", "--budget=120"]],
               "thorough": [["--prop=M02", "--mode=crash", "--policies=012"], ["--prop=M02", "--mode=sched", "--bound=5", "--budget=1200"]]}],
    "coverage": lambda s: {"evaluations": st(s, "resumed_merges", "failed_operations", "crash_points", "recoveries"),
                           "distinct_nontrivial": st(s, "directory_states", "distinct_crash_states"),
                           "fault_sites": st(s, "interruptions", "failed_operations", "crash_points"),
                           "rule": "every operation and byte of every merge as a point of interruption, every state found once"},
    "assumptions": CR_ASSUME,
}
CHECKS["Q03"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of query strings, token sequences and infix scripts against a reference reader and algebra",
    "level_note": "Every string over an eleven-character alphabet, every sequence over fifteen query tokens, every sequence over 25 "
                  "infix tokens and every script of prepared statements, up to the stated lengths, plus every operator spelling in "
                  "22 layouts; accepted text is printed, reparsed, converted to binary operators, evaluated over sample contents in "
                  "every direction and compared with an independent reader.",
    "steps": [{"name": "q03", "sources": ["q03.cc"], "variant": "plain",
               "quick": [["--chars=6", "--tokens=5", "--infix=5", "--script=3"]],
               "thorough": [["--chars=7", "--tokens=6", "--infix=6", "--script=4"]]}],
    "coverage": mc(["strings"], ["cursor_calls"], ["strings"]),
    "assumptions": ["sample contents are six fixed sets of lists; the operators' algebra over all contents is Q02's"],
}

CHECKS["Q04"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of contents under every query shape the optimiser rewrites or declines, optimised and not, against brute-force algebra",
    "level_note": "All contents of four operands over a bounded address range, all prepared query shapes, with truthful and misleading "
                  "occurrence counts, called from every key in every direction.",
    "steps": [{"name": "q04", "sources": ["q03.cc"], "variant": "plain",
               "quick": [["--prop=Q04", "--n=3", "--nc=4"], ["--prop=Q04", "--n=4", "--nc=3", "--singles=1"]],
               "thorough": [["--prop=Q04", "--n=4", "--nc=3"], ["--prop=Q04", "--n=5", "--nc=4", "--singles=1"]]}],
    "coverage": mc(["contents"], ["cursor_calls"], ["query_evaluations"]),
    "assumptions": ["operands are non-nesting lists, as every store produces"],
}

CHECKS["C02"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of byte strings and of all code points through the real tokenizers against an independent reading",
    "level_note": "All strings up to the stated lengths over 14 to 17 symbols chosen per tokenizer (classes of bytes, malformed and "
                  "truncated UTF-8, tags and entities, NUL) and every code point in seven contexts: tokenize, skip to every token, "
                  "split, each token alone, each cut; text placed against unreadable pages.",
    "steps": [{"name": "c02", "sources": ["c02.cc"], "variant": "plain",
               "quick": [["--ascii=6", "--xml=6", "--bytes=6", "--points=5"]],
               "thorough": [["--ascii=7", "--xml=7", "--bytes=7", "--points=6"]]}],
    "coverage": mc(["strings"], ["calls"], ["strings"]),
    "assumptions": ["the class and folding of a code point are Unicode 15.0's; for malformed UTF-8 only consistency is claimed, not which bytes form tokens"],
}

CHECKS["C01"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of byte strings, address lists and posting lists through the real compressors, files and merges",
    "level_note": "All byte strings over six bytes up to the stated length, every length about each power of two in six shapes, all "
                  "lists over boundary values (31 gaps) up to the stated length, all posting lists over five addresses with four "
                  "values through 20 compressor pairs, and all triples of posting lists over the stated address range combined in "
                  "every grouping, with and without erasures. Buffers are exactly the declared size, beside unreadable pages.",
    "steps": [{"name": "c01", "sources": ["c01.cc"], "variant": "plain",
               "quick": [["--bytes=6", "--addrs=4", "--post=3", "--merge=4"]],
               "thorough": [["--bytes=7", "--addrs=5", "--post=4", "--merge=4", "--big=1000000", "--huge=1"], ["--bytes=2", "--addrs=2", "--post=1", "--merge=5", "--big=8"]]}],
    "coverage": mc(["inputs", "postings", "merges"], ["calls"], ["inputs", "postings"]),
    "assumptions": ["the post compressor is given ascending lists only, as every caller does"],
}

CHECKS["S02"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of operation sequences on the real text file class against a reference model",
    "level_note": "All sequences of 16 operations (appends of several lengths, reads, flushes, transactions committed, aborted, "
                  "abandoned between ready and commit, recovery either way, clones and readers opened before, during and after) "
                  "to the stated depth, for three chunk sizes, three compressors and several starting contents; every open "
                  "reader is read in full (all ranges) after every operation.",
    "steps": [{"name": "s02", "sources": ["s02.cc"], "variant": "plain",
               "quick": [["--depth=4", "--comps=bad,null,zlib", "--chunks=1,2,3"], ["--depth=5", "--comps=null", "--chunks=2"]],
               "thorough": [["--depth=5", "--comps=bad,null,zlib", "--chunks=1,2,3"], ["--depth=6", "--comps=null", "--chunks=2"]]}],
    "coverage": mc(["sequences"], ["operations", "reads"], ["sequences"]),
    "assumptions": ["one transaction at a time per file (its lock file enforces that)"],
}

CHECKS["S01"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of transaction sequences by two writers on the real static store, and of crash points, torn writes and write errors, with every permitted and every interrupted recovery",
    "level_note": "All sequences of begin, ready, commit, abort, whole transactions, writer restarts and abandoned writers recovered either way, by two writers, to "
                  "the stated depth, every reader opened along the way and clones of them read in full after each; process death before or in the "
                  "middle of every file-system operation of eight histories, recovered with every permitted decision, each recovery interrupted "
                  "everywhere; an error at every file-system modification up to the commit call.",
    "steps": [{"name": "s01", "sources": ["s01.cc", "mcrt.cc", "fsx.cc"], "variant": "plain",
               "quick": [["--mode=sequences", "--depth=4", "--starts=-", "--menus=akzp", "--split=bK"],
                         ["--mode=sequences", "--depth=4", "--starts=b", "--menus=nK", "--split=e"],
                         ["--mode=crash"], ["--mode=fault"]],
               "thorough": [["--mode=sequences", "--depth=5", "--starts=-,a", "--menus=akzp", "--split=bK"],
                            ["--mode=sequences", "--depth=5", "--starts=b,kK", "--menus=ntK", "--split=ne"],
                            ["--mode=sequences", "--depth=6", "--starts=a", "--menus=an", "--split=b"],
                            ["--mode=crash"], ["--mode=fault"]]}],
    "coverage": mc(["sequences", "distinct_crash_states"], ["operations", "recoveries"], ["sequences"]),
    "assumptions": ["process death, not loss of unsynchronised writes (the code never calls fsync)",
                    "readers open before commit is called or after it has returned: opening while it runs is not isolated",
                    "reads of the store's files do not fail"],
}

CHECKS["S03"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of small loads (texts, annotations, block boundaries) into thirteen kinds of store, every read of every store compared",
    "level_note": "All sequences of pieces and annotations from the menus to the stated depth, loaded into static, built, dynamic (one transaction, one per piece, merged, "
                  "reopened), in-memory and single-file stores; every interval's text, every annotation list and every cursor call of each compared with the others "
                  "and with the expected contents, in every order of two reads.",
    "steps": [{"name": "s03", "sources": ["s03.cc"], "variant": "plain",
               "quick": [["--set=texts", "--depth=2"], ["--set=notes", "--depth=2"], ["--set=blocks", "--depth=1"], ["--set=big"]],
               "thorough": [["--set=texts", "--depth=3"], ["--set=notes", "--depth=3"], ["--set=blocks", "--depth=2"], ["--set=big"]]}],
    "coverage": mc(["loads", "stores"], ["reads", "read_pairs", "annotation_lists", "cursor_calls"], ["stores"]),
    "assumptions": ["text that contains no token at all may or may not be shown between transactions",
                    "text before a transaction's first token is read together with that token in dynamic stores",
                    "a feature is not used for tokens and annotations at once in a store made by SimpleBuilder (documented there)"],
}

CHECKS["C03"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of small JSON documents and of byte strings, ingested into real stores, against an independent JSON reader",
    "level_note": "All documents of the grammar to the stated size over hostile keys, strings and numbers, in dynamic, merged, static and cloned stores: the stored text read "
                  "back as the same document, every path, array index and key annotation covering exactly its value; all short strings over a 20-byte alphabet "
                  "accepted exactly when they are JSON.",
    "steps": [{"name": "c03", "sources": ["c03.cc"], "variant": "plain",
               "quick": [["--set=documents", "--size=2"], ["--set=strings", "--size=5"]],
               "thorough": [["--set=documents", "--size=3"], ["--set=strings", "--size=6"]]}],
    "coverage": mc(["documents", "strings"], ["values", "refused"], ["stores"]),
    "assumptions": ["keys that are empty or contain ':' or '[' are ambiguous in path features by construction and are not enumerated for paths"],
}

CHECKS["T03"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of the schedules of several writers' transactions (begin, fill, ready, commit, abort) with merging and reopening in between, on the real store",
    "level_note": "Every interleaving of two or three writers' transactions to the stated number, over ten kinds of contents (several pieces, pieces without tokens, chunk-sized text, "
                  "annotations across pieces, on committed text and from committed into own text, erasures), every abort point, with merge and reopen everywhere; after each event "
                  "a fresh view is compared with where every transaction was first seen.",
    "steps": [{"name": "t03", "sources": ["t03.cc", "mcrt.cc"], "variant": "plain",
               "quick": [["--store=disk", "--txns=2", "--env=1", "--contents=abgi"], ["--store=memory", "--txns=2"], ["--store=memory", "--tokenizer=utf8", "--txns=2"],
                         ["--store=memory", "--txns=3", "--env=1", "--contents=hi"], ["--store=disk", "--txns=3", "--env=1", "--contents=h"]],
               "thorough": [["--store=disk", "--txns=2", "--env=2"], ["--store=memory", "--txns=3", "--env=1", "--contents=abchi"],
                            ["--store=memory", "--txns=3", "--writers=3", "--contents=agh"], ["--store=disk", "--txns=3", "--env=2", "--contents=ci"],
                            ["--store=memory", "--txns=4", "--env=0", "--aborts=0", "--contents=ai"]]}],
    "coverage": mc(["schedules"], ["events", "views"], ["schedules"]),
    "assumptions": ["merging runs to the end when it is switched on; its interleavings with readers and writers are T01's and T02's"],
}

CHECKS["C04"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of small setting strings, setting maps, option lists and sequences of parameter operations over four kinds of store, and of the schedules of two threads setting parameters, on the real code",
    "level_note": "All strings to the stated length over the characters cook and freeze give a meaning to, all small nested maps over hostile keys and values, every tokenizer, featurizer, "
                  "compressor and stemmer named in a recipe with good and bad recipes, every sequence of set/get/clone/reopen to the stated length, and every schedule of two threads setting parameters.",
    "steps": [{"name": "c04", "sources": ["c04.cc", "mcrt.cc"], "variant": "plain",
               "quick": [["--set=strings", "--size=5"], ["--set=maps", "--size=3"], ["--set=options", "--size=2"], ["--set=makers"],
                         ["--set=settings"]] + [["--set=parameters", "--kind=" + k, "--size=2"] for k in ("disk", "simple", "memory", "parts")]
                        + [["--set=threads", "--kind=" + k, "--size=2"] for k in ("simple", "disk", "memory")],
               "thorough": [["--set=strings", "--size=6"], ["--set=maps", "--size=4"], ["--set=options", "--size=2"], ["--set=makers"], ["--set=settings"]]
                           + [["--set=parameters", "--kind=" + k, "--size=2"] for k in ("disk", "simple", "memory", "parts")]
                           + [["--set=parameters", "--kind=disk", "--size=3", "--menu=small"]]
                           + [["--set=threads", "--kind=" + k, "--size=2"] for k in ("simple", "disk", "memory")]}],
    "coverage": mc(["strings", "maps", "options", "stores", "makers", "schedules"], ["operations", "parameters_set", "parameters_read", "reopens", "choice_points"], ["stores"]),
    "assumptions": ["the 'post' compressor for feature values is excluded (it compresses increasing lists only)",
                    "parameter keys are identifiers, or are refused"],
}

CHECKS["M03"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of truncations and of altered structural fields of real single-file shards, each opened and read completely",
    "level_note": "Every truncation of four sample shards and every listed wrong value (neighbours, powers of two, negative and huge, other fields' values; in the thorough tier every value of every byte) "
                  "of every field of their headers, dictionaries, directories and posting records; each must be refused, read exactly as the intact file, or stop the reader where the damage is inside a list.",
    "steps": [{"name": "m03", "sources": ["m03.cc"], "variant": "plain", "quick": [["--set=all"]],
               "thorough": [["--set=all", "--samples=few", "--values=bytes"], ["--set=all", "--samples=many"]]}],
    "coverage": mc(["damaged"], ["refused", "identical", "stopped"], ["damaged"]),
    "assumptions": ["values of data (the feature and position of a single posting, the settings text) are not judged beyond not crashing or hanging",
                    "pickled in-memory shards are not covered: a kill never truncates them (they are renamed when complete)"],
}

CHECKS["I01"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of small sources, of the death and failure of every file operation of a load, and of the schedules of loads against loads, merges and readers, on the real code",
    "level_note": "All TSV and JSONL sources of the menu to the stated number of lines, every number of workers, unreadable sources, every crash point and failing operation of a load, and every "
                  "schedule (to the stated number of preemptions) of loading threads, two loads, a load and a merge, and a load and a reader.",
    "steps": [{"name": "i01", "sources": ["i01.cc", "fsx.cc"], "variant": "plain",
               "quick": [["--set=tsv", "--size=3"], ["--set=names"], ["--set=jsonl", "--size=3"], ["--set=scribes"], ["--set=unreadable"], ["--set=death"], ["--set=fault"], ["--set=workers", "--size=3"]],
               "thorough": [["--set=tsv", "--size=4"], ["--set=names"], ["--set=jsonl", "--size=4"], ["--set=scribes"], ["--set=unreadable"], ["--set=death"], ["--set=fault"], ["--set=workers", "--size=3"]]},
              {"name": "i01_mc", "sources": ["i01_mc.cc", "mcrt.cc"], "variant": "mc",
               "quick": [["--scn=" + s, "--bound=1", "--policy=3", "--budget=60"] for s in ("load", "bad", "diskload", "two", "tsv", "merge")]
                        + [["--scn=load", "--bound=2", "--policy=3", "--budget=60"], ["--scn=merge", "--bound=1", "--policy=1", "--budget=60"]]
                        + [["--scn=" + s, "--bound=2", "--policy=0", "--budget=60"] for s in ("load", "bad", "diskload")],
               "thorough": [["--scn=" + s, "--bound=2", "--policy=" + p, "--budget=600"] for s in ("load", "bad", "two", "tsv", "merge", "diskload") for p in "103"]}],
    "coverage": mc(["loads", "schedules"], ["records", "choice_points", "crash_points", "faults"], ["schedules", "crash_points", "faults"]),
    "assumptions": ["sources are told apart by their names up to surrounding white space",
                    "a store is opened again in the same process only after its detached maintenance threads have ended"],
}

CHECKS["Q05"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of small collections, queries, depths, ranges and shardings against reference scores, and of the schedules of the threads that rank and make statistics, on the real code",
    "level_note": "All collections of the menu to the stated number of documents in one shard, a shard each, with holes between them, static and on disk; every kind of statistics; every depth and range; "
                  "and every schedule (to the stated number of preemptions) of parallel ranking, runs of topics, foraging and concurrent readers, with a race detector.",
    "steps": [{"name": "q05", "sources": ["q05.cc"], "variant": "plain",
               "quick": [["--set=ssr", "--size=3", "--length=2"], ["--set=wide", "--size=2"], ["--set=terms", "--size=2"], ["--set=spread", "--size=4"], ["--set=foraged", "--size=2"], ["--set=fusion"]],
               "thorough": [["--set=ssr", "--size=3", "--length=3"], ["--set=wide", "--size=3"], ["--set=terms", "--size=4"], ["--set=spread", "--size=5"], ["--set=foraged", "--size=4"], ["--set=fusion"]]},
              {"name": "q05_mc", "sources": ["q05_mc.cc", "mcrt.cc"], "variant": "mc",
               "quick": [["--scn=" + s, "--bound=1", "--races=1", "--budget=60", "--policy=" + p] for s, p in (("forage", "0"), ("trec", "0"), ("shared", "0"), ("simple", "0"), ("simple", "1"), ("dynamic", "1"))]
                        + [["--scn=wide", "--bound=4", "--races=1", "--budget=60"]],
               "thorough": [["--scn=" + s, "--bound=2", "--races=1", "--budget=900", "--policy=" + p] for s in ("forage", "trec", "shared", "simple", "dynamic") for p in "01"]
                           + [["--scn=wide", "--bound=8", "--races=1", "--budget=600"]]}],
    "coverage": mc(["collections", "schedules"], ["rankings", "results", "choice_points"], ["schedules", "ranges", "parallel_runs"]),
    "assumptions": ["containers do not overlap", "only results with a positive score are ranked; query weights are not negative", "ties are broken in any way"],
}

CHECKS["E01"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of rankings, judgments, pairs of rankings, sequences of topics and judgment files through the real evaluation code, against the definitions",
    "level_note": "All rankings over four grades with seven sets of unretrieved documents and all pairs of relevant positions in lists up to the stated lengths (all cut-offs crossed), all pairs of "
                  "duplicate-free rankings (the similarity maximised over every binary judgment), all sequences of measures, and all judgment files of the menu's lines over stores whose "
                  "identifiers contain each other.",
    "steps": [{"name": "e01", "sources": ["e01.cc"], "variant": "plain",
               "quick": [["--set=scores", "--size=7"], ["--set=lengths", "--size=48"], ["--set=similarity", "--size=5"], ["--set=fusion", "--size=4"], ["--set=means", "--size=5"],
                         ["--set=docnos", "--size=6"], ["--set=judgments", "--size=3"]],
               "thorough": [["--set=scores", "--size=9"], ["--set=lengths", "--size=90"], ["--set=similarity", "--size=6"], ["--set=fusion", "--size=5"], ["--set=means", "--size=7"],
                            ["--set=docnos", "--size=7"], ["--set=judgments", "--size=4"]]}],
    "coverage": mc(["rankings", "pairs", "means", "texts", "files"], ["measures", "judged", "refused"], ["rankings", "pairs", "means", "texts", "files"]),
    "assumptions": ["a ranking holds each document once", "values are compared to a relative 1e-9"],
}

CHECKS["F01"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of operation sequences, crash points, failing operations and thread schedules of the real fast-identifier code, against a twin store without them",
    "level_note": "Every sequence of making identifiers, appending, reopening and cloning to the stated depth over every small collection of identifiers, every clone reading every range; every "
                  "operation of making the identifiers failing or ending the process; every schedule of clones reading, cloning and making to the stated preemption bound, with a race detector.",
    "steps": [{"name": "f01", "sources": ["f01.cc", "fsx.cc"], "variant": "plain",
               "quick": [["--set=sequences", "--size=2", "--depth=2"], ["--set=sequences", "--size=1", "--depth=3"], ["--set=death"], ["--set=fault"]],
               "thorough": [["--set=sequences", "--size=3", "--depth=2"], ["--set=sequences", "--size=2", "--depth=3"], ["--set=death"], ["--set=fault"]]},
              {"name": "f01_mc", "sources": ["f01_mc.cc", "mcrt.cc"], "variant": "mc",
               "quick": [["--scn=" + s, "--bound=1", "--races=1", "--policy=" + p, "--budget=60"] for s in ("clones", "cloning", "making") for p in "03"]
                        + [["--scn=clones", "--bound=2", "--budget=60"], ["--scn=cloning", "--bound=2", "--budget=60"]],
               "thorough": [["--scn=" + s, "--bound=2", "--races=1", "--policy=" + p, "--budget=600"] for s in ("clones", "cloning", "making") for p in "03"]}],
    "coverage": mc(["sequences", "schedules"], ["operations", "reads", "choice_points"], ["schedules", "crash_points", "faults", "reads"]),
    "assumptions": ["identifiers are made by one process at a time", "a process is killed, the machine is not"],
}

CHECKS["W01"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of directory names, crash points and file contents through the real working-directory code, with the real shell, against the bytes written",
    "level_note": "Every name to the stated length over characters that mean something to a shell (and a menu of longer ones), relative and absolute, for static and dynamic stores made, extended and "
                  "opened three times, with bystander files; every operation of a batch commit killed in a directory of each name; every sequence of writes of the stated sizes read back at every "
                  "offset through every kind of reader. Runs as an unprivileged user in a scratch directory.",
    "steps": [{"name": "w01", "sources": ["w01.cc", "fsx.cc"], "variant": "plain",
               "quick": [["--set=names", "--size=2"], ["--set=batches", "--size=1"], ["--set=files", "--size=3"]],
               "thorough": [["--set=names", "--size=3"], ["--set=batches", "--size=2"], ["--set=files", "--size=4"]]}],
    "coverage": mc(["names", "files"], ["stores", "appends", "reads", "crash_points"], ["names", "crash_points", "files"]),
    "assumptions": ["a name is a path that the file system accepts, without a trailing slash or NUL"],
}

CHECKS["N01"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of request sequences over one or more connections, of short request lines and of thread schedules through the real query server, against a model of its sessions",
    "level_note": "Every sequence of twenty requests (good, malformed, of the wrong type) to the stated length, each following in the same connection, a new one, or one after a client that hung up, over "
                  "one to three collections; every line of up to the stated number of pieces and every wrong type of every field; every cut of a request; every boundary width, place and length of a "
                  "snippet; every sequence of fields; every schedule of the threads of a query to the stated preemption bound, with a race detector.",
    "steps": [{"name": "n01", "sources": ["n01.cc"], "variant": "plain",
               "quick": [["--set=sequences", "--size=3", "--which=" + w] for w in "012"] + [["--set=lines", "--size=3"], ["--set=snippets", "--size=2"], ["--set=fields", "--size=4"]],
               "thorough": [["--set=sequences", "--size=4", "--which=" + w] for w in "01"] + [["--set=lines", "--size=4"], ["--set=snippets", "--size=2"], ["--set=fields", "--size=5"]]},
              {"name": "n01_mc", "sources": ["n01_mc.cc", "mcrt.cc"], "variant": "mc",
               "quick": [["--scn=" + s, "--bound=4", "--races=1", "--policy=" + p, "--budget=60"] for s in ("two", "bad") for p in "03"],
               "thorough": [["--scn=" + s, "--bound=8", "--races=1", "--policy=" + p, "--budget=600"] for s in ("two", "bad") for p in "03"]}],
    "coverage": mc(["sequences", "lines", "snippets", "schedules"], ["requests", "choice_points"], ["requests", "results", "documents", "refused", "schedules"]),
    "assumptions": ["the ranking of one collection is that of Q05", "one client at a time, as the server accepts them", "results with equal scores come in any order"],
}

NOT_APPLICABLE = {}
