"""What each property's check runs and claims."""

TRACE = "TLA+ denotational semantics (PEG.tla) evaluated by TLC on recorded executions of the code"
NOTE = ("Every recorded execution is decided by TLC evaluating the specification; the executions are a bounded, "
        "seeded sample plus exhaustively enumerated small patterns and texts. Trusts TLC, the Go toolchain and the "
        "harness that builds patterns and reads results through the public API.")

PROPS = {
    "C01": {"technique": TRACE, "note": NOTE},
    "C02": {"technique": TRACE, "note": NOTE},
    "C03": {"technique": TRACE + ", with and without memo tables", "note": NOTE},
    "C04": {"technique": "TLA+ state machine of an editing session (Session.tla over PEG.tla) evaluated by TLC on recorded sessions",
            "note": NOTE},
    "C05": {"technique": "TLA+ state machine of the memo table (MemoTable.tla) evaluated by TLC on recorded operation histories",
            "note": "Every recorded history is decided by TLC evaluating the specification. Histories are a bounded seeded "
                    "sample; a search over millions of histories against a rough copy of the specification chooses some "
                    "of the recorded ones. Trusts TLC, the Go toolchain and the harness."},
    "C23": {"technique": "TLA+ specification of interval maps (IntervalMap.tla) evaluated by TLC on recorded operation histories",
            "note": "Every recorded history is decided by TLC evaluating the specification. Histories are a bounded seeded "
                    "sample; a search over millions of histories against a rough copy of the specification chooses some "
                    "of the recorded ones. Trusts TLC, the Go toolchain and the harness."},
    "C06": {"technique": "TLA+ state machine of an editing session (Session.tla over PEG.tla) evaluated by TLC on recorded "
                         "parses restricted to intervals", "note": NOTE},
    "C20": {"technique": "TLA+ specification of byte sets as mathematical sets (Charset.tla) evaluated by TLC on recorded "
                         "operation histories", "note": NOTE},
    "C21": {"technique": "TLA+ state machine of an editing session (Session.tla) evaluated by TLC on recorded reuse counts",
            "note": NOTE},
    "C07": {"technique": TRACE + ", one text delivered in many ways", "note": NOTE},
    "C08": {"technique": "TLA+ state machine of the input cursor (InputCursor.tla) evaluated by TLC on recorded operation "
                         "histories", "note": NOTE},
    "C09": {"technique": "TLA+ state machine of ropes as flat sequences (Rope.tla) evaluated by TLC on recorded operation "
                         "histories", "note": NOTE},
    "C10": {"technique": "TLA+ state machine of ropes with line/column functions of the flat text (Rope.tla) evaluated by "
                         "TLC on recorded operation histories", "note": NOTE},
    "C11": {"technique": TRACE + " by saved and reloaded programs; LoadTrace.tla for altered data", "note": NOTE},
    "C12": {"technique": "TLA+ specification of the notation (ReSyntax.tla: text to pattern, over PEG.tla) evaluated by TLC on "
                         "recorded readings and parses", "note": NOTE},
    "C13": {"technique": "TLA+ specification of the notation (ReSyntax.tla) evaluated by TLC on recorded readings of good "
                         "and damaged texts", "note": NOTE},
    "C14": {"technique": "TLA+ specification of leftmost-first regular expression matching (Regex.tla) evaluated by TLC on "
                         "recorded conversions and parses", "note": NOTE.replace("patterns and texts", "expressions and texts")
            + " Trusts Go's regexp/syntax to read the expressions; the specification is also compared with Go's regexp on "
              "every text."},
    "C15": {"technique": TRACE + ", including the reported errors", "note": NOTE},
    "C16": {"technique": TRACE + ", including the log of checker calls", "note": NOTE},
    "C17": {"technique": "TLA+ small-step specification of the parsing machine (VM.tla) executed by TLC on the same instruction "
                         "sequences as the code", "note": NOTE},
    "C18": {"technique": TRACE + " of one pattern compiled in many contexts; NamesTrace.tla for undefined names",
            "note": NOTE},
    "C19": {"technique": "TLA+ linearizability of concurrent histories against the memo table's state machine (Linear.tla over "
                         "MemoTable.tla), and the sequential specifications of parses and compilations, evaluated by TLC on "
                         "recorded concurrent executions; built with Go's race detector",
            "note": NOTE.replace("patterns and texts", "kinds of operations") + " Schedules are a sample: goroutines run on one "
                    "or four threads, and locks and readers let others run. That shared state is only used under synchronization "
                    "is checked by the race detector.",
            "builds": ["race"], "limit": 120},
    "C22": {"technique": "TLA+ specification of which evaluations memoization saves (Packrat.tla over PEG.tla) evaluated by TLC on "
                         "recorded evaluations", "note": NOTE},
}
for _i in range(1, 24):
    PROPS.setdefault("C%02d" % _i, {})

INCREMENTAL = {"module": "Incremental", "cfg": "Incremental", "thorough": "IncrementalBig", "workers": 3,
               "what": "design of incremental packrat parsing: with the table, every parse of every history of edits and "
                       "parses has the outcome of PEG; ten programs, texts of up to 3 bytes (6 for two programs that look far ahead)"}
PROPS["C04"]["models"] = [INCREMENTAL]
PROPS["C06"]["models"] = [INCREMENTAL]
PROPS["C04"]["generate"] = [{"module": "IncrementalGen", "env": {"MODE": "whole"}, "to": "hist",
                             "what": "a history for every transition of Incremental, in mode whole"}]
PROPS["C06"]["generate"] = [{"module": "IncrementalGen", "env": {"MODE": "interval"}, "to": "hist",
                             "what": "a history for every transition of Incremental, in mode interval"}]

for _p in ("C09", "C10"):
    PROPS[_p]["models"] = [{"module": "RopeTree", "cfg": "RopeTree", "thorough": "RopeTreeBig", "workers": 3,
                            "what": "design of ropes as trees of pieces: content, bookkeeping and lookups are those of the flat "
                                    "text after every history of operations on one rope or two; texts of up to 3 bytes, up to 4 "
                                    "pieces (thorough: 4 bytes, more tuning parameters)"}]
    PROPS[_p]["generate"] = [{"module": "RopeTreeGen", "to": "ropes", "what": "a history for every transition of RopeTree"}]
PROPS["C10"]["models"] = PROPS["C10"]["models"] + [
    {"module": "RopeTree", "cfg": "RopeTreeCrLf", "workers": 3,
     "what": "the same with the separator CR LF, of ropes in which no separator lies across leaves"},
    {"module": "RopeTree", "cfg": "RopeTreeAcross", "workers": 1, "breaks": "BookkeepingAlways",
     "what": "with the separator CR LF, and separators across leaves, bookkeeping fails (known finding)"}]

PROPS["C23"]["models"] = [
    {"module": "LazyTree", "cfg": c, "thorough": t, "workers": 2, "what": "design of interval maps as search trees with postponed shifts, "
     "however balanced: they stand for the set of intervals that the same operations make of a plain set; " + w}
    for c, t, w in (("LazyTree", "LazyTreeBig", "bounds that only move with shifts; up to 3 intervals, 2 removals"),
                 ("LazyTreeLog", "LazyTreeLog", "bounds renewed with shifts, removals that include what touches"))] + [
    {"module": "LazyTree", "cfg": c, "workers": 1, "breaks": "Bounds",
     "what": "a variation of the design that must not work: " + w} for c, w in (
        ("LazyTreeFloor", "bounds move as if they were ends of intervals"),
        ("LazyTreeRotate", "rotated nodes do not catch up first"))]
PROPS["C23"]["generate"] = [{"module": "LazyTreeGen", "to": "trees",
                             "what": "a history for every transition of LazyTree without rotations"}]

PROPS["C01"]["models"] = [
    {"module": "PEGLaws", "cfg": "PEGLawsSmall", "thorough": "PEGLaws", "workers": 3,
     "what": "laws of parsing expression grammars hold of PEG.tla for all patterns of one construct over nine leaves and texts of "
             "up to 3 bytes (thorough: two constructs over five leaves and texts of up to 2 bytes)"}]
PROPS["C04"]["models"] = PROPS["C04"]["models"] + [
    {"module": "Incremental", "cfg": c, "workers": 2, "breaks": "Invisible",
     "what": "a variation of the design that must not work: " + w} for c, w in (
        ("IncrementalExclusive", "edits keep results that they only touch"),
        ("IncrementalNoExtend", "reusing a result does not count as looking"),
        ("IncrementalNoFail", "failed attempts do not count as looking"),
        ("IncrementalErrors", "results with errors are stored"))]

for _p in ("C07", "C08"):
    PROPS[_p]["models"] = [
        {"module": "InputBuf", "cfg": "InputBuf", "thorough": "InputBufBig", "workers": 2,
         "what": "design of the buffered input: a window on a text or on a stream that delivers as it likes refines the cursor; "
                 "window of 2 bytes, texts of up to 5 bytes (thorough: 3 and 8)"}]
PROPS["C08"]["models"] = PROPS["C08"]["models"] + [
    {"module": "InputBuf", "cfg": c, "workers": 1, "breaks": b,
     "what": "a variation of the design that must not work: " + w} for c, b, w in (
        ("InputBufWindow", "Refines", "a skip out of the window fails"),
        ("InputBufMarks", "Agrees", "skips do not count as looking"),
        ("InputBufStale", "Refines", "an empty window keeps its old size"),
        ("InputBufEarly", "Refines", "a short read ends the stream"))]
PROPS["C08"]["generate"] = [{"module": "InputBufGen", "to": "cursor", "what": "a history for every transition of InputBuf"}]

PROPS["C18"]["models"] = [
    {"module": "Compile", "cfg": "Compile", "thorough": "CompileBig", "workers": 2,
     "what": "design of the compiler with all of its optimizations: the programs of all patterns of one construct, alone and in "
             "recursive grammars, have on the machine (VM.tla) the outcomes of PEG.tla, with an empty table and a filled one; texts "
             "of up to 3 bytes (thorough: two constructs)"},
    {"module": "Compile", "cfg": "CompilePlain", "workers": 1, "what": "the same without optimizations"}] + [
    {"module": "Compile", "cfg": c, "workers": 1, "breaks": "Correct",
     "what": "a variation of the design that must not work: " + w} for c, w in (
        ("CompileDisjoint", "alternatives count as disjoint whatever they begin with"),
        ("CompileHead", "alternatives that jump are tested for their first byte"),
        ("CompileLate", "captures of spans open late"),
        ("CompileTail", "calls followed by something are jumps"),
        ("CompileSearch", "searches skip the bytes that they look for"),
        ("CompileTree", "repetitions of memoized patterns keep their entries"))]
