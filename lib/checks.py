"""What each check does, in terms of vlib."""
import json


CHECKS = {}


def check(prop, level, *assumptions):
    def deco(fn):
        CHECKS[prop] = (fn, level, list(assumptions))
        return fn
    return deco


@check("C01", "model_checking",
       "texts with control characters other than tab, CR and LF are outside the domain of the format",
       "floats of more than 15 digits or with exponents beyond +-290, hexadecimal numbers and numbers with underscores are checked for nothing but termination")
def c01(c):
    """The text format as a byte state machine; every transition of its abstract state graph, and random
    documents, are parsed by the real code through each entry point and compared with the machine's tree."""
    c.model_check("MC_Text", consts={"MaxLen": 6 if c.thorough else 5})
    c.export("text", "MC_Text", "MC_TextCov.cfg", consts={"MaxLen": 10 if c.thorough else 7})
    c.gen("text", 60000 if c.thorough else 12000)
    c.judge("text", "T_Text")

@check("C02", "model_checking", "values that the format cannot represent are left out (listed in the property)")
def c02(c):
    """Every small tree over awkward values is written and read back inside the specification; the same trees and
    random bigger ones are written by the real code, and the text is judged by the specification's reader."""
    if c.thorough:
        c.model_check("MC_Emit", "MC_EmitBig.cfg", consts={"MaxNodes": 4})
    c.export("emit", "MC_Emit")
    c.gen("emit", 60000 if c.thorough else 10000)
    c.judge("emit", "T_Emit")

@check("C03", "model_checking", "readers that return 100 or more empty reads in a row, or a negative count, are outside the contract of io.Reader",
       "unreading is specified up to 1900 bytes, and not after reading twice beyond the end")
def c03(c):
    """A model of the double half buffer, with every schedule of reads, refines a cursor over the bytes delivered; the
    cursor then judges sessions of the real lexer, and the text and binary machines judge the trees read in pieces."""
    for i in 1, 2, 3, 4:
        c.model_check("MC_Buffer", "MC_Buffer%d.cfg" % i, consts={"MaxEmpty": 2 if c.thorough else 1, "B": 12 if c.thorough else 8})
    c.export("deliver", "MC_Deliver", consts={"MaxChunk": 3 if c.thorough else 2})
    c.gen("deliver", 24000 if c.thorough else 4000)
    c.judge("deliver", "T_Deliver")
    c.gen("lexer", 40000 if c.thorough else 6000)
    c.judge("lexer", "T_Lexer")


@check("C04", "model_checking", "numbers and booleans are sent as their text; nodes without content are not sent, their subnodes take their place")
def c04(c):
    """The binary format as an encoder and a decoding state machine: round trip and prefix freedom over all small trees
    of awkward contents; the same trees, random ones, deep ones and long contents are encoded and decoded by the real code."""
    c.model_check("MC_Binary", "MC_BinTree.cfg", consts={"MaxNodes": 4 if c.thorough else 3})
    c.export("bin", "MC_Binary", "MC_BinExp.cfg", consts={"MaxNodes": 3 if c.thorough else 2})
    c.gen("bin", 40000 if c.thorough else 8000)
    c.judge("bin", "T_Bin")
    c.gen("binbig", 2 if c.thorough else 1)
    c.judge("binbig", "T_BinBig")


@check("C05", "model_checking", "levels beyond 2^21 are not tried (the code allocates memory in proportion to the level)")
def c05(c):
    """The decoding state machine judges arbitrary bytes: streams for each of its transitions, every prefix of valid
    streams, and corrupted ones, read by every entry point of the real code and as a log."""
    c.model_check("MC_Binary", "MC_BinTree.cfg", consts={"MaxNodes": 4 if c.thorough else 3})
    c.export("bindec", "MC_Binary", "MC_BinCov.cfg", consts={"MaxLen": 12 if c.thorough else 9})
    c.gen("bindec", 80000 if c.thorough else 10000)
    c.judge("bindec", "T_BinDec")

@check("C06", "model_checking", "objects given to AddBinary are binary objects as Binary makes them")
def c06(c):
    """The log as a machine over the bytes of the file; every short sequence of operations and random sessions over two
    handles (or memory) run on the real code, and the machine judges each result and the file."""
    c.model_check("MC_Log", consts={"MaxAdds": 3 if c.thorough else 2})
    c.export("log", "MC_LogOps", consts={"MaxOps": 5 if c.thorough else 4})
    c.gen("log", 20000 if c.thorough else 3000)
    c.judge("log", "T_Log")


@check("C07", "model_checking", "a crash keeps what was synced, and of what was written later any prefix",
       "writes fail by a file size limit; the system calls are recorded with strace (skipped, and said so, where it cannot trace)")
def c07(c):
    """The log machine interleaved with crashes and failing writes; recorded system calls of the real code are replayed in
    it (nothing is acknowledged before it is synced), and the real code reads, and adds to, files cut at any byte."""
    c.model_check("MC_Log", consts={"MaxAdds": 3, "MaxCrashes": 2 if c.thorough else 1})
    c.export("log", "MC_LogOps", consts={"MaxOps": 5 if c.thorough else 4})
    c.gen("log", 20000 if c.thorough else 2500, seed=c.seed + 1000)
    c.judge("log", "T_Log")
    c.gen("logsys", 1500 if c.thorough else 150)
    c.judge("logsys", "T_LogSys")
    untraced = sum('"untraced"' in x for x in open(c.path("logsys.trace")))
    if untraced:
        c.log("strace cannot trace here: %d sessions without system calls" % untraced)
        c.extra["untraced"] = untraced


@check("C08", "model_checking", "operations that would put a tree below itself are left out",
       "merging a tree that has several subnodes of one name replaces the content of the first by that of the last, also where that node is shared")
def c08(c):
    """Trees in memory as a heap of nodes; every pair of operations over trees that share nodes, and random sessions, run
    on the real code, and after each operation the whole heap that can be reached is compared with the specification."""
    c.model_check("MC_Heap", consts={"MaxOps": 3, "Full": "FALSE"} if c.thorough else {"MaxOps": 2})
    c.export("heap", "MC_Heap", "MC_HeapExp.cfg", consts={"MaxOps": 2, "Full": "TRUE" if c.thorough else "FALSE"})
    c.gen("heap", 60000 if c.thorough else 6000)
    c.judge("heap", "T_Heap", chunk=8000)


@check("C09", "model_checking", "NaN (not equal to itself) and native values that hold pointers are left out")
def c09(c):
    """Cloning and copying in the heap of nodes: the clone is made of new nodes only, and no operation on one side reaches the
    other; edited clones and pairs of trees that differ in one place are compared by the real code."""
    c.model_check("MC_Heap", consts={"MaxOps": 3, "Full": "FALSE"} if c.thorough else {"MaxOps": 2})
    c.gen("equal", 80000 if c.thorough else 12000)
    c.judge("equal", "T_Equal", chunk=8000)
    c.gen("heap", 30000 if c.thorough else 3000, seed=c.seed + 1000)
    c.judge("heap", "T_Heap", chunk=8000)


@check("C10", "model_checking", "names that begin with ! are marks of parsed forms and not tried",
       "the operators of a number and a tree, and of floats that need rounding, are not specified: there only the absence of panics is checked")
def c10(c):
    """Paths over trees in memory, as a walk; all short paths over small trees and random ones over bigger trees, by Get, in two
    steps and in expressions, on the real code."""
    c.model_check("MC_Eval", consts={"Every": 1 if c.thorough else 6})
    c.export("set", "MC_Eval", workers=8, consts={"Every": 3 if c.thorough else 12})
    c.judge("set", "T_Eval", chunk=1500)
    c.gen("path", 60000 if c.thorough else 8000)
    c.judge("path", "T_Eval", chunk=8000)


@check("C11", "model_checking", "setting below an index far beyond the last element takes memory in proportion; not tried",
       "a tree set at an index, assignments within assignments, and selectors in paths that are set are not specified")
def c11(c):
    """Setting through paths and by assignment expressions: what was set is what is got, and nothing else changes; all pairs of
    settings over small trees and random sessions on the real code, where the whole tree is compared after each operation."""
    c.model_check("MC_Eval", consts={"Every": 1 if c.thorough else 4})
    c.export("set", "MC_Eval", workers=8, consts={"Every": 2 if c.thorough else 12})
    c.gen("set", 40000 if c.thorough else 4000)
    c.judge("set", "T_Eval", chunk=1500)


@check("C12", "model_checking", "results that need rounding of floats are not specified",
       "the operators of a number and a tree are not specified")
def c12(c):
    """The grammar of expressions against a two-stack machine, and their values; all short expressions over a pool of
    operands, and random deep ones, evaluated by the real code."""
    if c.thorough:
        c.export("expr", "MC_Syntax", workers=8, consts={"Every": 1})
        c.export("expr", "MC_Syntax", workers=8, consts={"Every": 3, "MaxOps": 3})
    else:
        c.export("expr", "MC_Syntax", workers=8)
    c.gen("expr", 60000 if c.thorough else 9000)
    c.judge("expr", "T_Eval", chunk=6000)


@check("C13", "model_checking", "templates that do not follow the grammar are checked for nothing but termination (C20)")
def c13(c):
    """Templates as a grammar of pieces and a rendering with an environment; every short sequence of pieces, and random
    nested ones, processed by the real code, text and context compared."""
    c.export("tmpl", "MC_Tmpl", workers=8, consts={"MaxLen": 6, "Every": 3} if c.thorough else {"MaxLen": 5, "Every": 5})
    c.gen("tmpl", 60000 if c.thorough else 8000)
    c.judge("tmpl", "T_Eval", chunk=6000)


@check("C14", "model_checking", "texts that may be hexadecimal or have underscores, and numbers outside of the range of a float, are not specified")
def c14(c):
    """The conversions of contents as functions, checked against each other; every accessor of the real code is asked for every
    content of a pool in every place, and for random trees and paths."""
    c.export("access", "MC_Access", workers=8, consts={"Pairs": "TRUE" if c.thorough else "FALSE"})
    c.gen("access", 60000 if c.thorough else 8000)
    c.judge("access", "T_Access", chunk=6000)


@check("C15", "model_checking", "as C14")
def c15(c):
    """Schemas as a recursive comparison; all pairs of small schemas and trees, and random trees with schemas made of them, checked by
    the real code."""
    c.export("check", "MC_Check", workers=8, consts={"MaxT": 3, "Every": 8} if c.thorough else {})
    c.gen("check", 80000 if c.thorough else 10000)
    c.judge("check", "T_Check")


@check("C16", "model_checking", "subnodes with equal keys may end in any order")
def c16(c):
    """Sorting as a machine that swaps neighbours that are out of order; the real code sorts every short sequence of keys of a
    pool, and random trees, and the whole tree is compared afterwards."""
    c.export("sort", "MC_Sort", workers=8, consts={"MaxLen": 4 if c.thorough else 3})
    c.gen("sort", 60000 if c.thorough else 8000)
    c.judge("sort", "T_Sort")


@check("C17", "model_checking", "what follows the first JSON value is not specified")
def c17(c):
    """JSON texts read by a machine with a stack of open lists and objects, checked against the grammar; its sequences of tokens
    and random texts, whole and
    broken, are imported, and the tree compared with the one that the grammar gives."""
    c.export("json", "MC_Json", workers=8, consts={"MaxLen": 7, "Every": 2 if c.thorough else 10})
    c.gen("json", 60000 if c.thorough else 8000)
    c.judge("json", "T_Json")


@check("C18", "model_checking", "letters beyond Latin 1 in names are not specified")
def c18(c):
    """XML documents read by a machine with a stack of open elements, checked against the grammar; its sequences of tokens and
    random documents, whole and broken, are imported, and the tree compared with the one that the grammar gives."""
    c.export("xml", "MC_Xml", workers=8, consts={"MaxLen": 5, "Every": 2 if c.thorough else 20})
    c.gen("xml", 60000 if c.thorough else 8000)
    c.judge("xml", "T_Xml")


def group(c, suite, into, size):
    """Cases of one client each become cases of many."""
    one = [json.loads(l) for l in open(c.path(suite + ".cases"))]
    for v in (1, 2):
        cl = [x for o in one if o["v"] == v for x in o["cl"]]
        for i in range(0, len(cl), size):
            c.add_case(into, {"v": v, "cl": cl[i:i + size]})


@check("C19", "model_checking", "timeouts are real time: calls with losses may fail for want of time")
def c19(c):
    """The protocol (clients, connections that are cut at any byte, server) as a state machine, checked against a monitor of what
    may be seen of a client; sequences of fates and random ones are met by real clients and a real server through a proxy, all at
    once, and the monitor judges the recorded events."""
    c.model_check("MC_Remote", consts={"NCalls": 2 if c.thorough else 1})
    c.model_check("MC_Remote", "MC_RemoteS.cfg")
    c.model_refutes("MC_Remote", "MC_RemoteC.cfg", "Seen")
    c.model_refutes("MC_Remote", "MC_RemoteW.cfg", "Seen")
    quick = '{"ok", "okcut", "creq", "drop", "cans"}'
    c.export("fates", "MC_Fates", workers=8, consts={"Every": 10 if c.thorough else 60})
    c.export("fates", "MC_Fates", workers=8, consts={"Every": 1 if c.thorough else 3, "Kinds": quick})
    c.export("fates", "MC_Fates", workers=8, consts={"Every": 1 if c.thorough else 4, "Kinds": quick, "Version": 1})
    group(c, "fates", "remote", 40)
    c.gen("remote", 600 if c.thorough else 80)
    c.judge("remote", "T_Remote", env={"DRIVER_TIMEOUT": "200"}, racy=True)
    c.gen("remotebig", 400 if c.thorough else 40)
    c.judge("remotebig", "T_RemoteBig", env={"DRIVER_TIMEOUT": "200"}, racy=True)


@check("C20", "model_checking", "texts nested more than 20,000 levels deep are not tried (a million levels exhaust the stack)",
       "an index takes memory in proportion to it: texts with numbers of more than four digits are not evaluated",
       "loops over loops take as long as they say: deeply nested templates are only parsed")
def c20(c):
    """Every text of a few pieces of each language, valid or not, in several contexts, and damaged longer ones, through everything
    that takes such a text; long repetitions and deep nesting in bounded time."""
    c.model_check("MC_Total", "MC_TotalModel.cfg", consts={"MaxLen": 4 if c.thorough else 3, "Full": 4 if c.thorough else 3})
    c.export("total", "MC_Total", consts={"Every": 1 if c.thorough else 12})
    c.gen("total", 60000 if c.thorough else 8000)
    c.judge("total", "T_Total", env={"DRIVER_TIMEOUT": "60"})
    c.export("scale", "MC_Scale", consts={"Every": 3 if c.thorough else 20, "Flat": 200000})
    c.judge("scale", "T_Total", env={"DRIVER_TIMEOUT": "60" if c.thorough else "30"})


@check("C21", "model_checking", "variadic functions, and numbers that need rounding as arguments, are not specified",
       "an argument that is a missing path is not specified for parameters that are not trees")
def c21(c):
    """Functions, methods and remote functions in the context, with every short list of arguments and in every position of a path,
    expression or template: the calls that are made, with what arguments, and what becomes of the result."""
    c.export("func", "MC_Func", workers=8, consts={"Every": 10 if c.thorough else 40})
    c.gen("func", 18000 if c.thorough else 3000)
    c.judge("func", "T_Eval", chunk=6000)


@check("C22", "model_checking", "trees that are read by several goroutines are not written by another one at the same time",
       "data races are observed by the Go race detector on the schedules that occur, and on bounded ones by the model")
def c22(c):
    """Processes that evaluate shared programs in small steps, in every order; and real programs and trees, alone, repeatedly, and by
    several goroutines, with and without race detector: one outcome, the specified one, and nothing shared changes."""
    c.model_check("MC_Share", "MC_Share_readers.cfg")
    c.model_refutes("MC_Share", "MC_Share_one.cfg", "SameAsAlone")
    c.model_refutes("MC_Share", "MC_Share_cached.cfg", "SameAsAlone")
    if c.thorough:
        c.model_check("MC_Share", "MC_Share.cfg", consts={"Procs": 3})
    c.export("share", "MC_Share")
    c.gen("share", 9000 if c.thorough else 1500)
    c.judge("share", "T_Share", racy=True)
    race = c.build(race=True)
    c.judge("share", "T_Share", driver=race, env={"GORACE": "halt_on_error=1 exitcode=66"}, racy=True)


@check("C23", "model_checking", "a negative level given to SetLevel or AddAt is not specified")
def c23(c):
    """A handler of events with its level and its list of nodes, against the tree that is built as they come; sequences of events
    and random ones go to the real handler, which is asked for the tree again and again on the way."""
    c.export("events", "MC_Events", workers=8, consts={"MaxOps": 5, "Every": 2 if c.thorough else 5})
    c.gen("events", 60000 if c.thorough else 6000)
    c.judge("events", "T_Events")


@check("C24", "model_checking", "what -id makes of an XML document is not specified, only that it ends",
       "texts without control characters; numbers in JSON texts only in the way they are printed")
def c24(c):
    """The tools as programs of files, each run replacing a file by what it prints; the runs of the model and random ones are made
    with the programs built from the code, and what they print is compared."""
    bins = c.build_commands()
    c.export("tools", "MC_Tools", workers=8, consts={"Pairs": 1 if c.thorough else 7})
    c.gen("tools", 15000 if c.thorough else 1800)
    c.judge("tools", "T_Tools", env={"OGDL_TOOLS": bins}, chunk=4000)


TECHNIQUE = {}
NOT_APPLICABLE = {}
