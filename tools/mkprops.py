#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Text is read as the tree its indentation, quoting and blocks describe",
 "Reading OGDL text yields exactly the tree that the format defines: a line deeper than the line before it is its subnode, equal or lesser indentation closes levels, tokens separated by spaces on one line go one level deeper each, and comments and empty lines have no effect. "
 "Quoted strings (\", ' and `), escaped quotes, multi-line quoted strings and blocks (a backslash at the end of a line, followed by deeper lines) deliver their characters verbatim, with only the indentation removed. "
 "When types are requested, exactly the unquoted integers, floats, true and false become native values and everything else stays text.",
 ["inputs"], "every text over the printable bytes, UTF-8, space, tab, CR and LF",
 "The parser tests sample a few dozen documents; indentation, quoting, blocks and comments interact per byte, and each combination is a different path.",
 ["block.go", "lexer.go", "parser.go", "event.go"],
 [("indentation stack", "block.go:Ogdl, tree, line"), ("token, quoted, block and comment rules", "lexer.go:Quoted, Block, String, Comment, Space"), ("events with levels to tree", "event.go:Tree"), ("scalar types", "block.go, gettypes.go")],
 observe=["FromString", "FromBytes", "FromReader", "FromStringTypes"])

prop("C02", "Emitted text reads back as the same tree",
 "For every tree whose values the text format can represent, reading the emitted text yields the same tree: same values, same order, same nesting, whatever the depth, including values with spaces, quotes, commas, parentheses and line breaks; nodes without content are left out, their subnodes taking their place. "
 "Emitting what was read back gives the same text again.",
 ["inputs"], "every tree of representable string values (no CR, no backslash next to a quote or at the end of a quoted value, plain tokens at the top level)",
 "Tests compare a few fixed texts; quoting is decided per value and indentation per level, so only generated trees reach the combinations.",
 ["graph.go", "block.go", "lexer.go"],
 [("emitter", "graph.go:Text, Show, _text"), ("parser", "block.go, lexer.go")], observe=["Text", "Show", "FromString"])

prop("C03", "The tree does not depend on how the input arrives",
 "Reading a text gives the same tree whether it comes as a string, as bytes, from a file or from a reader, and however the reader splits it: one byte at a time, at any boundaries, with the last data delivered together with the end of the stream or before it, and whatever the position of its parts relative to any internal buffer. "
 "A reader that fails ends the input after the bytes it delivered. The same holds for binary input.",
 ["schedules", "fault_sequences", "inputs"], "every text longer or shorter than the internal buffers, every split into reads, with or without a final error",
 "Tests parse short strings, that arrive in a single read; a token across a buffer boundary or a short read never happens there.",
 ["lexer.go", "parser.go", "binary.go"],
 [("double half buffer with refill and unread", "lexer.go:fill, Byte, UnreadByte, Rune"), ("binary reader", "binary.go:read")],
 [("buffer window", "bytes available for reading and unreading", "lexer.go")], ["FromReader", "FromFile", "FromBytes", "NewLexer", "FromBinaryReader"])

prop("C04", "Binary form follows the OGDL binary format and preserves the tree",
 "The binary form of a tree is the byte sequence that the OGDL binary specification defines for it (header, then level and content of each non-empty node in depth first order, then a zero), with variable length integers of the right size for any level or length. "
 "Reading it back gives the same tree, for any depth, any number of nodes and any content, including bytes that look like delimiters; byte content that was sent as binary comes back as bytes.",
 ["inputs"], "every tree of string, byte and scalar values, of any depth and width",
 "Tests round-trip small trees of short ASCII strings: one byte levels, no delimiters in the content.",
 ["binary.go", "event.go", "gettypes.go"],
 [("writer", "binary.go:Binary, bin, newVarInt"), ("reader", "binary.go:parse, line, varInt")], observe=["Binary", "FromBinary", "FromBinaryReader"])

prop("C05", "Binary input that is cut or corrupt never passes for a complete tree",
 "Any byte sequence given as binary input is either a well formed stream, and yields the tree it encodes, or yields no tree: a stream cut at any point is never accepted as a smaller tree. "
 "Reading always terminates without crashing.",
 ["inputs", "crash_points"], "every byte sequence, and every proper prefix of every valid stream",
 "Tests read complete streams only.",
 ["binary.go"], [("end of stream detection", "binary.go:read, parse, line"), ("header check", "binary.go:header")], observe=["FromBinary", "FromBinaryReader", "FromBinaryFile", "Log.Get"])

prop("C06", "Every object added to a log stays readable at the position returned",
 "Adding an object to a log, as a tree or in binary form, returns the position at which it is found from then on, by that log or by any log opened later on the same file: reading there yields that object and the position of the next one, in the order of addition and up to the end of the log, and a negative position gives nothing but an error. "
 "Nothing that is added, read, synced, closed or reopened later changes what is read at earlier positions.",
 ["histories"], "every sequence of open, add, add binary, read, sync and close operations, over one or several handles used in turn, on disk or in memory",
 "The log test adds two objects to one log and reads them back once.",
 ["log.go", "binary.go"], [("append at the end, read at a position", "log.go:Add, AddBinary, Get, GetBinary"), ("object boundary detection", "binary.go:parse, line")],
 [("file content", "concatenation of the binary objects added", "log.go")], ["OpenLog", "Log.Add", "Log.AddBinary", "Log.Get", "Log.GetBinary", "Log.Bytes"])

prop("C07", "A crash or a failed write does not damage a log",
 "With synchronisation on, when adding an object returns its position, that object and all before it are on stable storage: a crash at any later moment, or while another object is being added, leaves them readable at their positions, and an object that was not completely written is reported as an error, never as an object. "
 "When an object cannot be written completely (no space, file size limit), adding it reports that instead of a position, and leaves the log as it was.",
 ["crash_points", "fault_sequences"], "every cut of the file at or after the last synchronised length, every write that fails after any number of bytes",
 "Tests never crash, cut the file or make a write fail.",
 ["log.go", "binary.go"], [("write, then sync, then return", "log.go:Add, AddBinary"), ("incomplete object detection", "log.go:Get, GetBinary; binary.go:read")],
 observe=["file bytes at each system call", "Log.Get", "Log.GetBinary"])

prop("C08", "Tree editing operations have exactly their documented effect",
 "Every sequence of editing operations (add, add nodes, find or create, create, node set, delete by content or position, clear, copy, merge, substitute) leaves the tree as the sequence of their documented effects: the intended nodes are added, replaced or removed, in the right place and order, and every other node, its position and its content stay as they were, also when a node is shared between trees. "
 "Looking up, counting and comparing nodes return what the tree contains and never change it; operations on missing trees do nothing.",
 ["histories"], "every sequence of operations over a pool of trees, including trees that share nodes, empty and missing ones",
 "Tests apply one or two operations to small literal trees and look at one result.",
 ["graph.go"], [("slices of pointers to subnodes", "graph.go")], [("heap of nodes", "content and ordered list of subnodes of each node", "graph.go:Graph")],
 ["Add", "AddNodes", "Node", "NodeOrNew", "NodeSet", "Create", "Delete", "DeleteAt", "Clear", "Copy", "Merge", "Substitute", "Len", "GetAt", "Equals"])

prop("C09", "A clone is equal to its original and independent of it",
 "A clone (and what is copied into another tree) equals its original, at any depth and for any content, and from then on no edit of one is visible in the other. "
 "Two trees compare as equal exactly if they have the same contents, of the same types, in the same order and nesting, and comparing is symmetric.",
 ["histories"], "every tree, every pair of trees, and every sequence of edits after the clone",
 "Tests clone one tree and compare it at once, without editing either side.",
 ["graph.go"], [("recursive copy", "graph.go:Clone, Copy"), ("structural comparison", "graph.go:Equals")], observe=["Clone", "Copy", "Equals"])

prop("C10", "A path finds exactly the nodes it names, and a missing one is harmless",
 "Getting a path from a tree returns what the path denotes: each name selects the first subnode with that content, an index selects by position, a selector selects one or all subnodes of the same name, a name can be quoted and a parenthesised element is computed first. "
 "A path that does not exist gives a nil result on which every reader function and any further path can be applied, yielding nil, the given default or the error defined, and getting a path (without assignments in its elements) never modifies the tree.",
 ["inputs", "programs"], "every tree and every path of names, quoted names, indexes, selectors and groups, followed by every accessor",
 "Path tests get a dozen paths from two documents.",
 ["eval.go", "flow.go", "graph.go", "gettypes.go"], [("path parser", "flow.go:Path, Index, Selector, Args"), ("path evaluation", "eval.go:getPath, evalPath, index")], observe=["Get", "NewPath", "Eval", "Int64/Float64/Bool/String and GetX accessors"])

prop("C11", "Setting or assigning a path is seen by the next get, and changes nothing else",
 "After setting a path to a value, or assigning to it in an expression, getting that path gives that value; nodes and positions missing on the way are created, and the first of several equal names is the one that changes; when the value is a tree, its subnodes become those of the node (shared with the original, or copied where the node would end up below itself). "
 "The assignment operators +=, -=, *=, /= and %= store the result of the operation on the previous value. Every other part of the tree stays as it was.",
 ["histories", "inputs"], "every sequence of sets and assignments with paths of names and indexes, over every tree",
 "Tests set one path and read it back; they do not look at the rest of the tree nor at sequences of sets.",
 ["graph.go", "eval.go"], [("set", "graph.go:Set, set, setAt"), ("assignment", "eval.go:assign, calc")], observe=["Set", "Eval", "Get", "Process"])

prop("C12", "Expressions evaluate by the documented precedence, associativity and types",
 "An expression evaluates to the value given by its grammar: * / % bind before + -, then comparisons, then &&, then ||, then assignments; equal precedence groups to the left; parentheses, signs and negation apply to their operand. "
 "Arithmetic on integers is exact 64 bit integer arithmetic, a float operand makes the operation floating, a text as first operand of + concatenates, the first operand of a comparison determines its type, comparisons and logic give a boolean, a missing variable counts as zero or empty text, and an undefined result (division of integers by zero, an operand that is no number) is nothing, never a crash.",
 ["inputs", "programs"], "every expression over numbers, texts, booleans and paths, with any nesting and spacing, in every context",
 "Tests evaluate some fifty fixed expressions; precedence, typing and nesting combine freely.",
 ["expression.go", "eval.go", "flow.go", "lexer.go"], [("expression parser and operator precedence", "flow.go:Expression, UnaryExpression; expression.go"), ("evaluation", "eval.go:evalExpression, evalBinary, calc, compare, logic")], observe=["NewExpression", "Eval", "Process"])

prop("C13", "A template renders its text verbatim and its directives as programmed",
 "Processing a template yields its literal text unchanged, with each variable replaced by the text of its value (nothing if it is missing), silent expressions evaluated for their effect, $if/$elseif/$else rendering exactly the first branch that is true, and $for rendering its body once for each element, in order, with the loop variable bound to it, until $break leaves the innermost loop. "
 "Directives can be nested to any depth, and the result depends only on the template and the context given.",
 ["programs", "inputs"], "every template built from texts, variables, expressions and nested directives, and every context",
 "Template tests process some twenty fixed templates with little nesting.",
 ["template.go", "eval.go", "flow.go", "lexer.go"], [("template parser and nesting", "template.go:Template, simplify, flow"), ("rendering", "template.go:process")], observe=["NewTemplate", "NewTemplateFromBytes", "Process"])

prop("C14", "Typed access returns the value, the default or an error, never a wrong value",
 "Reading a node as integer, float, boolean, text, bytes, scalar or list of texts returns the value of the node converted as documented for its native type; if it cannot be converted, the default given, or the zero value (NaN for floats), and the variants that report errors report one. "
 "No access crashes or modifies the tree, whatever the type of the content.",
 ["inputs"], "every content (text of any form, bytes, booleans, integers and floats of any Go size, nothing) in every tree shape, with and without default",
 "Accessor tests cover a handful of values of the expected type.",
 ["gettypes.go"], [("conversions", "gettypes.go:_int64f, _float64f, _boolf, _string, _bytes, Number, Scalar")], observe=["Int64, Float64, Bool, String, Strings, StringCSV, Bytes, Number, Scalar, Interface, ThisX, GetX"])

prop("C15", "A schema accepts exactly the trees that conform to it",
 "Checking a tree against a schema accepts it exactly if every node of the schema has a node at the same place in the tree, with the same text, or with a content of the type that the schema node asks for (integer, float, boolean, string, binary), recursively; the tree may have further nodes. "
 "A rejected tree comes with a message that names what was wanted and what was found at the first mismatch; neither tree is modified.",
 ["inputs"], "every pair of schema and tree",
 "The schema tests check three small trees.",
 ["schema.go", "gettypes.go"], [("recursive comparison", "schema.go:Check, checkNode")], observe=["Check"])

prop("C16", "Sorting orders the subnodes by the field and loses nothing",
 "Sorting leaves the same subnodes, each with its content untouched, ordered by the text (or, for the integer sort, by the integer value) that the given path has in each of them; subnodes without the field count as empty text or zero. "
 "Sorting again changes no key, and only the order of the direct subnodes is affected.",
 ["inputs"], "every tree and field path, with duplicate, missing, negative and non-numeric keys",
 "There is no test for sorting.",
 ["sort.go"], [("comparison by field", "sort.go:Less, SortAsInt, SortAsString")], observe=["Sort", "SortAsString", "SortAsInt"])

prop("C17", "JSON is imported completely and with its types",
 "Importing a JSON text yields a tree with all its content: each object member becomes a node named by its key with the value below it, each list element a node in order, integers up to 64 bits become integers, other numbers floats, booleans and texts keep type and characters, and null is nothing. "
 "A text that is not valid JSON gives an error and no tree.",
 ["inputs"], "every JSON text, with any nesting",
 "Two JSON tests look at one list and one object.",
 ["encoding.go"], [("conversion", "encoding.go:FromJSON, toGraph")], observe=["FromJSON"])

prop("C18", "XML is imported with elements, attributes and texts in place",
 "Importing an XML document (XML 1.0 in UTF-8) yields one node per element, named by its local name (accents removed, - replaced by _), nested and ordered as in the document, with one subnode per attribute (its name preceded by @, its value below) and one per text between tags, trimmed, blank texts omitted. "
 "Importing always terminates without crashing, also on documents that are not well formed.",
 ["inputs"], "every XML document",
 "There is no test for the XML import.",
 ["io/gxml/xml.go"], [("token loop with a stack of open elements", "io/gxml/xml.go:FromXML")], observe=["gxml.FromXML"])

prop("C19", "A remote call returns the answer to its own request, or an error",
 "A remote call returns the handler's answer to exactly that request, or an error; however the messages are split in transit, however many clients call at the same time, and whatever calls failed before. "
 "A handler only ever sees complete requests, at most three times for one call, which is tried again on a new connection when one fails and gives an error only if all tries failed; a request or answer that is cut, lost or late is never taken for another one, and a call to a path without a handler is answered as not found.",
 ["schedules", "fault_sequences", "histories"], "every interleaving of calls of several clients, every segmentation of the byte streams, and every loss, cut or delay of a connection at any byte, in both protocol versions",
 "There is no test of the remote functions.",
 ["ogdlrf/client.go", "ogdlrf/server.go"], [("length prefix framing", "ogdlrf/client.go:callV2; ogdlrf/server.go:process"), ("retry on a new connection", "ogdlrf/client.go:Call"), ("routing", "ogdlrf/server.go:router")],
 [("connection", "bytes in flight in each direction", "net.Conn")], ["Client.Call", "the handler", "the bytes on the wire"])

prop("C20", "No input makes a parser or an evaluation crash or hang",
 "Reading any bytes as text, path, expression, template, schema, JSON, XML, binary stream or log, and evaluating any path, expression or template on any tree, ends in a time proportional to the work asked for (not to its square), without crashing. "
 "It gives a result or an error; a result is a finite tree without cycles or nil nodes, with which everything else can be done in turn.",
 ["inputs", "programs"], "every byte sequence, every context",
 "Tests use well formed input.",
 ["lexer.go", "block.go", "flow.go", "template.go", "eval.go", "binary.go", "encoding.go"], [("end of stream handling in each production", "lexer.go, block.go, flow.go, template.go"), ("missing operands, arguments and results", "eval.go, function.go")], observe=["all New*, From*, Get, Set, Eval, Process"])

prop("C21", "A function in the context is called with the evaluated arguments",
 "A path that names a function held in the context calls it exactly once per evaluation with the values of its argument expressions, in order, and yields its result, which the rest of a template or expression uses like any other value; methods of an object get their arguments converted to the parameter types. "
 "A wrong number or type of arguments of a function, or an unknown method, gives an error and no call; a method's missing arguments are zero values and excess ones are ignored.",
 ["programs", "inputs"], "every function and method signature over the scalar types, every argument list",
 "Tests call three functions with matching arguments.",
 ["function.go", "eval.go"], [("reflection call", "function.go:function, convert"), ("argument evaluation", "eval.go:evalPath; flow.go:ArgList")], observe=["Eval", "Process", "the calls that the function records"])

prop("C22", "Evaluating and reading can be repeated and shared",
 "Evaluating a parsed path, expression or template leaves the parsed form unchanged, so that evaluating it again, in any other context and from any number of goroutines at once, gives the result it has on its own. "
 "Reading a tree (get, typed access, text, binary and JSON output, comparison, clone, schema check, search) leaves it unchanged, so that concurrent readers get what they would get alone.",
 ["histories", "schedules"], "every sequence and every concurrent schedule of evaluations and reads on shared programs and trees",
 "Tests evaluate each program once, from one goroutine.",
 ["eval.go", "template.go", "graph.go", "gettypes.go", "binary.go", "encoding.go", "schema.go"], [("evaluation without writing to the program", "eval.go, template.go:process"), ("read only accessors", "graph.go, gettypes.go")], observe=["Process", "Eval", "Get", "Text", "Binary", "JSON", "Clone", "Equals", "Check", "Find"])

prop("C23", "A tree built by events has the nodes that were added, where they belong",
 "The tree that an event handler or parser returns has exactly the nodes that were added and not deleted, in order and with their content, each below the last one added one level above it (a node without one is left out, with what is below it). "
 "The level is the one set, or moved by Inc and Dec, never below zero; asking for the tree changes nothing and does not end the building, and trees given at different times share no nodes.",
 ["histories"], "every sequence of additions, deletions and moves of the level, and of requests for the tree",
 "Tests use the event handler only through the text parser.",
 ["event.go", "parser.go"], [("list of items and levels, made into a tree on request", "event.go:SimpleEventHandler.Tree, Graph"), ("events of the parser", "parser.go:Emit, Inc, Dec")], observe=["SimpleEventHandler", "Parser.Emit", "Parser.Graph"])

prop("C24", "The command line tools print what the library gives",
 "gpath prints the text of what a path denotes in the text of a file or of the standard input (nothing if it is missing, everything for '.'), gtemplate the template rendered with the nodes of all given files as context, and json2ogdl and xml2ogdl the text of the imported tree, or of what the path denotes in it. "
 "What is printed reads back as that tree, and no input makes a tool crash.",
 ["inputs", "programs"], "every path, template, text, JSON and XML document, and every number of files",
 "There is no test of the commands.",
 ["cmd/gpath/main.go", "cmd/gtemplate/main.go", "cmd/json2ogdl/main.go", "cmd/xml2ogdl/main.go"], [("main of each tool", "cmd/*/main.go")], observe=["standard output and exit code of the tools"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
