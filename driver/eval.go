package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/rveen/ogdl"
)

// Suite eval: paths, assignments, expressions and templates over one context.
type evalOp struct {
	O string `json:"o"`
	S Bytes  `json:"s"` // path, expression or template
	P Bytes  `json:"p"` // a second path
	V Val    `json:"v"`
	N []Node `json:"n"` // a tree as value
}
type evalCase struct {
	Root []Node   `json:"root"`
	Ops  []evalOp `json:"ops"`
}

func init() {
	for _, s := range []string{"path", "set", "expr", "tmpl"} {
		s := s
		suites[s] = suite{func(r *rand.Rand, n int, emit func(interface{})) { genEval(s, r, n, emit) }, runEval}
	}
}

func runEval(raw json.RawMessage) interface{} {
	var c evalCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	root := build(c.Root)
	log := &callLog{}
	log.bind(root)
	steps := []M{}
	for i, o := range c.Ops {
		v, g, text, err := evalDo(root, i, o)
		steps = append(steps, M{"v": val(v), "err": err != nil, "text": B(text), "calls": log.take(), "d": heapDump([]*ogdl.Graph{root, g}), "len": g.Len(), "str": B(g.String("dflt"))})
	}
	return M{"steps": steps}
}

// One operation: the value, its tree if it is one, and the text of a template.
func evalDo(root *ogdl.Graph, i int, o evalOp) (v interface{}, g *ogdl.Graph, text string, err error) {
	isGraph := true
	s, p := o.S.S(), o.P.S()
	switch o.O {
	case "get":
		g = root.Get(s)
	case "get2":
		g = root.Get(s).Get(p)
	case "set":
		g = root.Set(s, o.V.Go())
	case "setg":
		g = root.Set(s, build(o.N))
	case "setp":
		g = root.Set(s, root.Get(p))
	case "eval":
		v, err = root.Eval(ogdl.NewExpression(s))
		isGraph = false
	case "evalp":
		v, err = root.Eval(ogdl.NewPath(s))
		isGraph = false
	case "tmpl":
		var t *ogdl.Graph
		if i%2 == 0 {
			t = ogdl.NewTemplate(s)
		} else {
			t = ogdl.NewTemplateFromBytes([]byte(s))
		}
		text = string(t.Process(root))
	default:
		fatal("operation", o.O)
	}
	if isGraph && g != nil {
		v = g
	} else if x, ok := v.(*ogdl.Graph); ok {
		g = x
	}
	return
}

// ------------------------------------------------------------- generators

var evNames = []string{"a", "b", "c", "d", "n", "x", "y", "list", "item", "name", "été", "日本", "x1", "_p", "if2", "foreach", "B"}
var evOdd = []string{"two words", "a.b", "it's", "q\"q", "1", "0", "12", "-1", "tr ue", "", "(", "a,b", "[0]", "_len", "true", "…"}

func evVal(r *rand.Rand, num bool) Val {
	if num {
		switch r.Intn(10) {
		case 0, 1, 2, 3:
			return val(int64(r.Intn(20) - 5))
		case 4:
			return val(float64(r.Intn(40)-10) / 4)
		case 5:
			return val(r.Intn(7))
		case 6:
			return val(fmt.Sprint(r.Intn(12) - 2))
		case 7:
			return val(pick(r, []string{"2.5", "0.5", "1e3", "-0.25", "+3", " 4", "10"}))
		case 8:
			if evSmall {
				return val(pick(r, []interface{}{uint8(7), int32(-3), uint64(12), float32(1.5), 1e6, 123456.0, 1e-5}))
			}
			return val(pick(r, []interface{}{int64(9223372036854775807), int64(-9223372036854775808), int64(4611686018427387904), uint8(7), int32(-3), uint64(12), float32(1.5), int64(3037000500), 1e6, 123456.0, 1e-5}))
		}
		return val(int64(0))
	}
	switch r.Intn(14) {
	case 0, 1, 2:
		return val(pick(r, []string{"v", "w", "text", "hello", "two words", "é…", "it's", "3", "1"}))
	case 3:
		return val(pick(r, []interface{}{true, false, true, false, "true", "false"}))
	case 4:
		return val([]byte(pick(r, []string{"by", "3", "true", "", "1.5"})))
	case 5:
		return val(nil)
	case 6:
		return val(pick(r, evOdd))
	case 7, 8, 9, 10:
		return evVal(r, true)
	}
	return val(pick(r, evNames))
}

// A context: named nodes with values, lists and records.
func evRoot(r *rand.Rand) []Node {
	root := []Node{}
	// now and then long lists, deep trees, many nodes of one name
	many, deep, same := 5, 3, r.Intn(30) == 0
	if r.Intn(25) == 0 {
		many = 30
	}
	if r.Intn(25) == 0 {
		deep = 11
	}
	var below func(l, size int)
	leaf := func(l int) { root = append(root, Node{l, evVal(r, r.Intn(3) > 0)}) }
	name := func() Val {
		if r.Intn(12) == 0 {
			return val(pick(r, evOdd))
		}
		if same {
			return val(pick(r, evNames[:2]))
		}
		return val(pick(r, evNames[:5+r.Intn(len(evNames)-4)]))
	}
	below = func(l, size int) {
		for ; size > 0; size-- {
			switch k := r.Intn(12); {
			case k == 0:
				leaf(l)
			case k < 7 && (deep == 3 || k < 3) || l > deep:
				root = append(root, Node{l, name()})
				if r.Intn(10) > 0 {
					leaf(l + 1)
				}
			case k < 9: // a list of values
				root = append(root, Node{l, name()})
				for m := r.Intn(many); m > 0; m-- {
					leaf(l + 1)
				}
			default:
				root = append(root, Node{l, name()})
				below(l+1, r.Intn(5))
			}
		}
	}
	if same {
		below(0, 10+r.Intn(8))
	} else {
		below(0, 1+r.Intn(7))
	}
	return root
}

// Names that lead somewhere: those of a random node and its ancestors, in order.
func evWay(r *rand.Rand, root []Node) []string {
	if len(root) == 0 {
		return []string{"a"}
	}
	i := r.Intn(len(root))
	way := []string{}
	l := root[i].L
	for ; i >= 0; i-- {
		if root[i].L == l {
			way = append([]string{root[i].V.B.S()}, way...)
			l--
		}
		if l < 0 {
			break
		}
	}
	return way
}

// A path to a small number, or "".
func evIntWay(r *rand.Rand, root []Node) string {
	found := []string{}
	for i, n := range root {
		if n.V.T != "i" || n.L == 0 || len(n.V.B) != 1 || i == 0 || root[i-1].L != n.L-1 {
			continue
		}
		way := ""
		for k, l := i, n.L-1; k >= 0 && l >= 0; k-- {
			if root[k].L == l {
				way = evElem(r, root[k].V.B.S()) + pick(r, []string{"."}) + way
				l--
			}
		}
		if !strings.ContainsAny(way[:1], "0123456789'\"{[") {
			found = append(found, way[:len(way)-1])
		}
	}
	if len(found) == 0 {
		return ""
	}
	return pick(r, found)
}

func evSpace(r *rand.Rand) string {
	return pick(r, []string{"", "", "", " ", " ", "  ", "\t"})
}

func isToken(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if !(c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || strings.ContainsRune("éñΩא日本", c)) {
			return false
		}
	}
	return true
}

func evQuote(r *rand.Rand, s string) string {
	q := pick(r, []string{"\"", "'", "`"})
	if strings.Contains(s, "`") || q != "`" && r.Intn(3) > 0 {
		q = "\""
	}
	if q != "`" {
		s = strings.ReplaceAll(s, q, "\\"+q)
	}
	return q + s + q
}

func evElem(r *rand.Rand, s string) string {
	if !isToken(s) || r.Intn(12) == 0 {
		return evQuote(r, s)
	}
	return s
}

// A path. depth limits expressions within it; settable paths have names and indexes only.
func evPath(r *rand.Rand, root []Node, depth int, settable, plain bool) string {
	way := evWay(r, root)
	if plain { // in an expression a path begins with a letter
		for k := 0; k < 5 && !(isToken(way[0]) && !strings.ContainsRune("0123456789", rune(way[0][0]))); k++ {
			way = evWay(r, root)
		}
		if !isToken(way[0]) || strings.ContainsRune("0123456789", rune(way[0][0])) {
			way = []string{"a"}
		}
	}
	if r.Intn(8) == 0 {
		way = append(way, pick(r, append(evNames, evOdd...)))
	}
	if r.Intn(8) == 0 {
		way = way[:r.Intn(len(way))+1]
	}
	if r.Intn(10) == 0 && !(plain && len(way) == 1) {
		way[len(way)-1] = pick(r, evNames)
	}
	index := func() string {
		if settable && depth > 0 && r.Intn(5) == 0 {
			return "[" + evPath(r, root, 0, false, true) + "]"
		}
		if !settable && depth > 0 && r.Intn(5) == 0 {
			return "[" + evSpace(r) + evExpr(r, root, depth-1, false) + evSpace(r) + "]"
		}
		if r.Intn(10) == 0 {
			return fmt.Sprintf("[%d]", r.Intn(26))
		}
		return "[" + evSpace(r) + fmt.Sprint(r.Intn(4)-r.Intn(8)/7) + evSpace(r) + "]"
	}
	s := ""
	for i, n := range way {
		if i > 0 {
			if r.Intn(5) == 0 { // by position
				s += pick(r, []string{"", "", "."}) + index()
				continue
			}
			s += "."
		} else if !plain && !settable && r.Intn(25) == 0 {
			s += index()
			continue
		}
		if !settable && r.Intn(15) == 0 && depth > 0 && (i > 0 || !plain) {
			s += "(" + evExpr(r, root, depth-1, true) + ")"
		} else if i == 0 && plain {
			s += n
		} else {
			s += evElem(r, n)
		}
		if r.Intn(10) == 0 {
			switch k := r.Intn(8); {
			case settable || k < 4:
				s += index()
			case k < 6:
				s += "{}"
			case k == 6 && depth > 0:
				if way := evIntWay(r, root); way != "" && r.Intn(3) > 0 {
					s += "{" + evSpace(r) + way + pick(r, []string{"", "", " - 1", "*0", "%2"}) + evSpace(r) + "}"
				} else {
					s += "{" + evSpace(r) + evExpr(r, root, depth-1, false) + evSpace(r) + "}"
				}
			default:
				if r.Intn(5) == 0 {
					s += fmt.Sprintf("{%d}", r.Intn(16))
				} else {
					s += fmt.Sprintf("{%d}", r.Intn(4)-r.Intn(6)/5)
				}
			}
		}
	}
	if !settable && r.Intn(12) == 0 {
		s += "." + pick(r, []string{"_len", "_this", "_thisString", "_string"})
	}
	if !settable && r.Intn(40) == 0 {
		s += "(" + evExpr(r, root, 0, false) + ")"
	}
	return s
}

// Big numbers are left out where they could become indexes of nodes to make.
var evSmall = false

var evOps = []string{"+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||"}
var evAssigns = []string{"=", "=", "=", "+=", "-=", "*=", "/=", "%="}

func evNumber(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		if evSmall {
			return pick(r, []string{"1.5", "0.25", "2.0", "3.", "100.125", "-0.5", "+2", "25", "0.125", "007"})
		}
		return pick(r, []string{"1.5", "0.25", "2.0", "3.", "100.125", "-0.5", "+2", "1000000", "0.1", "007", "9223372036854775807", "4611686018427387904"})
	case 1:
		if evSmall {
			return fmt.Sprint(r.Intn(40))
		}
		return fmt.Sprint(r.Intn(100000))
	case 2:
		return fmt.Sprintf("-%d", r.Intn(10))
	}
	return fmt.Sprint(r.Intn(13))
}

// An expression; text prefers one that yields the name of something.
func evExpr(r *rand.Rand, root []Node, depth int, text bool) string {
	if text && r.Intn(3) > 0 {
		w := evWay(r, root)
		return evQuote(r, w[len(w)-1])
	}
	if depth <= 0 || r.Intn(4) == 0 {
		switch r.Intn(10) {
		case 0, 1, 2, 3:
			return evPath(r, root, depth, false, true)
		case 4, 5:
			return evQuote(r, evVal(r, r.Intn(2) == 0).B.S())
		}
		return evNumber(r)
	}
	switch r.Intn(10) {
	case 0:
		return pick(r, []string{"-", "!", "+", "!", "-"}) + evSpace(r) + evExpr(r, root, 0, false)
	case 1, 2:
		return pick(r, []string{"", "", "", "-", "!", "! "}) + "(" + evSpace(r) + evExpr(r, root, depth-1, false) + evSpace(r) + ")"
	}
	s := evExpr(r, root, depth-1, false)
	size := 1 + r.Intn(3)
	if r.Intn(40) == 0 { // long ones
		depth, size = 1, 8+r.Intn(12)
	} else if r.Intn(40) == 0 {
		d := 8 + r.Intn(12)
		s = strings.Repeat("(", d) + s + strings.Repeat(")", d)
	}
	for k := size; k > 0; k-- {
		s += evSpace(r) + pick(r, evOps[r.Intn(2)*r.Intn(5):5+r.Intn(9)]) + evSpace(r) + evExpr(r, root, depth-1-r.Intn(2), false)
	}
	return s
}

func evAssign(r *rand.Rand, root []Node) string {
	p := evPath(r, root, 1, true, true)
	rhs := evExpr(r, root, 1+r.Intn(2), false)
	if r.Intn(3) == 0 {
		rhs = evPath(r, root, 1, false, true)
	}
	return p + evSpace(r) + pick(r, evAssigns) + evSpace(r) + rhs
}

func evTemplate(r *rand.Rand, root []Node, depth, size int, loop []string) string {
	s := ""
	path := func() string {
		if len(loop) > 0 && r.Intn(2) == 0 {
			return pick(r, loop) + pick(r, []string{"", "", "", ".a", ".b.c", "._string", "[0]", "._len", ".name"})
		}
		return evPath(r, root, 1, false, r.Intn(3) > 0)
	}
	expr := func() string {
		if len(loop) > 0 && r.Intn(3) == 0 {
			return pick(r, loop) + pick(r, []string{"==", ">", "!=", "<", " == "}) + evExpr(r, root, 0, false)
		}
		return evExpr(r, root, 2, false)
	}
	for ; size > 0; size-- {
		switch k := r.Intn(20); {
		case k < 6:
			s += pick(r, []string{"text", " ", "\n", ", ", "…", "! ", "!p", "!if", "#", "(x)", "a.b", "$\\", "$\\5", ".", "...", ":", "{", "}", "[", "]", "é", "<b>", "\"", "'", "\\", "=", " end ", "\t", "%", "_"})
		case k < 10:
			p := path()
			if r.Intn(3) == 0 {
				s += "${" + pick(r, []string{"", " "}) + p + pick(r, []string{"", " "}) + "}"
			} else {
				s += "$" + p + pick(r, []string{"", " ", ".", "\n", ",", "-"})
			}
		case k < 13:
			if r.Intn(2) == 0 {
				s += "$(" + evAssign(r, root) + ")"
			} else {
				v := pick(r, []string{"k", "m", "a"})
				s += "$(" + v + pick(r, []string{"=", "+=", " = ", "-="}) + evExpr(r, root, 1, false) + ")"
				loop = append(loop, v)
			}
		case k < 17 && depth > 0:
			s += "$if(" + expr() + ")" + evTemplate(r, root, depth-1, 1+r.Intn(2), loop)
			for r.Intn(3) == 0 {
				s += "$elseif(" + expr() + ")" + evTemplate(r, root, depth-1, r.Intn(3), loop)
			}
			if r.Intn(2) == 0 {
				s += "$else" + pick(r, []string{" ", "\n", ";"}) + evTemplate(r, root, depth-1, r.Intn(3), loop)
			}
			s += "$end" + pick(r, []string{"\n", " ", ";", "-"})
		case depth > 0:
			v := pick(r, []string{"i", "e", "x", "item", "a"})
			l := path()
			for k := 0; k < 3 && l[0] > 127; k++ {
				l = path()
			}
			if r.Intn(6) == 0 {
				l = pick(r, []string{"_this", "list", "a._this"})
			}
			s += "$for(" + v + pick(r, []string{",", ", ", " , "}) + l + ")" + evTemplate(r, root, depth-1, 1+r.Intn(3), append(loop, v))
			if r.Intn(4) == 0 {
				s += "$break" + pick(r, []string{";", " ", "\n"})
			} else if r.Intn(4) == 0 {
				s += "$if(" + v + "==" + evNumber(r) + ")$break$end"
			}
			s += "$end" + pick(r, []string{"\n", " ", ";", "…"})
		}
	}
	return s
}

func genEval(kind string, r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		evSmall = kind == "set" || kind == "tmpl"
		root := evRoot(r)
		c := evalCase{Root: root, Ops: []evalOp{}}
		op := func(o, s string) *evalOp {
			c.Ops = append(c.Ops, evalOp{O: o, S: B(s), P: Bytes{}, V: val(nil), N: []Node{}})
			return &c.Ops[len(c.Ops)-1]
		}
		switch kind {
		case "path":
			for k := 3 + r.Intn(6); k > 0; k-- {
				switch r.Intn(8) {
				case 0, 1:
					op("evalp", evPath(r, root, 2, false, false))
				case 2:
					op("get2", evPath(r, root, 1, false, false)).P = B(evPath(r, root, 1, false, false))
				default:
					op("get", evPath(r, root, 2, false, false))
				}
			}
		case "set":
			for k := 3 + r.Intn(8); k > 0; k-- {
				p := evPath(r, root, 1, true, false)
				switch r.Intn(10) {
				case 0, 1, 2:
					op("set", p).V = evVal(r, r.Intn(2) == 0)
				case 3:
					op("setg", p).N = evRoot(r)
				case 4:
					op("setp", p).P = B(evPath(r, root, 1, false, false))
				case 5, 6, 7, 8:
					p = evAssign(r, root)
					op("eval", p)
					if k := strings.IndexAny(p, "=+-*/% \t"); k > 0 {
						p = p[:k]
					} else {
						p = "a"
					}
				default:
					op("tmpl", "$("+evAssign(r, root)+")")
				}
				if r.Intn(2) == 0 {
					op("get", p)
				}
			}
		case "expr":
			for k := 3 + r.Intn(5); k > 0; k-- {
				op("eval", pick(r, []string{"", "", "", " "})+evExpr(r, root, 1+r.Intn(4), false)+pick(r, []string{"", "", " "}))
			}
		case "tmpl":
			for k := 1 + r.Intn(2); k > 0; k-- {
				op("tmpl", evTemplate(r, root, r.Intn(4), 1+r.Intn(5), nil))
			}
		}
		emit(c)
	}
}
