package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing/iotest"
	"time"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/io/gxml"
)

// Suite total: texts of any kind through everything that takes a text of that
// language. Only what must never happen is reported: a panic, a result that is
// not a tree, a context changed by something that only reads, a text that took
// too long. Suite scale: the same for texts that repeat something many times.
type totalCase struct {
	Lang  string  `json:"lang"`
	Root  []Node  `json:"root"`
	Nil   bool    `json:"nil"` // no context
	Texts []Bytes `json:"texts"`
	// and those made of Pre and More pieces (if Pre is empty, of fewer too)
	Pre  Bytes   `json:"pre,omitempty"`
	Toks []Bytes `json:"toks,omitempty"`
	More int     `json:"more,omitempty"`
}

func (c *totalCase) each(f func(s string)) int {
	n := 0
	for _, t := range c.Texts {
		n++
		f(t.S())
	}
	var toks []string
	for _, t := range c.Toks {
		toks = append(toks, t.S())
	}
	var more func(s string, k int)
	more = func(s string, k int) {
		if k == 0 || len(c.Pre) == 0 {
			n++
			f(s)
		}
		if k > 0 {
			for _, t := range toks {
				more(s+t, k-1)
			}
		}
	}
	if len(toks) > 0 {
		more(c.Pre.S(), c.More)
	}
	return n
}

type scaleCase struct {
	Lang string `json:"lang"`
	Root []Node `json:"root"`
	A    Bytes  `json:"a"` // A*N + B + C*N
	B    Bytes  `json:"b"`
	C    Bytes  `json:"c"`
	N    int    `json:"n"`
}

func init() {
	suites["total"] = suite{genTotal, runTotal}
	suites["scale"] = suite{nil, runScale}
}

type totalRun struct {
	ctx   *ogdl.Graph
	root  func() *ogdl.Graph
	text  string
	small bool
	facts map[string]bool
	took  map[string]time.Duration
}

// One entry point
func (t *totalRun) do(name string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			t.facts["panic "+name+": "+fmt.Sprint(e)] = true
		}
	}()
	if t.took != nil {
		from := time.Now()
		defer func() { t.took[name] += time.Since(from) }()
	}
	f()
}

// Something that only reads the context
func (t *totalRun) read(name string, f func()) {
	before := ""
	same := t.small && !strings.Contains(t.text, "=") // an assignment within an index, say
	if same {
		before = fmt.Sprint(heapDump([]*ogdl.Graph{t.ctx}))
	}
	t.do(name, f)
	if same && fmt.Sprint(heapDump([]*ogdl.Graph{t.ctx})) != before {
		t.facts["changed "+name] = true
		t.ctx = t.root()
	}
}

// Something that may change the context, which must remain a tree
func (t *totalRun) write(name string, f func()) {
	t.ctx = t.root()
	t.do(name, f)
	if t.ctx != nil {
		t.whole(name, t.ctx)
	}
	t.ctx = t.root()
}

// g is a tree without nil nodes, and everything can be done with it.
func (t *totalRun) result(name string, v interface{}) {
	g, ok := v.(*ogdl.Graph)
	if !ok || g == nil {
		return
	}
	if !t.whole(name, g) {
		return
	}
	name += " result"
	if !t.small {
		t.do(name+" Clone", func() { g.Equals(g.Clone()) })
		t.do(name+" Binary", func() { ogdl.FromBinary(g.Binary()) })
		return
	}
	t.do(name+" Text", func() { ogdl.FromString(g.Text()); g.Show(); g.Html("a") })
	t.do(name+" JSON", func() { ogdl.FromJSON(g.JSON()) })
	t.do(name+" Binary", func() { ogdl.FromBinary(g.Binary()) })
	t.do(name+" Clone", func() { g.Equals(g.Clone()); g.Clone().Merge(g) })
	t.do(name+" values", func() {
		g.String()
		g.Bytes()
		g.Int64()
		g.Float64()
		g.Bool()
		g.Number()
		g.Scalar()
		g.Strings()
		g.StringCSV()
		g.StringTxt()
		g.Interface()
		g.Value()
		g.ThisNumber()
		g.ThisScalar()
		g.ThisType()
		g.ThisBytes()
		g.ThisInt64()
		g.ThisFloat64()
	})
	t.do(name+" Eval", func() { g.Get("a.b[0]"); g.Eval(ogdl.NewExpression("a+1")); g.Find("a") })
	t.do(name+" Check", func() { g.Check(g); g.Check(t.ctx); t.ctx.Check(g) })
	t.do(name+" Process", func() { g.Process(t.root()) })
	t.do(name+" eval", func() { t.root().Eval(g) })
}

func (t *totalRun) whole(name string, g *ogdl.Graph) bool {
	on := map[*ogdl.Graph]bool{}
	count := 0
	var walk func(*ogdl.Graph) string
	walk = func(n *ogdl.Graph) string {
		count++
		if n == nil {
			return "nil "
		}
		if on[n] {
			return "cycle "
		}
		if count > 4000000 {
			return "endless "
		}
		on[n] = true
		defer delete(on, n)
		for _, m := range n.Out {
			if s := walk(m); s != "" {
				return s
			}
		}
		return ""
	}
	if s := walk(g); s != "" {
		t.facts[s+name] = true
		return false
	}
	return true
}

func (t *totalRun) parse() {
	s := t.text
	t.do("FromString", func() { t.result("FromString", ogdl.FromString(s)) })
	t.do("FromStringTypes", func() { t.result("FromStringTypes", ogdl.FromStringTypes(s)) })
	t.do("FromReader", func() {
		t.result("FromReader", ogdl.FromReader(iotest.DataErrReader(iotest.OneByteReader(strings.NewReader(s)))))
	})
}

func (t *totalRun) run(lang string) {
	s := t.text
	var n interface{}
	switch lang {
	case "text":
		t.parse()
		if t.small {
			t.do("FromBytes", func() { ogdl.FromBytes([]byte(s)) })
			t.do("failing reader", func() {
				t.result("failing reader", ogdl.FromReader(io.MultiReader(strings.NewReader(s), iotest.ErrReader(io.ErrUnexpectedEOF))))
			})
			t.write("AddNodes", func() { t.ctx.AddNodes(ogdl.FromString(s)) })
			t.write("Merge", func() { t.ctx.Merge(ogdl.FromString(s)) })
			t.write("Copy", func() { t.ctx.Copy(ogdl.FromString(s)) })
		}
	case "schema":
		g := ogdl.FromString(s)
		t.read("Check", func() { g.Check(t.ctx) })
		t.read("Check", func() { t.ctx.Check(g) })
		t.read("Check itself", func() { g.Check(g) })
	case "path":
		t.do("NewPath", func() { n = ogdl.NewPath(s); t.result("NewPath", n) })
		if !t.small {
			t.do("Get", func() { t.result("Get", t.ctx.Get(s)) })
			t.do("Eval", func() { t.ctx.Eval(ogdl.NewPath(s)) })
			break
		}
		t.read("Get", func() { t.result("Get", t.ctx.Get(s)) })
		t.read("Get twice", func() { t.ctx.Get(s).Get(s) })
		t.read("Eval", func() { v, _ := t.ctx.Eval(ogdl.NewPath(s)); t.result("Eval", v) })
		t.read("GetString", func() { t.ctx.GetString(s); t.ctx.GetBytes(s) })
		t.read("GetInt64", func() { t.ctx.GetInt64(s); t.ctx.GetFloat64(s); t.ctx.GetBool(s) })
		t.read("Html", func() { t.ctx.Html(s) })
		t.read("Node", func() { t.result("Node", t.ctx.Node(s)) })
		t.write("Set", func() { t.result("Set", t.ctx.Set(s, "v")); t.ctx.Get(s) })
		t.write("Set nil", func() { t.ctx.Set(s, nil) })
		t.write("Set nil graph", func() { t.ctx.Set(s, (*ogdl.Graph)(nil)) })
		t.write("Set graph", func() { t.ctx.Set(s, t.ctx.Get(s)) })
		t.write("Set itself", func() { t.ctx.Set(s, t.ctx) })
		t.write("Set again", func() { t.ctx.Set(s, 1); t.ctx.Set(s, 2.5); t.ctx.Set(s, ogdl.New("x")) })
		t.write("Create", func() { t.ctx.Create(s) })
		t.write("NodeSet", func() { t.ctx.NodeSet(s, 1); t.ctx.NodeOrNew(s).Add("a"); t.ctx.Substitute(s, s); t.ctx.Delete(s) })
		t.write("Sort", func() { t.ctx.Sort(s); t.ctx.SortAsInt(s); t.ctx.SortAsString(s) })
	case "expr":
		t.do("NewExpression", func() { n = ogdl.NewExpression(s); t.result("NewExpression", n) })
		t.write("Eval", func() { v, _ := t.ctx.Eval(ogdl.NewExpression(s)); t.result("Eval", v) })
		if t.small {
			t.write("Eval twice", func() { e := ogdl.NewExpression(s); t.ctx.Eval(e); t.ctx.Eval(e) })
		}
	case "tmpl":
		t.do("NewTemplate", func() { t.result("NewTemplate", ogdl.NewTemplate(s)) })
		t.write("Process", func() { ogdl.NewTemplate(s).Process(t.ctx) })
		if t.small {
			t.write("Process twice", func() { p := ogdl.NewTemplateFromBytes([]byte(s)); p.Process(t.ctx); p.Process(t.ctx) })
		}
	case "nested": // a template that is only to be read
		t.do("NewTemplate", func() { t.result("NewTemplate", ogdl.NewTemplate(s)) })
	case "json":
		t.do("FromJSON", func() { g, _ := ogdl.FromJSON([]byte(s)); t.result("FromJSON", g) })
	case "xml":
		t.do("FromXML", func() { t.result("FromXML", gxml.FromXML([]byte(s))) })
		if t.small {
			t.do("Simplify", func() { g := gxml.FromXML([]byte(s)); gxml.Simplify(g); t.result("Simplify", g) })
		}
	case "bin":
		t.do("FromBinary", func() { t.result("FromBinary", ogdl.FromBinary([]byte(s))) })
		t.do("FromBinaryReader", func() {
			t.result("FromBinaryReader", ogdl.FromBinaryReader(iotest.OneByteReader(strings.NewReader(s))))
		})
		t.do("Log", func() { t.log(s) })
	case "find":
		t.read("Find", func() { g, _ := t.ctx.Find(s); t.result("Find", g) })
	case "lexer":
		t.lexer(s)
	default:
		fatal("language", lang)
	}
}

// s as a log file, and as an object of a log
func (t *totalRun) log(s string) {
	dir, err := os.MkdirTemp("", "ogdltotal")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "log")
	if os.WriteFile(name, []byte(s), 0600) != nil {
		fatal("cannot write", name)
	}
	l, err := ogdl.OpenLog(name)
	if err != nil {
		fatal(err)
	}
	defer l.Close()
	n := len(s) + 1
	if n > 12 {
		n = 12
	}
	for i := -1; i <= n; i++ {
		i := int64(i)
		t.do("Log.Get", func() { g, _, _ := l.Get(i); t.result("Log.Get", g) })
		t.do("Log.GetBinary", func() { l.GetBinary(i) })
	}
	t.do("Log.AddBinary", func() {
		p := l.AddBinary([]byte(s))
		l.Get(p)
		l.GetBinary(p)
	})
}

// Each of the lexer's and parser's own operations, until the text ends
func (t *totalRun) lexer(s string) {
	loop := func(name string, f func(p *ogdl.Parser)) {
		t.do(name, func() {
			p := ogdl.NewParser(bytes.NewReader([]byte(s)))
			for i := 0; i <= len(s); i++ {
				f(p)
				p.Byte()
			}
			t.result(name, p.Graph())
		})
	}
	loop("Quoted", func(p *ogdl.Parser) { p.Quoted(0) })
	loop("Block", func(p *ogdl.Parser) { p.Block(1) })
	loop("Scalar", func(p *ogdl.Parser) { p.Scalar(2) })
	loop("ScalarType", func(p *ogdl.Parser) { p.ScalarType(0) })
	loop("String", func(p *ogdl.Parser) { p.String() })
	loop("StringStop", func(p *ogdl.Parser) { p.StringStop([]byte("),")) })
	loop("Number", func(p *ogdl.Parser) { p.Number() })
	loop("Integer", func(p *ogdl.Parser) { p.Integer() })
	loop("Operator", func(p *ogdl.Parser) { p.Operator() })
	loop("TemplateText", func(p *ogdl.Parser) { p.TemplateText() })
	loop("Token8", func(p *ogdl.Parser) { p.Token8() })
	loop("Comment", func(p *ogdl.Parser) { p.Comment() })
	loop("SpaceMax", func(p *ogdl.Parser) { p.SpaceMax(1); p.Space(); p.WhiteSpace(); p.Break(); p.End() })
	loop("Rune", func(p *ogdl.Parser) {
		p.Rune()
		p.UnreadRune()
		p.PeekRune()
		p.PeekByte()
		p.UnreadByte()
		p.Byte()
	})
	loop("Args", func(p *ogdl.Parser) { p.Args(true) })
	loop("Args too", func(p *ogdl.Parser) { p.Args(false) })
	loop("ArgList", func(p *ogdl.Parser) { p.ArgList() })
	loop("Index", func(p *ogdl.Parser) { p.Index() })
	loop("Selector", func(p *ogdl.Parser) { p.Selector() })
	loop("Expression", func(p *ogdl.Parser) { p.Expression() })
	loop("UnaryExpression", func(p *ogdl.Parser) { p.UnaryExpression() })
	loop("Path", func(p *ogdl.Parser) { p.Path() })
	loop("Text", func(p *ogdl.Parser) { p.Text() })
	loop("Variable", func(p *ogdl.Parser) { p.Variable() })
	loop("Template", func(p *ogdl.Parser) { p.Template() })
	loop("Ogdl", func(p *ogdl.Parser) { p.Ogdl() })
	loop("OgdlTypes", func(p *ogdl.Parser) { p.OgdlTypes() })
}

type totalFact struct {
	T Bytes  `json:"t"`
	K string `json:"k"`
}

const slowText = 10 * time.Second
const longText = 2 * time.Second

func runTotal(raw json.RawMessage) interface{} {
	var c totalCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	log := &callLog{}
	root := func() *ogdl.Graph {
		if c.Nil {
			return nil
		}
		g := build(c.Root)
		log.bind(g)
		log.take()
		return g
	}
	facts := []totalFact{}
	n := c.each(func(s string) {
		t := &totalRun{ctx: root(), root: root, text: s, small: true, facts: map[string]bool{}}
		from := time.Now()
		t.run(c.Lang)
		if time.Since(from) > slowText {
			t.facts["slow"] = true
		}
		for k := range t.facts {
			if len(facts) < 20 {
				facts = append(facts, totalFact{B(s), k})
			}
		}
	})
	return M{"n": n, "facts": facts}
}

func runScale(raw json.RawMessage) interface{} {
	var c scaleCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	log := &callLog{}
	root := func() *ogdl.Graph {
		g := build(c.Root)
		log.bind(g)
		log.take()
		return g
	}
	run := func(n int) *totalRun {
		s := strings.Repeat(c.A.S(), n) + c.B.S() + strings.Repeat(c.C.S(), n)
		t := &totalRun{ctx: root(), root: root, text: s, facts: map[string]bool{}, took: map[string]time.Duration{}}
		t.run(c.Lang)
		return t
	}
	from := time.Now()
	t := run(c.N)
	if os.Getenv("SCALE_TIMES") != "" {
		fmt.Fprintf(os.Stderr, "%6d ms %s %q %q %q\n", time.Since(from).Milliseconds(), c.Lang, c.A.S(), c.B.S(), c.C.S())
	}
	// what takes long, and much more than eight times what an eighth takes, whenever it is tried
	if c.N >= 100000 {
		for k, took := range t.took {
			square := took > longText
			for again := 0; square && again < 2; again++ {
				square = took > 24*run(c.N / 8).took[k]
				if square {
					took = run(c.N).took[k]
					square = took > longText
				}
			}
			if square {
				t.facts["square "+k] = true
			}
		}
	}
	facts := []totalFact{}
	for k := range t.facts {
		facts = append(facts, totalFact{Bytes{}, k})
	}
	return M{"n": 1, "facts": facts}
}

// ------------------------------------------------------------- generator

// Texts of the other suites' generators, damaged. Numbers and products stay small: an index
// takes memory in proportion.
func genTotal(r *rand.Rand, n int, emit func(interface{})) {
	harvest := func(name string, n int, get func(raw []byte) []string) (l []string) {
		suites[name].gen(r, n, func(c interface{}) {
			b, _ := json.Marshal(c)
			l = append(l, get(b)...)
		})
		return
	}
	ops := func(kinds ...string) func(raw []byte) []string {
		return func(raw []byte) (l []string) {
			var c evalCase
			json.Unmarshal(raw, &c)
			for _, o := range c.Ops {
				for _, k := range kinds {
					if o.O == k {
						l = append(l, o.S.S())
					}
				}
			}
			return
		}
	}
	input := func(raw []byte) []string {
		var c struct{ T, Text Bytes }
		json.Unmarshal(raw, &c)
		return []string{c.T.S() + c.Text.S()}
	}
	m := n / 4
	pools := []struct {
		lang, alphabet string
		texts          []string
	}{
		{"text", "a \n\r\t,()\\\"'#\x00\xc3\xa9\xff!{1", harvest("text", m, input)},
		{"path", "a.[]{}()'\"\\01-_ ,\xc3\xff\x00", append(harvest("path", m, ops("get", "evalp")), harvest("set", m/4+1, ops("set"))...)},
		{"expr", "a.[]{}()'\"\\01-+*/%=<>!&| ,\xc3\xff\x00~^", append(harvest("expr", m/2+1, ops("eval")), append(harvest("set", m/4+1, ops("eval")), harvest("func", m/4+1, ops("eval"))...)...)},
		{"tmpl", "$a.[]{}()'\"\\01-+*/%=<>!&| ,\xc3\xff\x00\n", append(harvest("tmpl", m, ops("tmpl")), harvest("func", m/4+1, ops("tmpl"))...)},
		{"json", "{}[]:,\"\\au1-.e \n\xff\x00", harvest("json", m, input)},
		{"xml", "<>/=\"'&;#!?[]-a1 \n\xc3\xff\x00", harvest("xml", m, input)},
		{"schema", "a \n!ints,(){}1", harvest("text", m/4+1, input)},
		{"bin", "\x01G\x00\x02\x03\x04a\x7f\x80\xbf\xc0\xff", nil},
		{"find", "a.*+?()[]|\\^${}1,-\xff", []string{"a.*b", "(a|b)+c?", "[a-z]{2,3}", "^x\\d+$", "(?i)A", "\\pL+"}},
		{"lexer", "a.[]{}()'\"\\01-+*/%=<>!&| ,\xc3\xff\x00\n$", nil},
	}
	for i := 0; i < m; i++ {
		g := build(evRoot(r))
		pools[7].texts = append(pools[7].texts, string(g.Binary()))
	}
	for i := 0; i < 4; i++ {
		pools[9].texts = append(pools[9].texts, pools[i].texts...)
	}
	fine := func(lang, s string) bool {
		if len(s) > 3000 {
			return false
		}
		if lang != "path" && lang != "expr" && lang != "tmpl" {
			return true
		}
		run, stars := 0, 0
		for _, c := range []byte(s) {
			if c >= '0' && c <= '9' {
				run++
			} else {
				run = 0
			}
			if c == '*' {
				stars++
			}
			if run > 4 || stars > 2 || run > 0 && strings.Contains(s, "e+") {
				return false
			}
		}
		return true
	}
	evSmall = true
	for i := 0; i < n; i++ {
		p := pools[i%len(pools)]
		if len(p.texts) == 0 {
			continue
		}
		c := totalCase{Lang: p.lang, Root: evRoot(r), Nil: r.Intn(40) == 0, Texts: []Bytes{}}
		for k := 0; k < 12; k++ {
			s := pick(r, p.texts)
			if r.Intn(8) == 0 {
				s += pick(r, p.texts)
			}
			for j := r.Intn(4); j >= 0; j-- {
				s = mutate(r, s, p.alphabet)
			}
			if fine(p.lang, s) {
				c.Texts = append(c.Texts, B(s))
			}
		}
		emit(c)
	}
}
