package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"sync"

	"github.com/rveen/ogdl"
)

// Suite func: functions and objects in the context. A content of kind "k" names what is
// to be put there (see OgdlEval.tla): a function "f" params "_" result, the object "o", a
// remote function "r" or "re".

type callable string

type callArg struct {
	V Val    `json:"v"`
	N []Node `json:"n"`
}
type callRec struct {
	F Bytes     `json:"f"`
	A []callArg `json:"a"`
}
type callLog struct {
	sync.Mutex
	calls []callRec
}

func (l *callLog) take() []callRec {
	l.Lock()
	defer l.Unlock()
	c := l.calls
	l.calls = nil
	if c == nil {
		c = []callRec{}
	}
	return c
}

// The callables below g are put in place.
func (l *callLog) bind(g *ogdl.Graph) {
	if k, ok := g.This.(callable); ok {
		g.This = l.make(string(k))
	}
	for _, n := range g.Out {
		l.bind(n)
	}
}

var paramTypes = map[byte]reflect.Type{
	's': reflect.TypeOf(""), 'i': reflect.TypeOf(int64(0)), 'n': reflect.TypeOf(0), 'f': reflect.TypeOf(1.5), 'b': reflect.TypeOf(true),
	'y': reflect.TypeOf([]byte{}), 'g': reflect.TypeOf((*ogdl.Graph)(nil)), 'l': reflect.TypeOf([]string{}), 'v': reflect.TypeOf([]string{}),
	'a': reflect.TypeOf((*ogdl.Graph)(nil)), 'x': reflect.TypeOf((*ogdl.Graph)(nil)),
}

func (l *callLog) make(name string) interface{} {
	switch {
	case name == "o":
		return &object{l}
	case name == "r":
		return func(g *ogdl.Graph) (*ogdl.Graph, error) { l.called(name, g); return g, nil }
	case name == "re":
		return func(g *ogdl.Graph) (*ogdl.Graph, error) { l.called(name, g); return nil, fmt.Errorf("failed") }
	}
	var in, out []reflect.Type
	ps := name[1 : len(name)-2]
	for _, p := range []byte(ps) {
		in = append(in, paramTypes[p])
	}
	switch r := name[len(name)-1]; r {
	case 'z':
	case 't':
		out = append(out, paramTypes['s'], paramTypes['i'])
	default:
		out = append(out, paramTypes[r])
	}
	return reflect.MakeFunc(reflect.FuncOf(in, out, strings.HasSuffix(ps, "v")), func(args []reflect.Value) []reflect.Value {
		as := []interface{}{}
		for _, a := range args {
			as = append(as, a.Interface())
		}
		v := l.called(name, as...)
		if len(out) == 0 {
			return nil
		}
		vs := []reflect.Value{reflect.ValueOf(v)}
		if len(out) == 2 {
			vs = append(vs, reflect.ValueOf(int64(1)))
		}
		return vs
	}).Interface()
}

func flatOf(g *ogdl.Graph, l int, out []Node) []Node {
	out = append(out, Node{l, val(g.This)})
	for _, n := range g.Out {
		out = flatOf(n, l+1, out)
	}
	return out
}

// called records a call and returns what the function returns.
func (l *callLog) called(name string, args ...interface{}) interface{} {
	rec := callRec{F: B(name), A: []callArg{}}
	texts := []string{}
	for _, a := range args {
		ca := callArg{V: val(a), N: []Node{}}
		text := ""
		switch x := a.(type) {
		case []string:
			ca.V = Val{"l", Bytes{}, ""}
			for _, s := range x {
				ca.N = append(ca.N, Node{0, val(s)})
			}
			text = strings.Join(x, "+")
		case *ogdl.Graph:
			if x != nil {
				ca.N = flatOf(x, 0, ca.N)
				text = x.String()
			}
		case []byte:
			text = string(x)
		default:
			text = fmt.Sprint(x)
		}
		texts = append(texts, text)
		rec.A = append(rec.A, ca)
	}
	l.Lock()
	l.calls = append(l.calls, rec)
	l.Unlock()
	all := strings.Join(texts, "|")
	switch name[len(name)-1] {
	case 's', 't':
		return "r:" + all
	case 'y':
		return []byte(all)
	case 'i':
		return int64(len(all))
	case 'n':
		return len(all)
	case 'f':
		return float64(len(all)) / 4
	case 'b':
		return len(all)%2 == 0
	case 'g':
		g := ogdl.New("_")
		g.Add("n").Add(int64(len(all)))
		a := g.Add("a")
		for _, t := range texts {
			a.Add(t)
		}
		return g
	case 'a':
		return args[0]
	case 'x':
		return (*ogdl.Graph)(nil)
	}
	return nil
}

type object struct{ l *callLog }

func (o *object) M_s() string                    { return o.l.called("M_s").(string) }
func (o *object) Ms_s(a string) string           { return o.l.called("Ms_s", a).(string) }
func (o *object) Mi_i(a int64) int64             { return o.l.called("Mi_i", a).(int64) }
func (o *object) Mn_i(a int) int64               { return o.l.called("Mn_i", a).(int64) }
func (o *object) Mf_f(a float64) float64         { return o.l.called("Mf_f", a).(float64) }
func (o *object) Mb_b(a bool) bool               { return o.l.called("Mb_b", a).(bool) }
func (o *object) Ml_s(a []string) string         { return o.l.called("Ml_s", a).(string) }
func (o *object) My_y(a []byte) []byte           { return o.l.called("My_y", a).([]byte) }
func (o *object) Mg_a(a *ogdl.Graph) *ogdl.Graph { return o.l.called("Mg_a", a).(*ogdl.Graph) }
func (o *object) Mg_g(a *ogdl.Graph) *ogdl.Graph { return o.l.called("Mg_g", a).(*ogdl.Graph) }
func (o *object) Msif_g(a string, b int64, c float64) *ogdl.Graph {
	return o.l.called("Msif_g", a, b, c).(*ogdl.Graph)
}
func (o *object) Mv_s(a ...string) string { return o.l.called("Mv_s", a).(string) }
func (o *object) Msv_g(a string, b ...string) *ogdl.Graph {
	return o.l.called("Msv_g", a, b).(*ogdl.Graph)
}
func (o *object) Mis_t(a int64, b string) (string, int64) {
	return o.l.called("Mis_t", a, b).(string), 1
}
func (o *object) M_z()                            { o.l.called("M_z") }
func (o *object) Ms_x(a string) *ogdl.Graph       { return o.l.called("Ms_x", a).(*ogdl.Graph) }
func (o *object) Mbn_g(a bool, b int) *ogdl.Graph { return o.l.called("Mbn_g", a, b).(*ogdl.Graph) }

var methodNames = []string{"M_s", "Ms_s", "Mi_i", "Mn_i", "Mf_f", "Mb_b", "Ml_s", "My_y", "Mg_a", "Mg_g", "Msif_g", "Mv_s", "Msv_g", "Mis_t", "M_z", "Ms_x", "Mbn_g"}

// ------------------------------------------------------------- generator

type fnAt struct{ path, name string }

func fnParams(name string) string {
	return name[1 : len(name)-2]
}

// An expression of the kind of a parameter, most of the time.
func fnArg(r *rand.Rand, root []Node, fns []fnAt, p byte, method bool, depth int) string {
	if depth > 0 && r.Intn(5) == 0 {
		return fnCall(r, root, fns, p, depth-1)
	}
	if r.Intn(14) == 0 {
		return evExpr(r, root, 1, false)
	}
	if r.Intn(30) == 0 {
		return pick(r, []string{"zz", "zz.y", "1/0", "a[9]"})
	}
	if method && r.Intn(4) == 0 {
		return evPath(r, root, 0, false, true)
	}
	switch p {
	case 's':
		return pick(r, []string{"'x'", "\"two words\"", "''", "sv", "sv", "'a'+1", "d.sv", "'3'", "'true'", "sv._string", "'2.5'", "'5000000000'", "bigv"})
	case 'i':
		return pick(r, []string{"1", "iv", "-7", "2*3", "d.iv", "iv+1", "0", "1<<1", "7%4", "5000000000", "-3000000000", "'5000000000'", "bigv", "'-9223372036854775808'"})
	case 'n':
		return pick(r, []string{"lv._len", "d._len", "nv", "nv", "_len"})
	case 'f':
		return pick(r, []string{"1.5", "fv", "0.25+1", "-2.5", "fv*2", "5000000000.5", "'5000000000.25'"})
	case 'b':
		return pick(r, []string{"1==1", "bv", "!bv", "iv>2", "!(1==1)"})
	case 'y':
		return pick(r, []string{"yv", "yv", "d.yv"})
	case 'g', 'a', 'x':
		return pick(r, []string{"lv", "d", "d.tv", "lv._this", "d.tv[0]", "zz", "lv{}"})
	case 'l', 'v':
		return pick(r, []string{"lv", "lv._this", "d.tv", "d", "sv._this"})
	}
	return evExpr(r, root, 1, false)
}

func fnArgs(r *rand.Rand, root []Node, fns []fnAt, ps string, method bool, depth int) string {
	if r.Intn(10) == 0 {
		k := r.Intn(3)
		if k == 0 && len(ps) > 0 {
			ps = ps[:len(ps)-1]
		} else if k == 1 {
			ps += pick(r, []string{"s", "i", "g"})
		} else if len(ps) > 0 {
			ps = ps[:len(ps)-1] + pick(r, []string{"s", "i", "f", "b", "g", "n", "y"})
		}
	}
	as := []string{}
	for i := range ps {
		as = append(as, evSpace(r)+fnArg(r, root, fns, ps[i], method, depth)+evSpace(r))
	}
	return "(" + strings.Join(as, ",") + ")"
}

// A call, whose result is of the kind p if possible (0: any).
func fnCall(r *rand.Rand, root []Node, fns []fnAt, p byte, depth int) string {
	f := fns[r.Intn(len(fns))]
	for k := 0; p != 0 && k < 6 && f.name[len(f.name)-1] != p; k++ {
		f = fns[r.Intn(len(fns))]
	}
	s := f.path
	res := byte('g')
	switch {
	case f.name == "o":
		m := pick(r, methodNames)
		for k := 0; p != 0 && k < 6 && m[len(m)-1] != p; k++ {
			m = pick(r, methodNames)
		}
		res = m[len(m)-1]
		ps := fnParams(m)
		if r.Intn(12) == 0 {
			m = pick(r, []string{"No", "called", "M", "_len", "Ms"})
		}
		s += "." + m
		if len(ps) > 0 && r.Intn(12) > 0 || r.Intn(2) == 0 {
			s += fnArgs(r, root, fns, ps, true, depth)
		}
	case f.name[0] == 'r':
		s += "." + pick(r, []string{"m", "get", "x1"})
		if r.Intn(3) > 0 {
			s += fnArgs(r, root, fns, pick(r, []string{"", "s", "i", "g", "sif", "yb", "gg"}), false, depth)
		}
		if r.Intn(3) == 0 {
			s += pick(r, []string{".m", ".get", "[0]", ".m[1]", ".x1", "._len"})
		}
		return s
	default:
		res = f.name[len(f.name)-1]
		s += fnArgs(r, root, fns, fnParams(f.name), false, depth)
	}
	if strings.IndexByte("ga", res) >= 0 && r.Intn(3) == 0 {
		s += pick(r, []string{".a", ".n", ".a[0]", ".a[1]", "[0]", ".zz", "._len", ".a._len", ".a._string", ".n._this"})
	}
	return s
}

func genFunc(r *rand.Rand, n int, emit func(interface{})) {
	k := func(s string) Val { return Val{"k", B(s), ""} }
	for i := 0; i < n; i++ {
		evSmall = true
		c := evalCase{Root: []Node{}, Ops: []evalOp{}}
		fns := []fnAt{}
		add := func(l int, name string, vs ...interface{}) {
			c.Root = append(c.Root, Node{l, val(name)})
			for _, v := range vs {
				c.Root = append(c.Root, Node{l + 1, val(v)})
			}
		}
		vals := func(l int) {
			add(l, "sv", pick(r, []string{"text", "3", "true", "", "two words", "été"}))
			add(l, "iv", int64(r.Intn(9)-2))
			add(l, "nv", r.Intn(5))
			add(l, "fv", float64(r.Intn(9))/4)
			add(l, "bv", r.Intn(2) == 0)
			add(l, "yv", []byte("by"))
			add(l, "bigv", pick(r, []string{"5000000000", "-4294967297", "9223372036854775807", "4294967295"}))
		}
		callables := func(l int, prefix string) {
			for k1 := 1 + r.Intn(4); k1 > 0; k1-- {
				ps := ""
				for q := r.Intn(4); q > 0; q-- {
					ps += pick(r, []string{"s", "s", "i", "i", "n", "f", "b", "y", "g", "g"})
				}
				res := pick(r, []string{"s", "s", "i", "i", "n", "f", "b", "y", "g", "g", "z", "t", "x"})
				if ps != "" && ps[0] == 'g' && r.Intn(2) == 0 {
					res = "a"
				}
				name := "f" + ps + "_" + res
				if r.Intn(40) == 0 {
					name = "fv_s"
				}
				node := fmt.Sprintf("f%d", len(fns))
				c.Root = append(c.Root, Node{l, val(node)}, Node{l + 1, k(name)})
				if r.Intn(8) == 0 { // more than the function below the node
					add(l+1, "more", int64(1))
				}
				fns = append(fns, fnAt{prefix + node, name})
			}
			if r.Intn(3) > 0 {
				node := fmt.Sprintf("o%d", len(fns))
				c.Root = append(c.Root, Node{l, val(node)}, Node{l + 1, k("o")})
				fns = append(fns, fnAt{prefix + node, "o"})
			}
			if r.Intn(4) == 0 {
				node := fmt.Sprintf("r%d", len(fns))
				name := pick(r, []string{"r", "r", "re"})
				c.Root = append(c.Root, Node{l, val(node)}, Node{l + 1, k(name)})
				fns = append(fns, fnAt{prefix + node, name})
			}
		}
		if r.Intn(2) == 0 {
			vals(0)
		}
		callables(0, "")
		if r.Intn(2) == 0 {
			vals(0)
		}
		add(0, "lv", pick(r, []interface{}{"p", int64(4)}), "q", int64(2))
		add(0, "d")
		vals(1)
		add(1, "tv")
		add(2, "p", int64(1), "z")
		add(2, "q")
		if r.Intn(2) == 0 {
			callables(1, "d.")
		}
		if r.Intn(4) == 0 {
			add(0, "e")
			add(1, "e")
			callables(2, "e.e.")
		}
		op := func(o, s string) {
			c.Ops = append(c.Ops, evalOp{O: o, S: B(s), P: Bytes{}, V: val(nil), N: []Node{}})
		}
		for k1 := 3 + r.Intn(5); k1 > 0; k1-- {
			call := func() string { return fnCall(r, c.Root, fns, 0, 2) }
			switch r.Intn(12) {
			case 0:
				op("get", call())
			case 1:
				op("evalp", call())
			case 2:
				op("eval", "v"+pick(r, []string{"=", "=", "+="})+call())
			case 3:
				op("eval", call()+pick(r, evOps)+call())
			case 4:
				op("eval", pick(r, []string{"-", "!", "(", "1+(", "'x'+", "2*"})+call())
				if o := &c.Ops[len(c.Ops)-1]; strings.Contains(o.S.S()[:3], "(") && o.S.S()[0] != '!' {
					o.S = append(o.S, ')')
				}
			case 5:
				op("tmpl", "a $"+call()+"; "+"$"+call()+"\n")
			case 6:
				op("tmpl", "$if("+fnCall(r, c.Root, fns, 'b', 1)+")yes$else no$end\n")
			case 7:
				op("tmpl", "$for(x1,"+fnCall(r, c.Root, fns, 'g', 1)+")$x1-$"+call()+"$end.")
			case 8:
				op("tmpl", "$(w="+call()+")$w.")
			default:
				op("eval", call())
			}
		}
		emit(c)
	}
}

func init() {
	suites["func"] = suite{genFunc, runEval}
}
