package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/rveen/ogdl"
)

// Suite share: parsed programs evaluated again and again, in several contexts, alone and
// by several goroutines; and trees that are read by several goroutines.
type shareProg struct {
	K string `json:"k"` // path expr tmpl
	S Bytes  `json:"s"`
}
type shareRead struct {
	O string `json:"o"`
	S Bytes  `json:"s"` // path or regular expression
	C int    `json:"c"` // another tree
}
type shareCase struct {
	Roots   [][]Node    `json:"roots"`
	Progs   []shareProg `json:"progs"`
	Order   [][]int     `json:"order"` // (program, root)
	Reads   []shareRead `json:"reads"`
	Threads int         `json:"threads"`
}

func init() {
	suites["share"] = suite{genShare, runShare}
}

func parseProg(p shareProg) *ogdl.Graph {
	switch p.K {
	case "path":
		return ogdl.NewPath(p.S.S())
	case "expr":
		return ogdl.NewExpression(p.S.S())
	}
	return ogdl.NewTemplate(p.S.S())
}

// What was returned, to be looked at again later
type keeper struct {
	sync.Mutex
	got  [][]byte
	said []string
}

var kept *keeper

func keep(b []byte) []byte {
	kept.Lock()
	defer kept.Unlock()
	if len(kept.got) < 1000 {
		kept.got = append(kept.got, b)
		kept.said = append(kept.said, string(b))
	}
	return b
}
func (k *keeper) same() bool {
	for i, b := range k.got {
		if string(b) != k.said[i] {
			return false
		}
	}
	return true
}

// What an evaluation does: the value, its tree if it is one, the text of a template,
// what the context is afterwards.
func evalProg(k string, p, root *ogdl.Graph) M {
	var v interface{}
	var err error
	var g *ogdl.Graph
	text := ""
	if k == "tmpl" {
		text = string(keep(p.Process(root)))
	} else {
		v, err = root.Eval(p)
		g, _ = v.(*ogdl.Graph)
	}
	return M{"v": val(v), "err": err != nil, "text": B(text), "calls": []callRec{}, "d": heapDump([]*ogdl.Graph{root, g}), "len": g.Len(), "str": B(g.String("dflt"))}
}

func doRead(g *ogdl.Graph, others []*ogdl.Graph, r shareRead) (m M) {
	s := r.S.S()
	m = M{}
	tree := func(x *ogdl.Graph) { m["d"] = heapDump([]*ogdl.Graph{x}) }
	switch r.O {
	case "get":
		tree(g.Get(s))
	case "eval":
		v, err := g.Eval(ogdl.NewPath(s))
		x, _ := v.(*ogdl.Graph)
		m["v"], m["err"] = val(v), fmt.Sprint(err)
		tree(x)
	case "scalar":
		v, e1 := g.GetString(s)
		i, e2 := g.GetInt64(s)
		f, e3 := g.GetFloat64(s)
		b, e4 := g.GetBool(s)
		y, e5 := g.GetBytes(s)
		m["x"] = fmt.Sprint(v, i, f, b, y, e1, e2, e3, e4, e5)
	case "values":
		x := g.Get(s)
		m["x"] = fmt.Sprint(x.String("d"), x.Int64(1), x.Float64(2), x.Bool(true), x.Number(), x.Scalar(), x.Strings(), x.Bytes(), x.StringCSV(), x.StringTxt(), x.Len(),
			x.ThisString(), x.ThisType(), x.ThisNumber(), x.ThisScalar(), x.ThisBytes())
	case "text":
		m["x"] = B(g.Text() + "\x00" + g.Show())
	case "binary":
		m["x"] = B(string(keep(g.Binary())))
	case "json":
		m["x"] = B(string(keep(g.JSON())))
	case "clone":
		c := g.Clone()
		tree(c)
		m["x"] = fmt.Sprint(g.Equals(c), c.Equals(g))
	case "equals":
		m["x"] = fmt.Sprint(g.Equals(others[r.C]), others[r.C].Equals(g))
	case "check":
		ok, msg := g.Check(others[r.C])
		ok2, msg2 := others[r.C].Check(g)
		m["x"] = fmt.Sprint(ok, msg, ok2, msg2)
	case "find":
		x, err := g.Find(s)
		m["err"] = fmt.Sprint(err)
		tree(x)
	case "data": // every node is evaluated, as the constant or object that it is
		x := []M{}
		var all func(n *ogdl.Graph)
		all = func(n *ogdl.Graph) {
			for _, k := range n.Out {
				if len(x) < 40 && k != nil && !strings.HasPrefix(k.ThisString(), "!") {
					v, err := g.Eval(k)
					x = append(x, M{"v": val(v), "err": fmt.Sprint(err)})
					all(k)
				}
			}
		}
		all(g)
		m["x"] = x
	case "node":
		tree(g.Node(s))
		m["x"] = fmt.Sprint(g.GetAt(r.C) == nil, g.Html(s))
	default:
		fatal("read", r.O)
	}
	return m
}

// The different outcomes of one thing
type outcomes struct {
	sync.Mutex
	seen map[string]bool
	list []M
}

func (o *outcomes) add(m M) {
	b, err := json.Marshal(m)
	if err != nil {
		fatal(err)
	}
	o.Lock()
	defer o.Unlock()
	if o.seen == nil {
		o.seen = map[string]bool{}
	}
	if !o.seen[string(b)] && len(o.list) < 3 {
		o.seen[string(b)] = true
		o.list = append(o.list, m)
	}
}

func parallel(n int, f func(t int)) {
	var wg sync.WaitGroup
	gate := make(chan bool)
	fail := make(chan interface{}, n)
	for t := 0; t < n; t++ {
		t := t
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					fail <- e
				}
			}()
			<-gate
			f(t)
		}()
	}
	close(gate)
	wg.Wait()
	select {
	case e := <-fail:
		panic(e)
	default:
	}
}

func runShare(raw json.RawMessage) interface{} {
	var c shareCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	kept = &keeper{}
	n := len(c.Roots)
	outs := make([]outcomes, len(c.Progs)*n)
	at := func(pc []int) *outcomes { return &outs[(pc[0]-1)*n+pc[1]-1] }
	key := func(pc []int) string { return c.Progs[pc[0]-1].K }

	// each alone
	for p := range c.Progs {
		for r := range c.Roots {
			outs[p*n+r].add(evalProg(c.Progs[p].K, parseProg(c.Progs[p]), build(c.Roots[r])))
		}
	}
	// again and again
	shared := []*ogdl.Graph{}
	fresh := []*ogdl.Graph{}
	for _, p := range c.Progs {
		shared = append(shared, parseProg(p))
		fresh = append(fresh, parseProg(p))
	}
	before := heapDump(shared)
	for _, pc := range c.Order {
		at(pc).add(evalProg(key(pc), shared[pc[0]-1], build(c.Roots[pc[1]-1])))
	}
	after := heapDump(shared)
	// by several
	parallel(c.Threads, func(t int) {
		for i := range c.Order {
			pc := c.Order[(i*(2*t+1)+t)%len(c.Order)]
			at(pc).add(evalProg(key(pc), fresh[pc[0]-1], build(c.Roots[pc[1]-1])))
		}
	})
	shared = append(shared, fresh...)
	after2 := heapDump(fresh)

	// trees that are read by all
	trees := func() (l []*ogdl.Graph) {
		for _, r := range c.Roots {
			l = append(l, build(r))
		}
		return
	}
	reads := make([]outcomes, len(c.Reads)*n)
	for i, r := range c.Reads {
		for k := 0; k < n; k++ {
			ts := trees()
			reads[i*n+k].add(doRead(ts[k], ts, r))
		}
	}
	all := trees()
	tree0 := heapDump(all)
	// programs that only read, too
	quiet := []int{}
	for i, p := range c.Progs {
		if s := p.S.S(); !strings.Contains(s, "=") && !strings.Contains(s, "$for") {
			quiet = append(quiet, i)
		}
	}
	parallel(c.Threads, func(t int) {
		for j := 0; j < len(reads); j++ {
			i := (j*(2*t+1) + t) % len(reads)
			reads[i].add(doRead(all[i%n], all, c.Reads[i/n]))
			if len(quiet) > 0 {
				p := quiet[j%len(quiet)]
				outs[p*n+i%n].add(evalProg(c.Progs[p].K, fresh[p], all[i%n]))
			}
		}
	})
	os := [][]M{}
	for i := range outs {
		os = append(os, outs[i].list)
	}
	rs := []int{}
	odd := []M{}
	for i := range reads {
		rs = append(rs, len(reads[i].list))
		if len(reads[i].list) > 1 {
			odd = append(odd, M{"read": c.Reads[i/n], "root": i%n + 1, "outcomes": reads[i].list})
		}
	}
	return M{"outs": os, "before": before, "after": after, "after2": after2, "reads": rs, "odd": odd, "kept": kept.same(), "same": fmt.Sprint(tree0) == fmt.Sprint(heapDump(all))}
}

func genShare(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		evSmall = true
		c := shareCase{Roots: [][]Node{}, Progs: []shareProg{}, Order: [][]int{}, Reads: []shareRead{}, Threads: 2 + r.Intn(4)}
		for k := 1 + r.Intn(3); k > 0; k-- {
			c.Roots = append(c.Roots, evRoot(r))
		}
		for k := 1 + r.Intn(4); k > 0; k-- {
			root := pick2(r, c.Roots)
			switch r.Intn(5) {
			case 0:
				c.Progs = append(c.Progs, shareProg{"path", B(evPath(r, root, 2, false, false))})
			case 1:
				c.Progs = append(c.Progs, shareProg{"expr", B(evExpr(r, root, 1+r.Intn(3), false))})
			case 2:
				c.Progs = append(c.Progs, shareProg{"expr", B(evAssign(r, root))})
			default:
				c.Progs = append(c.Progs, shareProg{"tmpl", B(evTemplate(r, root, r.Intn(3), 1+r.Intn(5), nil))})
			}
		}
		for k := 2 + r.Intn(8); k > 0; k-- {
			c.Order = append(c.Order, []int{1 + r.Intn(len(c.Progs)), 1 + r.Intn(len(c.Roots))})
		}
		for k := r.Intn(6); k > 0; k-- {
			o := pick(r, []string{"get", "eval", "scalar", "values", "text", "binary", "json", "clone", "equals", "check", "find", "node", "data"})
			rd := shareRead{O: o, S: Bytes{}, C: r.Intn(len(c.Roots))}
			switch o {
			case "get", "eval", "scalar", "values":
				rd.S = B(evPath(r, pick2(r, c.Roots), 1, false, false))
			case "find":
				rd.S = B(pick(r, []string{"a", "^.$", "[a-m]", "\\d+", "x|y", "(", ""}))
			case "node":
				rd.S = B(pick(r, evNames))
			}
			c.Reads = append(c.Reads, rd)
		}
		emit(c)
	}
}

func pick2(r *rand.Rand, l [][]Node) []Node { return l[r.Intn(len(l))] }
