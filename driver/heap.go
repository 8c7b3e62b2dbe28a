package main

import (
	"encoding/json"
	"math/rand"

	"github.com/rveen/ogdl"
)

// Suite heap: sequences of editing operations over registers that hold trees
// (or nil). Suite equal: pairs of trees, compared, cloned, copied.
type heapOp struct {
	O string `json:"o"`
	X int    `json:"x"` // registers from 1; 0 none
	Y int    `json:"y"`
	Z int    `json:"z"` // register that gets the node returned
	S Bytes  `json:"s"`
	V Val    `json:"v"`
	I int    `json:"i"`
}
type heapCase struct {
	Regs int      `json:"regs"`
	Ops  []heapOp `json:"ops"`
}
type heapNode struct {
	V Val   `json:"v"`
	O []int `json:"o"`
}

func init() {
	suites["heap"] = suite{genHeap, runHeap}
	suites["equal"] = suite{genEqual, runEqual}
}

// heapDump numbers the nodes that can be reached in the order in which they are found.
func heapDump(regs []*ogdl.Graph) M {
	num := map[*ogdl.Graph]int{}
	order := []*ogdl.Graph{}
	var walk func(g *ogdl.Graph)
	walk = func(g *ogdl.Graph) {
		if g == nil || num[g] != 0 {
			return
		}
		order = append(order, g)
		num[g] = len(order)
		for _, n := range g.Out {
			walk(n)
		}
	}
	for _, g := range regs {
		walk(g)
	}
	rs := []int{}
	for _, g := range regs {
		rs = append(rs, num[g])
	}
	ns := []heapNode{}
	if len(order) > 20000 { // too big to be compared
		return M{"r": rs, "n": ns, "big": true}
	}
	for _, g := range order {
		o := []int{}
		for _, n := range g.Out {
			o = append(o, num[n])
		}
		ns = append(ns, heapNode{val(g.This), o})
	}
	return M{"r": rs, "n": ns}
}

func reaches(from, to *ogdl.Graph, seen map[*ogdl.Graph]bool) bool {
	if from == nil || seen[from] {
		return false
	}
	if from == to {
		return true
	}
	seen[from] = true
	for _, n := range from.Out {
		if reaches(n, to, seen) {
			return true
		}
	}
	return false
}

func overlap(a, b *ogdl.Graph) bool {
	all := map[*ogdl.Graph]bool{}
	reaches(b, nil, all)
	for n := range all {
		if reaches(a, n, map[*ogdl.Graph]bool{}) {
			return true
		}
	}
	return false
}

func unfolded(g *ogdl.Graph) int {
	if g == nil {
		return 0
	}
	n := 1
	for _, c := range g.Out {
		n += unfolded(c)
		if n > 1000 {
			return n
		}
	}
	return n
}

// An operation that makes a cycle leaves nothing that can be looked at.
func cycle(x, y *ogdl.Graph, o heapOp) bool {
	if x == nil || y == nil {
		return false
	}
	in := func(a, b *ogdl.Graph) bool { return reaches(b, a, map[*ogdl.Graph]bool{}) }
	switch o.O {
	case "addg":
		return in(x, y)
	case "addnodes":
		for _, n := range y.Out {
			if in(x, n) {
				return true
			}
		}
	case "nodesetg":
		for _, n := range x.Out {
			if n.ThisString() == o.S.S() {
				return in(n, y)
			}
		}
		return in(x, y)
	case "merge":
		return overlap(x, y)
	}
	return false
}

func runHeap(raw json.RawMessage) interface{} {
	var c heapCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	regs := make([]*ogdl.Graph, c.Regs)
	steps := []M{}
	for _, o := range c.Ops {
		var x, y, z *ogdl.Graph
		if o.X > 0 {
			x = regs[o.X-1]
		}
		if o.Y > 0 {
			y = regs[o.Y-1]
		}
		if cycle(x, y, o) {
			steps = append(steps, M{"skip": "cycle", "res": 0, "d": heapDump(regs)})
			continue
		}
		if unfolded(x)+unfolded(y) > 150 {
			steps = append(steps, M{"skip": "big", "res": 0, "d": heapDump(regs)})
			continue
		}
		res := 0
		s, v := o.S.S(), o.V.Go()
		switch o.O {
		case "new":
			z = ogdl.New(v)
		case "nil":
		case "add":
			z = x.Add(v)
		case "addg":
			z = x.Add(y)
		case "addnodes":
			z = x.AddNodes(y)
		case "node":
			z = x.Node(s)
		case "nodeornew":
			z = x.NodeOrNew(s)
		case "nodeset":
			z = x.NodeSet(s, v)
		case "nodesetg":
			z = x.NodeSet(s, y)
		case "create":
			z = x.Create(s)
		case "getat":
			z = x.GetAt(o.I)
		case "delete":
			x.Delete(v)
		case "deleteat":
			x.DeleteAt(o.I)
		case "clear":
			x.Clear()
		case "copy":
			x.Copy(y)
		case "clone":
			z = x.Clone()
		case "merge":
			x.Merge(y)
		case "subst":
			x.Substitute(s, v)
		case "len":
			res = x.Len()
		case "equals":
			if x.Equals(y) {
				res = 1
			}
		default:
			fatal("operation", o.O)
		}
		if o.Z > 0 {
			regs[o.Z-1] = z
		}
		steps = append(steps, M{"skip": "", "res": res, "d": heapDump(regs)})
	}
	return M{"steps": steps}
}

var heapOps = []string{"new", "nil", "add", "add", "add", "add", "add", "addg", "addg", "addg", "addnodes", "addnodes", "node", "nodeornew", "nodeornew", "nodeset", "nodesetg",
	"create", "getat", "getat", "delete", "delete", "deleteat", "deleteat", "clear", "copy", "copy", "clone", "clone", "merge", "merge", "subst", "len", "equals"}

func heapVal(r *rand.Rand) Val {
	switch r.Intn(12) {
	case 0:
		return val(int64(r.Intn(3)))
	case 1:
		return val(r.Intn(3))
	case 2:
		return val([]byte(pick(r, []string{"a", "b", ""})))
	case 3:
		return val(r.Intn(2) == 0)
	case 4:
		return val(nil)
	case 5:
		return val(pick(r, []string{"0", "1", "true", ""}))
	}
	return val(pick(r, []string{"a", "b", "c", "d"}))
}

func genHeap(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		c := heapCase{Regs: 2 + r.Intn(4)}
		reg := func() int { return 1 + r.Intn(c.Regs) }
		ops := 6 + r.Intn(20)
		if i%20 == 0 {
			ops = 60
		}
		wide := i%25 == 7 // nodes with many subnodes
		if wide {
			ops = 40
		}
		for k := 1; k <= c.Regs; k++ {
			if r.Intn(8) > 0 {
				c.Ops = append(c.Ops, heapOp{O: "new", Z: k, S: Bytes{}, V: heapVal(r)})
			}
		}
		for k := 0; k < ops; k++ {
			o := heapOp{O: pick(r, heapOps), X: reg(), Y: reg(), S: B(pick(r, []string{"a", "b", "c", "d", "1", "true", ""})), V: heapVal(r), I: r.Intn(6) - 1}
			if wide {
				o.I = r.Intn(24) - 1
				if r.Intn(3) > 0 || o.O == "clear" {
					o.O, o.X = pick(r, []string{"add", "add", "addnodes"}), 1+r.Intn(2)
				}
			} else if r.Intn(3) == 0 {
				o.Z = reg()
			}
			if (o.O == "nil" || o.O == "new") && r.Intn(3) > 0 {
				o.O = "add"
			}
			switch o.O {
			case "new", "nil", "getat", "clone", "node":
				o.Z = reg()
			case "delete", "deleteat", "clear", "copy", "merge", "subst", "len", "equals":
				o.Z = 0
			}
			c.Ops = append(c.Ops, o)
		}
		emit(c)
	}
}

type equalCase struct {
	A    []Node `json:"a"`
	VA   Val    `json:"va"`
	B    []Node `json:"b"`
	VB   Val    `json:"vb"`
	Edit int    `json:"edit"` // node of the clone that is changed after cloning
}

func runEqual(raw json.RawMessage) interface{} {
	var c equalCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	a, b := build(c.A), build(c.B)
	a.This, b.This = c.VA.Go(), c.VB.Go()
	k := a.Clone()
	d := ogdl.New("d")
	d.Add("first")
	d.Copy(a)
	r := M{"ab": a.Equals(b), "ba": b.Equals(a), "aa": a.Equals(a), "ak": a.Equals(k), "clone": tree(k), "copy": tree(d)}
	// Change the clone, then the original, all over
	var all func(g *ogdl.Graph) []*ogdl.Graph
	all = func(g *ogdl.Graph) []*ogdl.Graph {
		l := []*ogdl.Graph{g}
		for _, n := range g.Out {
			l = append(l, all(n)...)
		}
		return l
	}
	ns := all(k)
	g := ns[c.Edit%len(ns)]
	g.This = "changed"
	g.Add("added")
	r["a1"] = tree(a)
	ns = all(a)
	g = ns[c.Edit%len(ns)]
	g.This = "other"
	if len(g.Out) > 0 {
		g.DeleteAt(0)
	}
	for _, n := range all(a) {
		n.Add("more")
	}
	r["k1"], r["d1"] = tree(k), tree(d)
	return r
}

func equalVal(r *rand.Rand) Val {
	switch r.Intn(16) {
	case 0:
		return val(int64(r.Intn(2)))
	case 1:
		return val(r.Intn(2))
	case 2:
		return val([]byte(pick(r, []string{"a", "0", "", "1"})))
	case 3:
		return val(r.Intn(2) == 0)
	case 4:
		return val(nil)
	case 5:
		return val(float64(r.Intn(2)))
	case 6:
		return val(pick(r, []string{"0", "1", "true", "", "a ", "A", "é"}))
	case 7:
		return val(uint8(r.Intn(2)))
	case 8:
		return val(float32(r.Intn(2)))
	case 9:
		return val(int32(r.Intn(2)))
	}
	return val(pick(r, []string{"a", "b", "c"}))
}

func genEqual(r *rand.Rand, n int, emit func(interface{})) {
	v := func(int) Val { return equalVal(r) }
	for i := 0; i < n; i++ {
		size := r.Intn(8)
		if i%100 == 0 {
			size = 100
		}
		a := genTree(r, size, 6, v)
		b := append([]Node{}, a...)
		c := equalCase{A: a, VA: equalVal(r), Edit: r.Intn(size + 1)}
		c.VB = c.VA
		switch r.Intn(8) {
		case 0: // the same
		case 1:
			b = genTree(r, r.Intn(8), 6, v)
		case 2:
			c.VB = equalVal(r)
		case 3, 4: // other content, or another type
			if len(b) > 0 {
				b[r.Intn(len(b))].V = equalVal(r)
			}
		case 5: // another level
			if len(b) > 1 {
				k := 1 + r.Intn(len(b)-1)
				b[k].L = r.Intn(b[k-1].L + 2)
				for k++; k < len(b); k++ {
					if b[k].L > b[k-1].L+1 {
						b[k].L = b[k-1].L + 1
					}
				}
			}
		case 6: // shorter
			if len(b) > 0 {
				b = b[:r.Intn(len(b))]
			}
		case 7: // swapped
			if len(b) > 1 {
				k := r.Intn(len(b) - 1)
				b[k].V, b[k+1].V = b[k+1].V, b[k].V
			}
		}
		c.B = b
		emit(c)
	}
}
