package main

import (
	"encoding/json"
	"fmt"
	"math/rand"

	"github.com/rveen/ogdl"
)

// Suite sort: some operations on a tree, then its node at a path is sorted, twice.
type sortCase struct {
	Root  []Node   `json:"root"`
	Ops   []evalOp `json:"ops"`
	At    Bytes    `json:"at"` // "" is the root
	Field Bytes    `json:"field"`
	Kind  string   `json:"kind"`
}

func init() {
	suites["sort"] = suite{genSort, runSort}
}

func runSort(raw json.RawMessage) interface{} {
	var c sortCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	root := build(c.Root)
	for i, o := range c.Ops {
		evalDo(root, i, o)
	}
	x := root
	if len(c.At) > 0 {
		x = root.Get(c.At.S())
	}
	before := []*ogdl.Graph{}
	if x != nil {
		before = append(before, x.Out...)
	}
	rounds := []M{}
	for k := 0; k < 2; k++ {
		switch f := c.Field.S(); c.Kind {
		case "int":
			x.SortAsInt(f)
		case "string":
			x.SortAsString(f)
		default:
			x.Sort(f)
		}
		order := []int{}
		if x != nil {
			for _, n := range x.Out {
				at := 0
				for i, b := range before {
					if b == n {
						at = i + 1
					}
				}
				order = append(order, at)
			}
		}
		rounds = append(rounds, M{"order": order, "d": heapDump([]*ogdl.Graph{root, x})})
	}
	return M{"rounds": rounds}
}

func genSort(r *rand.Rand, n int, emit func(interface{})) {
	evSmall = true
	for i := 0; i < n; i++ {
		c := sortCase{Root: []Node{}, Ops: []evalOp{}, Kind: pick(r, []string{"", "string", "int", "int"})}
		field := pick(r, []string{"k", "k", "a.k", "k[0]", "k[1]", "a{}", "k.b", "name", "'two words'", ""})
		in := 0
		if r.Intn(3) > 0 {
			c.At = B("t")
			c.Root = append(c.Root, Node{0, val("t")})
			in = 1
		} else {
			c.At = Bytes{}
		}
		key := func() Val {
			switch r.Intn(5) {
			case 0:
				return accessVal(r)
			case 1:
				return val(pick(r, []string{"a", "b", "ab", "B", "é", "10", "9", "-1", " 1", ""}))
			}
			return evVal(r, r.Intn(3) > 0)
		}
		if r.Intn(12) > 0 {
			for m := r.Intn(7) * (1 + r.Intn(6)/5*4); m > 0; m-- { // records
				c.Root = append(c.Root, Node{in, evVal(r, false)})
				if r.Intn(8) == 0 {
					continue // without the field
				}
				l := in + 1
				switch field {
				case "a.k", "a{}":
					c.Root = append(c.Root, Node{l, val("a")})
					l++
				}
				if r.Intn(4) == 0 {
					c.Root = append(c.Root, Node{l, val("z")}, Node{l + 1, key()})
				}
				name := "k"
				if field == "name" || field == "'two words'" {
					name = map[string]string{"name": "name", "'two words'": "two words"}[field]
				}
				c.Root = append(c.Root, Node{l, val(name)})
				for q := 1 + r.Intn(6)/5 - r.Intn(9)/8; q > 0; q-- {
					if field == "k.b" {
						c.Root = append(c.Root, Node{l + 1, val("b")}, Node{l + 2, key()})
					} else {
						c.Root = append(c.Root, Node{l + 1, key()})
					}
				}
			}
		} else {
			c.Root, c.At = evRoot(r), Bytes{}
			field = evPath(r, c.Root, 1, false, false)
		}
		c.Field = B(field)
		for k := r.Intn(3); k > 0; k-- {
			o := evalOp{O: "setp", S: B(pick(r, []string{"u", "v.w", "t", "s.t"})), P: c.At, V: val(nil), N: []Node{}}
			if len(c.At) == 0 || r.Intn(3) == 0 {
				o.O, o.P, o.V = "set", Bytes{}, val(fmt.Sprint(r.Intn(9)))
				o.S = B(pick(r, []string{"u", "t.x.k", "x.k", "y.a.k"}))
			}
			c.Ops = append(c.Ops, o)
		}
		if r.Intn(60) == 0 {
			c.At = B("missing")
		}
		emit(c)
	}
}
