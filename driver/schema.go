package main

import (
	"encoding/json"
	"math/rand"

	"github.com/rveen/ogdl"
)

// Suite check: trees checked against schemas.
type checkCase struct {
	Schema []Node `json:"schema"`
	Tree   []Node `json:"tree"`
	SNil   bool   `json:"snil"`
	TNil   bool   `json:"tnil"`
}

func init() {
	suites["check"] = suite{genCheck, runCheck}
}

func runCheck(raw json.RawMessage) interface{} {
	var c checkCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	var s, x *ogdl.Graph
	if !c.SNil {
		s = build(c.Schema)
	}
	if !c.TNil {
		x = build(c.Tree)
	}
	ok, msg := s.Check(x)
	ok2, msg2 := s.Check(x)
	return M{"ok": ok, "msg": B(msg), "ok2": ok2, "msg2": B(msg2), "d": heapDump([]*ogdl.Graph{s, x})}
}

var schemaTypes = []string{"!int", "!float", "!bool", "!string", "!binary"}

// A schema of a tree, and the tree after some changes.
func genCheck(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		c := checkCase{Tree: evRoot(r), Schema: []Node{}, SNil: r.Intn(200) == 0, TNil: r.Intn(200) == 0}
		for j := range c.Tree {
			if r.Intn(4) == 0 {
				c.Tree[j].V = accessVal(r)
			}
			n := c.Tree[j]
			if r.Intn(3) > 0 || n.V.T == "n" {
				n.V = val(n.V.B.S())
			}
			fits := []string{}
			switch c.Tree[j].V.T {
			case "i":
				fits = []string{"!int", "!float", "!bool"}
			case "f":
				fits = []string{"!float", "!int"}
			case "o":
				fits = []string{"!bool"}
			case "b":
				fits = []string{"!binary"}
			case "s":
				fits = []string{"!string"}
			}
			if len(fits) > 0 && r.Intn(2) == 0 {
				n.V = val(pick(r, fits))
			}
			if r.Intn(25) == 0 {
				n.V = val(pick(r, append(schemaTypes, "!x", "!", "*", "! int")))
			}
			c.Schema = append(c.Schema, n)
		}
		cut := func(ns []Node) []Node { // without the last node, or with one more
			switch r.Intn(6) {
			case 0:
				if len(ns) > 0 {
					ns = ns[:len(ns)-1]
				}
			case 1:
				l := 0
				if len(ns) > 0 {
					l = r.Intn(ns[len(ns)-1].L + 2)
				}
				ns = append(ns, Node{l, accessVal(r)})
			case 2:
				if len(ns) > 0 {
					ns[r.Intn(len(ns))].V = accessVal(r)
				}
			}
			return ns
		}
		c.Tree = cut(c.Tree)
		if r.Intn(3) == 0 {
			c.Schema = cut(c.Schema)
		}
		if c.SNil {
			c.Schema = []Node{}
		}
		if c.TNil {
			c.Tree = []Node{}
		}
		emit(c)
	}
}
