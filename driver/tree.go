package main

import (
	"fmt"
	"strconv"

	"github.com/rveen/ogdl"
)

// Bytes are sequences of numbers in the traces: the specification has no
// other notion of text.
type Bytes []int

func B(s string) Bytes {
	r := make(Bytes, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = int(s[i])
	}
	return r
}

func (b Bytes) S() string {
	r := make([]byte, len(b))
	for i, c := range b {
		r[i] = byte(c)
	}
	return string(r)
}

// Val is the content of a node (or any value returned by the code):
//
//	s string, b []byte, i integer (g is its Go type, b its decimal digits),
//	f float (g type, b in %e form), o boolean, n nil, x nil *Graph,
//	g *Graph (as content), u anything else (b is its type)
type Val struct {
	T string `json:"t"`
	B Bytes  `json:"b"`
	G string `json:"g"`
}

func val(v interface{}) Val {
	switch x := v.(type) {
	case nil:
		return Val{"n", Bytes{}, ""}
	case string:
		return Val{"s", B(x), ""}
	case []byte:
		return Val{"b", B(string(x)), ""}
	case bool:
		return Val{"o", B(strconv.FormatBool(x)), ""}
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		return Val{"i", B(fmt.Sprint(x)), fmt.Sprintf("%T", x)}
	case float64:
		return Val{"f", B(strconv.FormatFloat(x, 'e', -1, 64)), "float64"}
	case float32:
		return Val{"f", B(strconv.FormatFloat(float64(x), 'e', -1, 32)), "float32"}
	case *ogdl.Graph:
		if x == nil {
			return Val{"x", Bytes{}, ""}
		}
		return Val{"g", Bytes{}, ""}
	case error:
		return Val{"e", Bytes{}, ""}
	}
	return Val{"u", B(fmt.Sprintf("%T", v)), ""}
}

func (v Val) Go() interface{} {
	s := v.B.S()
	switch v.T {
	case "s":
		return s
	case "b":
		return []byte(s)
	case "o":
		return s == "true"
	case "i":
		n, _ := strconv.ParseInt(s, 10, 64)
		switch v.G {
		case "int":
			return int(n)
		case "int8":
			return int8(n)
		case "int16":
			return int16(n)
		case "int32":
			return int32(n)
		case "uint":
			u, _ := strconv.ParseUint(s, 10, 64)
			return uint(u)
		case "uint8":
			return uint8(n)
		case "uint16":
			return uint16(n)
		case "uint32":
			return uint32(n)
		case "uint64":
			u, _ := strconv.ParseUint(s, 10, 64)
			return u
		}
		return n
	case "k":
		return callable(s)
	case "f":
		f, _ := strconv.ParseFloat(s, 64)
		if v.G == "float32" {
			return float32(f)
		}
		return f
	}
	return nil
}

// Node is one node of a tree in depth first order: level and content.
type Node struct {
	L int `json:"l"`
	V Val `json:"v"`
}

// flat lists the subnodes of g. A tree that is not a tree (a cycle) or that is
// absurdly big ends with a node of type "u".
func flat(g *ogdl.Graph) []Node {
	r := []Node{}
	if g == nil {
		return r
	}
	var walk func(g *ogdl.Graph, l int) bool
	walk = func(g *ogdl.Graph, l int) bool {
		for _, n := range g.Out {
			if len(r) > 300000 || l > 200000 {
				r = append(r, Node{l, Val{"u", B("endless"), ""}})
				return false
			}
			if n == nil {
				r = append(r, Node{l, Val{"x", Bytes{}, ""}})
				continue
			}
			r = append(r, Node{l, val(n.This)})
			if !walk(n, l+1) {
				return false
			}
		}
		return true
	}
	walk(g, 0)
	return r
}

// Tree is a whole graph: its own content and its nodes. Nil is true for a nil *Graph.
type Tree struct {
	Nil bool   `json:"nil"`
	V   Val    `json:"v"`
	N   []Node `json:"n"`
}

func tree(g *ogdl.Graph) Tree {
	if g == nil {
		return Tree{true, Val{"x", Bytes{}, ""}, []Node{}}
	}
	return Tree{false, val(g.This), flat(g)}
}

// build makes a graph from its flat form.
func build(nodes []Node) *ogdl.Graph {
	root := ogdl.New("_")
	buildIn(root, nodes)
	return root
}

func buildIn(root *ogdl.Graph, nodes []Node) {
	at := []*ogdl.Graph{root}
	for _, n := range nodes {
		g := ogdl.New(n.V.Go())
		p := at[n.L]
		p.Out = append(p.Out, g)
		at = append(at[:n.L+1], g)
	}
}
