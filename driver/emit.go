package main

import (
	"encoding/json"
	"math/rand"
	"strings"

	"github.com/rveen/ogdl"
)

// Suite emit: write a tree as text and read it back.
type emitCase struct {
	Tree []Node `json:"tree"`
	Root Bytes  `json:"root"`
}

func init() {
	suites["emit"] = suite{genEmit, runEmit}
}

func runEmit(raw json.RawMessage) interface{} {
	var c emitCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	g := build(c.Tree)
	g.This = c.Root.S()
	text := g.Text()
	back := ogdl.FromString(text)
	show := g.Show()
	return M{"text": B(text), "back": tree(back), "text2": B(back.Text()), "show": B(show), "showback": tree(ogdl.FromString(show)), "after": flat(g)}
}

var emitAtoms = []string{"a", "b", " ", "  ", "\n", "\t", "\"", "'", ",", "(", ")", "#", "# ", "\\", "`", "é", "日", "x", "\n\n", "\n  ", "\n\t", "{", "$", "=", ".", "[", "_", "true", "12", "a b", "end"}

func genValue(r *rand.Rand, n int) string {
	if n == 0 || r.Intn(3) == 0 {
		return pick(r, []string{"a", "b", "c", "name", "x1", "é", "#a", "k=v", "10.5", "_", "!x", "a.b", "-", "{}", "日本", "a\\b", "$v", "//", "a#", "*"})
	}
	s := ""
	for k := r.Intn(6); k >= 0; k-- {
		s += pick(r, emitAtoms)
	}
	return s
}

// genTree makes a random tree in flat form with about n nodes.
func genTree(r *rand.Rand, n, maxLevel int, v func(l int) Val) []Node {
	t := []Node{}
	l := 0
	for i := 0; i < n; i++ {
		if i > 0 {
			switch r.Intn(5) {
			case 0, 1:
				if l < maxLevel {
					l++
				}
			case 2:
				l -= r.Intn(l + 1)
			case 3:
				if l > 0 {
					l--
				}
			}
		}
		t = append(t, Node{l, v(l)})
	}
	return t
}

func genEmit(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		size, depth := 1+r.Intn(10), 1+r.Intn(6)
		if i%50 == 49 {
			size, depth = 60, 40
		}
		root := "_"
		if r.Intn(3) == 0 {
			root = genValue(r, 0)
		}
		voids := r.Intn(4) == 0 // nodes without content
		emit(emitCase{genTree(r, size, depth, func(l int) Val {
			if voids && r.Intn(4) == 0 {
				return Val{pick(r, []string{"s", "n"}), B(""), ""}
			}
			if r.Intn(300) == 0 { // long ones
				return Val{"s", B(strings.Repeat(pick(r, []string{"abc", "é", "a.b"}), 30+r.Intn(300))), ""}
			}
			if l > 0 && r.Intn(300) == 0 {
				v := ""
				for k := 20 + r.Intn(60); k > 0; k-- {
					v += pick(r, emitAtoms)
				}
				return Val{"s", B(v), ""}
			}
			return Val{"s", B(genValue(r, l)), ""}
		}), B(root)})
	}
}
