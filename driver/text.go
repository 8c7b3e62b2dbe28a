package main

import (
	"bytes"
	"encoding/json"
	"math/rand"
	"os"
	"strings"

	"github.com/rveen/ogdl"
)

// Suite text: parse a text with each entry point.
type textCase struct {
	Text  Bytes `json:"text"`
	Types bool  `json:"types"`
	Api   int   `json:"api"`
}

func init() {
	suites["text"] = suite{genText, runText}
}

func runText(raw json.RawMessage) interface{} {
	var c textCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	s := c.Text.S()
	var g *ogdl.Graph
	if c.Types {
		g = ogdl.FromStringTypes(s)
	} else {
		switch c.Api {
		case 0:
			g = ogdl.FromString(s)
		case 1:
			g = ogdl.FromBytes([]byte(s))
		case 2:
			g = ogdl.FromReader(strings.NewReader(s))
		case 3:
			p := ogdl.NewParser(bytes.NewBufferString(s))
			p.Ogdl()
			g = p.Graph()
		case 4:
			f, err := os.CreateTemp("", "ogdltext")
			if err != nil {
				fatal(err)
			}
			f.WriteString(s)
			f.Close()
			g = ogdl.FromFile(f.Name())
			os.Remove(f.Name())
		}
	}
	return M{"tree": tree(g)}
}

var textAtoms = []string{"a", "b", "abc", "x1", "1", "-2", "+3", "1.5", "-0.25", "1e3", "true", "false", "nil", "é", "日本", "a'b", "a\"b", "a,b", "(x)", "a#b", "#x", "\\x", "a\\", "http://x.y/z?a=b",
	"\"a b\"", "'c d'", "`e f`", "\"\"", "''", "\"q\\\"q\"", "'q\\'q'", "\"a\\nb\"", "\"\\\\\"", "`a\\`", "\"a'b\"", "'a\"b'", "\"abc\"def", "9223372036854775807", "9223372036854775808", "0x1", "1_0", "NaN", "inf", ".5", "5.", "007", "\"1\"", "'true'", "True", "tr", ",", ",a", "*", "a=b", "$x", "{", "}", "[0]"}

func pick[T any](r *rand.Rand, s []T) T { return s[r.Intn(len(s))] }

// A document of lines with random indentation and tokens.
func genDoc(r *rand.Rand, lines int) string {
	var b strings.Builder
	nl := "\n"
	if r.Intn(6) == 0 {
		nl = "\r\n"
	}
	ind := 0
	base := 0
	if r.Intn(4) == 0 {
		base = r.Intn(4)
	}
	tab := r.Intn(8) == 0
	indent := func(n int) {
		if tab {
			b.WriteString(strings.Repeat("\t", n))
		} else {
			b.WriteString(strings.Repeat(" ", n))
		}
	}
	for i := 0; i < lines; i++ {
		switch r.Intn(14) {
		case 0: // empty or blank line
			indent(r.Intn(3) * r.Intn(3))
			b.WriteString(nl)
			continue
		case 1: // comment line
			indent(r.Intn(6))
			b.WriteString("# " + pick(r, textAtoms) + " c" + nl)
			continue
		}
		switch r.Intn(6) {
		case 0, 1:
			ind += 1 + r.Intn(3)
		case 2:
			ind -= 1 + r.Intn(4)
			if ind < 0 {
				ind = 0
			}
		case 3:
			ind = r.Intn(ind + 1)
		}
		if i == 0 {
			ind = 0
		}
		n := base + ind
		if r.Intn(40) == 0 {
			n = r.Intn(8)
		}
		indent(n)
		k := 1 + r.Intn(3)
		for j := 0; j < k; j++ {
			if j > 0 {
				b.WriteString(pick(r, []string{" ", "  ", "\t", " ", " ", " , "}))
			}
			if r.Intn(12) == 0 { // multi line quoted
				q := pick(r, []string{"\"", "'", "`"})
				b.WriteString(q + pick(r, []string{"a", "x y", "", "p\\\"q"}))
				for m := 1 + r.Intn(3); m > 0; m-- {
					b.WriteString(nl)
					if r.Intn(12) == 0 {
						indent(r.Intn(n + 1))
					} else if r.Intn(4) > 0 {
						indent(n + r.Intn(3))
					} else {
						indent(n)
						b.WriteString(pick(r, []string{" ", "\t", ""}))
					}
					b.WriteString(pick(r, []string{"l", "m n", "", "# no", "\\"}))
				}
				b.WriteString(q)
				continue
			}
			b.WriteString(pick(r, textAtoms))
		}
		switch r.Intn(10) {
		case 0:
			b.WriteString(pick(r, []string{" # comment", "  # c d", " #nocomment", " #", "#x"}))
		case 1, 2: // block
			b.WriteString(pick(r, []string{" \\", "\\", "  \\"}))
			for m := r.Intn(4); m > 0; m-- {
				b.WriteString(nl)
				if r.Intn(8) == 0 {
					continue
				}
				indent(n + 1 + r.Intn(4))
				if r.Intn(10) == 0 {
					b.WriteString(pick(r, []string{"\t", " "}))
				}
				b.WriteString(pick(r, []string{"l1", "m n  o", "# x", "\"q", "\\", "a, b", ""}))
			}
		case 3:
			b.WriteString(pick(r, []string{" ", "  ", "\t"}))
		}
		if i < lines-1 || r.Intn(2) == 0 {
			if r.Intn(30) == 0 {
				b.WriteString("\r")
			} else {
				b.WriteString(nl)
			}
		}
	}
	return b.String()
}

func genText(r *rand.Rand, n int, emit func(interface{})) {
	alpha := []string{"a", "b", " ", " ", "  ", "\n", "\n", "\t", "\"", "'", "`", "\\", "#", ",", "\r", "1", "-", ".", "é", "\\\n", "# ", "true", "\n  ", "\n ", "\n    "}
	for i := 0; i < n; i++ {
		var s string
		if i%3 == 0 {
			for k := r.Intn(20); k >= 0; k-- {
				s += pick(r, alpha)
			}
		} else {
			s = genDoc(r, 1+r.Intn(9))
		}
		switch r.Intn(400) {
		case 0: // long ones
			s = genDoc(r, 40+r.Intn(80))
		case 1:
			w := strings.Repeat(pick(r, []string{"a", "xyz", "é", "1"}), 50+r.Intn(900))
			s = pick(r, []string{"a\n  b ", "", "a ", "a \"x ", "a 'x\n    ", "a \\\n  ", "# "}) + w + pick(r, []string{"", "\n", "\"\nb", "'\nb", " b\n", ", b", "\n  b"})
		case 2: // deep
			for k := 0; k < 20+r.Intn(60); k++ {
				s += "\n" + strings.Repeat(" ", k+r.Intn(3)) + pick(r, textAtoms)
			}
		case 3:
			s = ""
			for k := 10 + r.Intn(60); k > 0; k-- {
				s += pick(r, textAtoms) + pick(r, []string{" ", " ", ", ", "\t"})
			}
		}
		api := i % 5
		if api == 4 && (i%8 != 0 || s == "") {
			api = 0
		}
		emit(textCase{B(s), r.Intn(3) == 0, api})
	}
}
