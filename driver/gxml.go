package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/rveen/ogdl/io/gxml"
)

// Suite xml: documents imported as XML.
func init() {
	suites["xml"] = suite{genXML, runXML}
}

type textNode struct {
	L int   `json:"l"`
	B Bytes `json:"b"`
}

func runXML(raw json.RawMessage) interface{} {
	var c inputCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	n := []textNode{}
	for _, x := range flat(gxml.FromXML([]byte(c.T.S()))) {
		if x.V.T != "s" {
			x.V.B = Bytes{-2}
		}
		n = append(n, textNode{x.L, x.V.B})
	}
	return M{"n": n}
}

func xmName(r *rand.Rand) string {
	s := pick(r, []string{"a", "b", "a", "b", "c", "item", "_x", "T1"})
	for k := r.Intn(4) * r.Intn(2); k > 0; k-- {
		s += pick(r, []string{"a", "Z", "-", "_", ".", "1", "é", "ñ", "Ü", "ø", "ß", "ÿ", "-b", "field"})
	}
	if r.Intn(8) == 0 {
		s = pick(r, []string{"n", "ns1", "xmlns", "xml", "é"}) + ":" + s
	}
	if r.Intn(60) == 0 {
		s = pick(r, []string{"é", "Àb", "xmlns", "a:", ":a", "a:b:c", "ſ", "Ж", "中", "a·b"})
	}
	return s
}

func xmChars(r *rand.Rand, not string) string {
	s := ""
	for k := 1 + r.Intn(6); k > 0; k-- {
		switch r.Intn(10) {
		case 0:
			s += pick(r, []string{"&lt;", "&gt;", "&amp;", "&apos;", "&quot;", "&#65;", "&#x41;", "&#xe9;", "&#10;", "&#13;", "&#9;", "&#x20AC;", "&#128512;", "&#xd800;", "&#160;", "&#032;"})
		case 1:
			s += pick(r, []string{" ", "\n", "\t", "\r\n", "\r", "  ", "\n\n", "\u00a0", "\u0085", "\u2003", "\u3000", "\u200b"})
		case 2:
			s += pick(r, []string{"é", "日本", "😀", "\u2028x", "\x7f", "]]", "]]&gt;", ">", "--", "'", "\"", "=", "/", "?", "!"})
		case 3:
			if r.Intn(12) == 0 {
				s += pick(r, []string{"&nope;", "&;", "&#;", "&#0;", "&#xFFFE;", "&#x110000;", "&#99999999999999999999;", "&lt", "& ", "&#x;", "]]>", "\x01", "\xff", "\uffff", "&LT;", "&#X41;"})
			}
		default:
			s += string(rune('a' + r.Intn(26)))
		}
	}
	return strings.ReplaceAll(s, not, "")
}

func xmBlank(r *rand.Rand) string {
	return pick(r, []string{"", "", "", " ", "\n", "\n\n  ", "\t", "\r\n", "\u00a0", " \u2028"})
}

func xmSp(r *rand.Rand) string { return pick(r, []string{"", "", "", " ", "\n", "\t "}) }

func xmElement(r *rand.Rand, depth int) string {
	name := xmName(r)
	s := "<" + name
	atts := r.Intn(4) * r.Intn(2)
	if r.Intn(60) == 0 { // many
		atts = 8 + r.Intn(12)
	}
	for k := atts; k > 0; k-- {
		q := pick(r, []string{"\"", "'"})
		v := ""
		if r.Intn(5) > 0 {
			v = xmChars(r, q)
		}
		s += pick(r, []string{" ", " ", "\n", "  "}) + pick(r, []string{xmName(r), "id", "name", "class", "xmlns", "xmlns:n", "data-x"}) + xmSp(r) + "=" + xmSp(r) + q + v + q
		if r.Intn(30) == 0 {
			s += xmName(r) + "=" + q + q
		}
	}
	if r.Intn(4) == 0 {
		return s + xmSp(r) + "/>"
	}
	s += xmSp(r) + ">"
	parts := r.Intn(5)
	if r.Intn(60) == 0 {
		parts, depth = 10+r.Intn(20), 2
	}
	for k := parts; k > 0; k-- {
		s += xmContent(r, depth-1)
	}
	if r.Intn(80) == 0 {
		name = xmName(r)
	}
	return s + "</" + name + xmSp(r) + ">"
}

func xmContent(r *rand.Rand, depth int) string {
	switch k := r.Intn(12); {
	case k < 3:
		return xmBlank(r)
	case k < 5:
		return xmBlank(r) + xmChars(r, "<") + xmBlank(r)
	case k == 5 && r.Intn(20) == 0: // long
		return strings.Repeat(pick(r, []string{"a", "é", "x y ", "&amp;", "&#233;"}), 30+r.Intn(300))
	case k == 5:
		return "<!--" + pick(r, []string{"", " a ", "<b>", " - ", ">", "&nope;", "]]>", "a-", "-a"}) + "-->"
	case k == 6:
		return "<![CDATA[" + pick(r, []string{"", " ", "a", "<b>&amp;", " x ", "]]", "]", "é\r\ne", "> ]", "\u00a0", "a\x01", "\xff"}) + "]]>"
	case k == 7:
		return pick(r, []string{"<?pi?>", "<?pi some ?data?>", "<?xml-stylesheet href='a'?>", "<?a ??>", "<?é x?>", "<??>", "<?1?>"})
	case depth <= 0:
		return xmChars(r, "<")
	}
	return xmElement(r, depth)
}

func genXML(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		s := xmBlank(r)
		if r.Intn(2) == 0 {
			s = pick(r, []string{`<?xml version="1.0"?>`, `<?xml version="1.0" encoding="UTF-8"?>`, `<?xml version='1.0' encoding='utf-8' standalone="yes"?>`, "\ufeff", `<?xml version="1.1"?>`, `<?xml encoding="latin1"?>`}) + xmBlank(r)
		}
		if r.Intn(4) == 0 {
			s += pick(r, []string{`<!DOCTYPE a>`, `<!DOCTYPE a SYSTEM "a>b">`, `<!DOCTYPE a [<!ENTITY x "y"><!ELEMENT b (#PCDATA)>]>`, `<!DOCTYPE a "<'>">`, `<!DOCTYPE a [<!-- > -->]>`, "<!-- c -->", "<!1>", "<!>"}) + xmBlank(r)
		}
		s += xmElement(r, 1+r.Intn(6))
		for r.Intn(6) == 0 {
			s += xmContent(r, 2)
		}
		if r.Intn(60) == 0 {
			d := 50 + r.Intn(200)
			s = ""
			for k := 0; k < d; k++ {
				s += fmt.Sprintf("<e%d>", k%3)
			}
			s += "deep"
			for k := d - 1; k >= 0; k-- {
				s += fmt.Sprintf("</e%d>", k%3)
			}
		}
		if r.Intn(3) == 0 {
			s = mutate(r, s, "<<>>/&;\"'=!?-[] \nab:#xé\x01\x80")
		}
		emit(inputCase{B(s)})
	}
}
