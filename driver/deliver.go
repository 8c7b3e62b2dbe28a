package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"os"
	"strings"

	"github.com/rveen/ogdl"
)

// Suite deliver: input that arrives in pieces. Suite lexer: reading and
// unreading over such input.
type source struct {
	Text   Bytes `json:"text"`
	Chunks []int `json:"chunks"` // sizes of the reads; what remains comes as asked for
	Mode   int   `json:"mode"`   // 0 EOF after the data, 1 EOF with the last data, 2 error after, 3 error with
	Cut    int   `json:"cut"`    // the reader ends after this many bytes
}

type pieces struct {
	data   []byte
	chunks []int
	mode   int
	done   bool
	reads  int
}

var errBroken = errors.New("broken")

func (p *pieces) Read(b []byte) (int, error) {
	p.reads++
	if p.reads > 1000000 {
		panic("endless reading")
	}
	end := io.EOF
	if p.mode >= 2 {
		end = errBroken
	}
	if len(p.data) == 0 && (p.done || len(p.chunks) == 0 || p.mode%2 == 1) {
		p.done = true
		return 0, end
	}
	n := len(b)
	if len(p.chunks) > 0 {
		if p.chunks[0] < n {
			n = p.chunks[0]
		}
		p.chunks = p.chunks[1:]
	}
	if n > len(p.data) {
		n = len(p.data)
	}
	copy(b, p.data[:n])
	p.data = p.data[n:]
	if p.mode%2 == 1 && len(p.data) == 0 {
		p.done = true
		return n, end
	}
	return n, nil
}

func (s source) reader() *pieces {
	d := []byte(s.Text.S())
	if s.Cut < len(d) {
		d = d[:s.Cut]
	}
	return &pieces{data: d, chunks: append([]int{}, s.Chunks...), mode: s.Mode}
}

type deliverCase struct {
	source
	Api   int  `json:"api"`
	Types bool `json:"types"`
	Bin   bool `json:"bin"`
}

func init() {
	suites["deliver"] = suite{genDeliver, runDeliver}
	suites["lexer"] = suite{genLexer, runLexer}
}

func runDeliver(raw json.RawMessage) interface{} {
	var c deliverCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	rd := c.reader()
	s := string(rd.data)
	var g *ogdl.Graph
	switch {
	case c.Bin && c.Api == 0:
		g = ogdl.FromBinaryReader(rd)
	case c.Bin && c.Api == 1:
		g = ogdl.FromBinaryBufioReader(bufio.NewReaderSize(rd, 16))
	case c.Bin && c.Api == 2:
		g = ogdl.FromBinary([]byte(s))
	case c.Bin:
		name := tempFile([]byte(s))
		g = ogdl.FromBinaryFile(name)
		os.Remove(name)
	case c.Types && c.Api == 0:
		p := ogdl.NewParser(rd)
		p.OgdlTypes()
		g = p.Graph()
	case c.Types:
		g = ogdl.FromStringTypes(s)
	case c.Api == 0:
		g = ogdl.FromReader(rd)
	case c.Api == 1:
		p := ogdl.NewParser(rd)
		p.Ogdl()
		g = p.Handler().Tree()
	case c.Api == 2:
		g = ogdl.FromString(s)
	case c.Api == 3:
		g = ogdl.FromBytes([]byte(s))
	case c.Api == 4:
		p := ogdl.NewStringParser(s)
		p.Ogdl()
		g = p.Graph()
	case c.Api == 5:
		p := ogdl.NewBytesParser([]byte(s))
		p.Ogdl()
		g = p.Graph()
	default:
		name := tempFile([]byte(s))
		g = ogdl.FromFile(name)
		os.Remove(name)
	}
	return M{"tree": tree(g)}
}

// chunking makes a schedule of reads for n bytes.
func chunking(r *rand.Rand, n int) []int {
	c := []int{}
	switch r.Intn(8) {
	case 0: // whole
		return c
	case 1: // byte by byte
		for i := 0; i < n; i++ {
			c = append(c, 1)
		}
		return c
	case 2: // around the buffer sizes
		for i := 0; i < n; {
			k := []int{2047, 2048, 2049, 4095, 4096, 4097, 1, 2, 1024, 512}[r.Intn(10)]
			c = append(c, k)
			i += k
		}
		return c
	case 3: // a short first read
		return append(c, 1+r.Intn(3), 0, 1+r.Intn(5))
	}
	max := []int{2, 3, 7, 50, 700}[r.Intn(5)]
	for i := 0; i < n; {
		k := r.Intn(max + 1)
		if r.Intn(20) == 0 {
			for m := r.Intn(30); m > 0; m-- {
				c = append(c, 0)
			}
		}
		c = append(c, k)
		i += k
	}
	return c
}

// A text with something at each of the places given (offsets), filled up with plain lines.
func bigText(r *rand.Rand) string {
	var b strings.Builder
	n := []int{2048, 4096, 6144, 8192}[r.Intn(4)]
	line := func(max int) string {
		w := strings.Repeat(pick(r, []string{"w", "xyz", "é", "日", "v "}), 1+r.Intn(20))
		w = strings.TrimSpace(w)
		s := strings.Repeat(" ", r.Intn(3)*r.Intn(3)) + w + "\n"
		return s
	}
	// up to a little before the boundary
	for b.Len() < n-60 {
		if r.Intn(300) == 0 {
			b.WriteString(genDoc(r, 3) + "\n")
		} else {
			b.WriteString(line(40))
		}
		if r.Intn(6) == 0 && b.Len() < n-600 { // a long token
			b.WriteString(strings.Repeat(pick(r, []string{"abc", "é"}), 100+r.Intn(150)) + "\n")
		}
	}
	for b.Len() < n-12+r.Intn(12) {
		b.WriteString("p\n")
	}
	b.WriteString(pick(r, []string{"", "q ", "  ", " \\\n   block 1\n\n   block 2\n", "\"quoted ", "'a\nb", "é", "日本語日本語日本語", "# comment ", "\r\n", "\\\"", "tok \"é é\" ", "\"a\\\"b\"", "          x", "\t\t\t\tx", "\\\n    l1\n    l2\n  x", "12345.678 true -99 ", "a,b,c "}))
	b.WriteString(genDoc(r, 1+r.Intn(6)))
	for k := r.Intn(3); k > 0; k-- {
		b.WriteString("\n" + genDoc(r, 1+r.Intn(20)))
	}
	return b.String()
}

func genSource(r *rand.Rand, s string) source {
	cut := len(s)
	if r.Intn(3) == 0 {
		cut = r.Intn(len(s) + 1)
		if len(s) > 4000 && r.Intn(2) == 0 {
			cut = []int{2048, 4096, 6144, 4095, 4097, 6143, 6145, 2047, 2049}[r.Intn(9)]
			if cut > len(s) {
				cut = len(s)
			}
		}
	}
	return source{B(s), chunking(r, len(s)), r.Intn(4), cut}
}

func genDeliver(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		var c deliverCase
		if i%5 == 0 {
			t := genTree(r, 1+r.Intn(8), 3, func(l int) Val { return genContent(r) })
			if i%100 == 0 {
				t = append(t, Node{0, Val{"s", B(strings.Repeat("z", 4000+r.Intn(300))), ""}}, Node{0, Val{"b", B(strings.Repeat("\x00", 4000+r.Intn(300))), ""}})
			}
			s := string(build(t).Binary())
			if len(s) > 12000 {
				i--
				continue
			}
			c = deliverCase{genSource(r, s), []int{0, 0, 0, 1, 1, 1, 2, 3}[r.Intn(8)], false, true}
		} else {
			s := genDoc(r, 1+r.Intn(6))
			if i%12 == 1 {
				s = bigText(r)
			}
			if s == "" {
				s = "a"
			}
			c = deliverCase{genSource(r, s), []int{0, 0, 0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6}[r.Intn(13)], r.Intn(4) == 0, false}
			if c.Api == 6 && c.Cut == 0 {
				c.Api = 0
			}
		}
		emit(c)
	}
}

// ------------------------------------------------------------------- lexer

const (
	opByte = iota + 1
	opUnreadByte
	opRune
	opUnreadRune
	opPeekByte
	opPeekRune
	opString
	opSpace
	opBreak
	opWhiteSpace
	opInteger
	opToken
	opSkip    // n bytes
	opBack    // unread n bytes
	opEnd     // End
	opComment // Comment
	opSkipR   // n runes
)

type lexerCase struct {
	source
	Ops [][2]int `json:"ops"`
}

func runLexer(raw json.RawMessage) interface{} {
	var c lexerCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	p := ogdl.NewLexer(c.reader())
	res := []interface{}{}
	num := func(x int, err error) Bytes {
		if err != nil {
			return Bytes{-1}
		}
		return Bytes{x}
	}
	yes := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	for _, o := range c.Ops {
		var v Bytes
		switch o[0] {
		case opByte, opSkip:
			for k := 0; k < o[1]; k++ {
				b, err := p.Byte()
				v = num(int(b), err)
			}
		case opRune, opSkipR:
			for k := 0; k < o[1]; k++ {
				b, err := p.Rune()
				v = num(int(b), err)
			}
		case opUnreadByte, opBack:
			for k := 0; k < o[1]; k++ {
				p.UnreadByte()
			}
			v = Bytes{}
		case opUnreadRune:
			v = Bytes{}
			for k := 0; k < o[1]; k++ {
				if p.UnreadRune() != nil {
					v = Bytes{-2}
				}
			}
		case opPeekByte:
			v = Bytes{int(p.PeekByte())}
		case opPeekRune:
			b, _ := p.PeekRune()
			v = Bytes{int(b)}
		case opString:
			s, ok := p.String()
			v = append(Bytes{yes(ok)}, B(s)...)
		case opInteger:
			s, ok := p.Integer()
			v = append(Bytes{yes(ok)}, B(s)...)
		case opToken:
			s, ok := p.Token8()
			v = append(Bytes{yes(ok)}, B(s)...)
		case opSpace:
			k, b := p.Space()
			v = Bytes{k, int(b)}
		case opBreak:
			v = Bytes{yes(p.Break())}
		case opWhiteSpace:
			v = Bytes{yes(p.WhiteSpace())}
		case opEnd:
			v = Bytes{yes(p.End())}
		case opComment:
			v = Bytes{yes(p.Comment())}
		}
		res = append(res, v)
	}
	return M{"res": res}
}

func genLexer(r *rand.Rand, n int, emit func(interface{})) {
	atoms := []string{"a", "b1", " ", "  ", "\n", "\r\n", "\r", "\t", "é", "日", "12", "_x", "-", "\xff", "\xe6\x97", "\xc3", "\xf0\x9f\x98\x80", "\xed\xa0\x80", "\xc0\x80", "\x01", "#", "# c\n", "\""}
	for i := 0; i < n; i++ {
		s := ""
		k := r.Intn(12)
		if i%4 == 0 {
			at := []int{2048, 4096, 6144}[r.Intn(3)] - r.Intn(8)
			fill := pick(r, []string{"a", "é", "日", " ", "a b\n"})
			s = strings.Repeat(fill, at/len(fill)) + strings.Repeat("x", at%len(fill))
			k = 6 + r.Intn(20)
		}
		start := len(s)
		for ; k >= 0; k-- {
			s += pick(r, atoms)
		}
		src := genSource(r, s)
		src.Cut = len(s)
		if r.Intn(4) == 0 && len(s) > start {
			src.Cut = start + r.Intn(len(s)-start)
		}
		ops := [][2]int{}
		if start > 20 { // to the place of interest
			k := start - r.Intn(4)
			if r.Intn(2) == 0 || strings.ContainsAny(s[:20], "é日") {
				ops = append(ops, [2]int{opSkip, k})
			} else {
				ops = append(ops, [2]int{opSkipR, k})
			}
		}
		bytes, runes, ends := 0, 0, 0
		for m := 3 + r.Intn(25); m > 0; m-- {
			o, c := 1+r.Intn(16), 1
			if o == opSkip || o == opSkipR {
				o = opRune
			}
			switch o {
			case opByte:
				if r.Intn(4) == 0 {
					c = 1 + r.Intn(6)
				}
				bytes += c
				runes = 0
			case opRune:
				runes++
				bytes = 0
			case opUnreadByte:
				if bytes == 0 {
					continue
				}
				bytes--
			case opUnreadRune:
				if runes == 0 {
					continue
				}
				runes--
			case opBack:
				// far back, after the bytes read at the beginning
				if len(ops) == 0 || ops[len(ops)-1][0] != opSkip {
					continue
				}
				c = 1 + r.Intn(2036)
				if r.Intn(3) == 0 {
					c = 1 + r.Intn(12)
				}
				bytes = c / 2
			case opPeekByte:
			default:
				bytes, runes = 0, 0
			}
			_ = ends
			ops = append(ops, [2]int{o, c})
		}
		emit(lexerCase{src, ops})
	}
}
