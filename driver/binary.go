package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/json"
	"io"
	"math"
	"math/rand"
	"os"
	"strconv"
	"strings"

	"github.com/rveen/ogdl"
)

// Suite bin: a tree to binary and back. Suite binbig: the same with one long
// content, of which only the ends are recorded. Suite bindec: any bytes as
// binary input.
type binCase struct {
	Tree []Node `json:"tree"`
}
type binBigCase struct {
	N    int   `json:"n"`
	Head Bytes `json:"head"` // the content begins with this, and goes on with n bytes "a"
	L    int   `json:"l"`    // level
}
type binDecCase struct {
	Data Bytes `json:"data"`
}

func init() {
	suites["bin"] = suite{genBin, runBin}
	suites["binbig"] = suite{genBinBig, runBinBig}
	suites["bindec"] = suite{genBinDec, runBinDec}
}

func tempFile(data []byte) string {
	f, err := os.CreateTemp("", "ogdlbin")
	if err != nil {
		fatal(err)
	}
	f.Write(data)
	f.Close()
	return f.Name()
}

func runBin(raw json.RawMessage) interface{} {
	var c binCase
	json.Unmarshal(raw, &c)
	g := build(c.Tree)
	b := g.Binary()
	b0 := append([]byte{}, b...)
	r := M{"stream": B(string(b))}
	r["back"] = tree(ogdl.FromBinary(b))
	r["reader"] = tree(ogdl.FromBinaryReader(bytes.NewReader(b)))
	// two objects, one after the other, from the same reader
	rd := bufio.NewReader(io.MultiReader(bytes.NewReader(b), bytes.NewReader(b)))
	r["first"] = tree(ogdl.FromBinaryBufioReader(rd))
	r["second"] = tree(ogdl.FromBinaryBufioReader(rd))
	name := tempFile(b)
	r["file"] = tree(ogdl.FromBinaryFile(name))
	os.Remove(name)
	r["stream2"] = B(string(ogdl.FromBinary(b).Binary()))
	r["after"] = flat(g)
	r["intact"] = bytes.Equal(b, b0)
	return r
}

var binContents = []string{"", "a", "abc", "\x00", "\x01", "\x01G\x00", "a\x00b", "\x00\x00\x00", "\xff", "\x80", "é", "a b\n c", "\x01a", "a\x01", "\x7f", "G", "\xf0\xff"}

func genContent(r *rand.Rand) Val {
	switch r.Intn(14) {
	case 0:
		return Val{"n", Bytes{}, ""}
	case 1:
		n := []int64{0, 1, -1, 127, 128, 255, 256, math.MaxInt64, math.MinInt64, r.Int63(), -r.Int63n(1000)}[r.Intn(11)]
		return val(n)
	case 2:
		return val([]interface{}{int(3), int8(-128), int16(300), int32(-70000), uint(7), uint8(0), uint8(255), uint16(65535), uint32(1 << 31), uint64(math.MaxUint64)}[r.Intn(10)])
	case 3:
		return val([]float64{0, 1.5, -0.25, 1e21, 1e-7, 123456.75, 1e300, 3, -2e10}[r.Intn(9)])
	case 4:
		return val(float32(0.5 * float64(r.Intn(9))))
	case 5:
		return val(r.Intn(2) == 0)
	case 6, 7:
		return Val{"b", B(pick(r, binContents)), ""}
	case 8: // random bytes
		s := make([]byte, r.Intn(40))
		for i := range s {
			s[i] = byte(r.Intn(256))
		}
		return Val{[]string{"s", "b"}[r.Intn(2)], B(string(s)), ""}
	case 9:
		if r.Intn(6) > 0 {
			break
		}
		n := []int{126, 127, 128, 129, 300, 5000}[r.Intn(6)]
		return Val{[]string{"s", "b"}[r.Intn(2)], B(strings.Repeat(pick(r, []string{"x", "\x00", "\x01"}), n)), ""}
	}
	return Val{"s", B(pick(r, binContents)), ""}
}

func chain(n, from int) []Node {
	t := []Node{}
	for i := 0; i < n; i++ {
		t = append(t, Node{i, Val{"s", B(strconv.Itoa(i % 7)), ""}})
	}
	return t
}

func genBin(r *rand.Rand, n int, emit func(interface{})) {
	for _, d := range []int{126, 127, 128, 129, 255, 256, 257, 300} {
		t := chain(d, 0)
		t = append(t, Node{d - 1, Val{"b", B("\x00\x01"), ""}}, Node{d / 2, Val{"s", B("x"), ""}}, Node{0, Val{"s", B("y"), ""}})
		emit(binCase{t})
	}
	if n > 20000 {
		emit(binCase{append(chain(16400, 0), Node{16384, Val{"b", Bytes{0}, ""}}, Node{16383, Val{"s", B("x"), ""}}, Node{16382, Val{"s", B("x"), ""}})})
	} else {
		emit(binCase{chain(5000, 0)})
	}
	for i := 0; i < n; i++ {
		size, depth := 1+r.Intn(10), 1+r.Intn(6)
		if i%100 == 99 {
			size, depth = 300, 250
		}
		emit(binCase{genTree(r, size, depth, func(l int) Val { return genContent(r) })})
	}
}

func runBinBig(raw json.RawMessage) interface{} {
	var c binBigCase
	json.Unmarshal(raw, &c)
	content := append([]byte(c.Head.S()), bytes.Repeat([]byte("a"), c.N)...)
	g := ogdl.New("_")
	h := g
	for i := 0; i < c.L; i++ {
		h = h.Add("p")
	}
	h.Add(content)
	h.Add("z")
	s := g.Binary()
	head, tail := s, s
	pre := 3 + 3*c.L
	if len(s) > pre+40 {
		head = s[:pre+40]
	}
	if len(s) > 40 {
		tail = s[len(s)-40:]
	}
	at := bytes.Index(s, content[:20])
	back := ogdl.FromBinary(s)
	for i := 0; i < c.L && back.Len() > 0; i++ {
		back = back.Out[0]
	}
	same, kind, next := false, "", ""
	if back.Len() > 0 {
		b, _ := back.Out[0].This.([]byte)
		kind = "b"
		if t, ok := back.Out[0].This.(string); ok {
			b, kind = []byte(t), "s"
		}
		same = sha1.Sum(b) == sha1.Sum(content)
	}
	if back.Len() > 1 {
		next = back.Out[1].ThisString()
	}
	return M{"len": len(s), "head": B(string(head)), "tail": B(string(tail)), "at": at, "same": same, "kind": kind, "next": B(next)}
}

func genBinBig(r *rand.Rand, n int, emit func(interface{})) {
	sizes := []int{100, 126, 127, 128, 16382, 16383, 16384, 16385, 70000, 2097150, 2097151, 2097152, 2097153, 0x1020304, 2097152 + r.Intn(14000000)}
	if n > 1 {
		sizes = append(sizes, 16777215, 16777216, 16777217, 40000000)
	}
	for _, k := range sizes {
		for _, h := range []string{"\x00", "\x01\x00", "x"} {
			emit(binBigCase{k - len(h), B(h), r.Intn(3)})
		}
	}
	if n > 1 {
		emit(binBigCase{0xfffffff - 1, B("\x00"), 0})
	}
}

func runBinDec(raw json.RawMessage) interface{} {
	var c binDecCase
	json.Unmarshal(raw, &c)
	b := []byte(c.Data.S())
	r := M{"tree": tree(ogdl.FromBinary(b))}
	r["reader"] = tree(ogdl.FromBinaryReader(bytes.NewReader(b)))
	r["bufio"] = tree(ogdl.FromBinaryBufioReader(bufio.NewReader(bytes.NewReader(b))))
	name := tempFile(b)
	r["file"] = tree(ogdl.FromBinaryFile(name))
	// the same bytes as a log
	log, err := ogdl.OpenLog(name)
	if err != nil {
		fatal(err)
	}
	g, next, err := log.Get(0)
	r["log"] = M{"tree": tree(g), "next": next, "err": err != nil}
	lb, lnext, lerr := log.GetBinary(0)
	r["logb"] = M{"nil": lb == nil, "b": B(string(lb)), "next": lnext, "err": lerr != nil}
	log.Close()
	os.Remove(name)
	return r
}

func genBinDec(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; {
		var s []byte
		switch r.Intn(4) {
		case 0: // random bytes after a header
			s = []byte{1, 'G', 0}
			for k := r.Intn(20); k >= 0; k-- {
				s = append(s, []byte{0, 1, 2, 3, 'a', 'b', 71, 127, 128, 192, 224, 240, 255, 0, 1, 2}[r.Intn(16)])
			}
			emit(binDecCase{B(string(capLevels(s)))})
			i++
			continue
		case 1: // corrupted
			s = build(genTree(r, 1+r.Intn(5), 3, func(l int) Val { return genContent(r) })).Binary()
			if len(s) > 500 {
				continue
			}
			for k := 1 + r.Intn(2); k > 0; k-- {
				s[r.Intn(len(s))] = byte([]int{0, 1, 2, 71, 128, 255, r.Intn(256)}[r.Intn(7)])
			}
			emit(binDecCase{B(string(capLevels(s)))})
			i++
			continue
		case 2: // bytes lost or doubled
			s = build(genTree(r, 1+r.Intn(5), 3, func(l int) Val { return genContent(r) })).Binary()
			if len(s) > 500 {
				continue
			}
			k := r.Intn(len(s))
			if r.Intn(2) == 0 {
				s = append(s[:k:k], s[k+1:]...)
			} else {
				s = append(append(append([]byte{}, s[:k]...), s[k:]...), s[k:]...)
			}
			emit(binDecCase{B(string(capLevels(s)))})
			i++
			continue
		}
		// every prefix of a valid stream
		s = build(genTree(r, 1+r.Intn(6), 4, func(l int) Val { return genContent(r) })).Binary()
		if len(s) > 150 {
			continue
		}
		for k := 0; k <= len(s); k++ {
			emit(binDecCase{B(string(s[:k]))})
			i++
		}
	}
}

// capLevels replaces bytes that would be taken for absurdly high levels, which
// cost memory in proportion.
func capLevels(s []byte) []byte {
	s = append([]byte{}, s...)
	for i, c := range s {
		if c >= 0xe0 && c < 0xf0 && i > 2 {
			s[i] = 0xc1
		}
	}
	return s
}
