package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"

	"github.com/rveen/ogdl"
)

// Suite access: what the accessors return for a node, and for paths from it.
type accessPattern struct {
	K string `json:"k"` // sub, pre, suf, eq, all, bad
	S Bytes  `json:"s"`
}
type accessCase struct {
	Nil   bool            `json:"nil"`
	Top   Val             `json:"top"`
	Root  []Node          `json:"root"`
	Paths []Bytes         `json:"paths"`
	Find  []accessPattern `json:"find"`
}

func init() {
	suites["access"] = suite{genAccess, runAccess}
}

func optBytes(b []byte) Val {
	if b == nil {
		return val(nil)
	}
	return val(b)
}

func bytesOf(ss []string) []Bytes {
	r := []Bytes{}
	for _, s := range ss {
		r = append(r, B(s))
	}
	return r
}

// Everything that can be asked of one node.
func accessOf(g *ogdl.Graph) M {
	ti, tiok := g.ThisInt64()
	tf, tfok := g.ThisFloat64()
	return M{
		"i": val(g.Int64()), "id": val(g.Int64(77)),
		"f": val(g.Float64()), "fd": val(g.Float64(2.5)),
		"b": g.Bool(), "bt": g.Bool(true), "bf": g.Bool(false),
		"s": B(g.String()), "sd": B(g.String("dflt")),
		"ts": B(g.ThisString()), "tsd": B(g.ThisString("dflt")),
		"ss": bytesOf(g.Strings()), "csv": B(g.StringCSV()), "csvd": B(g.StringCSV("dflt")),
		"txt": B(g.StringTxt()), "txtd": B(g.StringTxt("dflt")),
		"by": optBytes(g.Bytes()), "tby": optBytes(g.ThisBytes()),
		"num": val(g.Number()), "tnum": val(g.ThisNumber()),
		"ti": val(ti), "tiok": tiok, "tf": val(tf), "tfok": tfok,
		"sc": val(g.Scalar()), "tsc": val(g.ThisScalar()), "itf": val(g.Interface()), "len": g.Len(),
	}
}

func runAccess(raw json.RawMessage) interface{} {
	var c accessCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	var root *ogdl.Graph
	if !c.Nil {
		root = build(c.Root)
		root.This = c.Top.Go()
	}
	at := []M{}
	for _, p := range c.Paths {
		s := p.S()
		gs, e1 := root.GetString(s)
		gb, e2 := root.GetBytes(s)
		gi, e3 := root.GetInt64(s)
		gf, e4 := root.GetFloat64(s)
		gl, e5 := root.GetBool(s)
		at = append(at, M{"a": accessOf(root.Get(s)), "s": B(gs), "se": e1 != nil, "b": optBytes(gb), "be": e2 != nil,
			"i": val(gi), "ie": e3 != nil, "f": val(gf), "fe": e4 != nil, "o": gl, "oe": e5 != nil})
	}
	found := []M{}
	for _, f := range c.Find {
		q := regexp.QuoteMeta(f.S.S())
		switch f.K {
		case "pre":
			q = "^" + q
		case "suf":
			q = q + "$"
		case "eq":
			q = "^" + q + "$"
		case "all":
			q = ""
		case "bad":
			q = "(" + q
		}
		r, err := root.Find(q)
		which := []int{}
		if r != nil {
			for _, n := range r.Out {
				k := 0
				for i, x := range root.Out {
					if x == n {
						k = i + 1
					}
				}
				which = append(which, k)
			}
		}
		found = append(found, M{"nil": r == nil, "err": err != nil, "w": which})
	}
	return M{"a": accessOf(root), "at": at, "find": found, "d": heapDump([]*ogdl.Graph{root})}
}

var accessTexts = []string{"", " ", "0", "1", "-1", "+1", "007", "-0", "+", "-", "12 ", " 12", "12a", "1_000", "0x10", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
	"18446744073709551616", "1.5", "-2.25", "+.5", "5.", ".", "1e3", "1E-2", "1e", "e1", "1e400", "1e-400", "inf", "-Inf", "+infinity", "NaN", "nan", "true", "false", "True", "TRUE", "t", "f", "yes", " true", "null", "two words", "a,b", "é", "日本", "\"q\"", "3.0", "100000000000000000000.5", "0.1", "123456789012345", "true ", "1,2", "-5 ", "\t7"}

func accessVal(r *rand.Rand) Val {
	switch r.Intn(12) {
	case 0, 1, 2, 3:
		return val(pick(r, accessTexts))
	case 4:
		return val([]byte(pick(r, accessTexts)))
	case 5:
		return val(pick(r, []interface{}{int(0), int(5), int(-7), int8(-128), int8(127), int16(300), int16(-300), int32(1 << 30), int32(-5), uint(9), uint8(255), uint16(65535), uint32(4000000000), uint64(7), uint64(0)}))
	case 6:
		return val(pick(r, []interface{}{int64(9223372036854775807), int64(-9223372036854775808), uint64(9223372036854775808), uint64(18446744073709551615), uint64(9223372036854775807), uint(18446744073709551615), int64(0), int64(1), int64(-1), int64(123456789)}))
	case 7:
		return val(pick(r, []interface{}{0.0, 1.0, 1.5, -1.5, 0.99, -0.99, 1e6, 123456.0, 1e-5, 0.1, 1e18, -1e18, 9.3e18, 1e19, -9.3e18, 1e300, -1e300, 2.5e-300, float32(1.5), float32(-0.25), float32(3), float32(1e10)}))
	case 8:
		return val(float64(r.Intn(2000)-1000) / 8)
	case 9:
		return val(pick(r, []interface{}{true, false}))
	case 10:
		return val(nil)
	}
	switch r.Intn(4) {
	case 0:
		return val(fmt.Sprint(r.Int63() - r.Int63()))
	case 1:
		return val(fmt.Sprintf("%d.%d", r.Intn(1000)-500, r.Intn(1000)))
	case 2:
		return val(fmt.Sprintf("%d%se%d", r.Intn(100), pick(r, []string{"", ".5", "."}), r.Intn(40)-20))
	}
	return val(pick(r, evNames))
}

func genAccess(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		c := accessCase{Nil: r.Intn(60) == 0, Top: accessVal(r), Root: evRoot(r), Paths: []Bytes{B("")}, Find: []accessPattern{}}
		if r.Intn(3) == 0 {
			c.Top = val("_")
		}
		for j := range c.Root {
			if (j+1 == len(c.Root) || c.Root[j+1].L <= c.Root[j].L) && r.Intn(4) > 0 || r.Intn(12) == 0 {
				c.Root[j].V = accessVal(r)
			}
		}
		if c.Nil {
			c.Root, c.Top = []Node{}, val(nil)
		}
		for k := 1 + r.Intn(4); k > 0; k-- {
			c.Paths = append(c.Paths, B(evPath(r, c.Root, 1, false, false)))
		}
		for k := r.Intn(3); k > 0; k-- {
			s := pick(r, []string{"a", "1", "", ".", "é", "e", "_"})
			if len(c.Root) > 0 && r.Intn(3) > 0 {
				s = pick(r, c.Root).V.B.S()
			}
			c.Find = append(c.Find, accessPattern{pick(r, []string{"sub", "pre", "suf", "eq", "all", "bad"}), B(s)})
		}
		emit(c)
	}
}
