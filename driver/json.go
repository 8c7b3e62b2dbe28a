package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/rveen/ogdl"
)

// Suite json: texts imported as JSON.
type inputCase struct {
	T Bytes `json:"t"`
}

func init() {
	suites["json"] = suite{genJSON, runJSON}
}

func runJSON(raw json.RawMessage) interface{} {
	var c inputCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	g, err := ogdl.FromJSON([]byte(c.T.S()))
	return M{"err": err != nil, "d": heapDump([]*ogdl.Graph{g})}
}

func jsSpace(r *rand.Rand) string {
	return pick(r, []string{"", "", "", "", " ", "\n", "\t", "\r\n", "  "})
}

func jsString(r *rand.Rand) string {
	s := "\""
	for k := r.Intn(5) * r.Intn(3); k > 0; k-- {
		switch r.Intn(14) {
		case 0:
			s += pick(r, []string{"\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t"})
		case 1:
			s += fmt.Sprintf("\\u%04x", r.Intn(0x10000))
		case 2:
			s += fmt.Sprintf("\\u%04X\\u%04x", 0xd800+r.Intn(1024), 0xdc00+r.Intn(1024))
		case 3:
			s += pick(r, []string{"\\ud800", "\\udc00", "\\ud800\\n", "\\uD83D\\u0041", "\\u0000", "\\u00e9"})
		case 4:
			s += pick(r, []string{"é", "日本", "😀", "\u2028", "\x7f", "\u00a0"})
		case 5:
			s += pick(r, []string{"_", "-", " ", "/", "'", "!", "{", "[", ",", ":", ".", "1", "true"})
		default:
			s += string(rune('a' + r.Intn(26)))
		}
	}
	return s + "\""
}

func jsValue(r *rand.Rand, depth int) string {
	k := r.Intn(10)
	if depth <= 0 {
		k = r.Intn(6)
	}
	switch {
	case k == 0:
		return pick(r, []string{"true", "false", "null"})
	case k == 1:
		return pick(r, []string{"0", "-0", "-1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "1e3", "1E+2", "1.0", "0.5", "-0.0", "1e-7", "2.5e10", "123456789012345678901234567890", "1e400", "-1e400", "1e-400", "0e0", "0.1", "12345.678", "100"})
	case k == 2:
		return fmt.Sprint(r.Int63()>>uint(r.Intn(63)) - r.Int63()>>uint(r.Intn(63)))
	case k < 6:
		if r.Intn(100) == 0 {
			return "\"" + strings.Repeat(pick(r, []string{"a", "é", "\\n", "\\u00e9", "x y "}), 30+r.Intn(300)) + "\""
		}
		return jsString(r)
	}
	n := r.Intn(4)
	if r.Intn(80) == 0 { // long ones
		n, depth = 10+r.Intn(30), 1
	}
	items := []string{}
	for ; n > 0; n-- {
		v := jsSpace(r) + jsValue(r, depth-1-r.Intn(2)) + jsSpace(r)
		if k < 8 {
			key := jsString(r)
			if r.Intn(2) == 0 && n < 10 {
				key = pick(r, []string{`"a"`, `"b"`, `"_"`, `""`, `"\u0061"`})
			}
			v = jsSpace(r) + key + jsSpace(r) + ":" + v
		}
		items = append(items, v)
	}
	s := strings.Join(items, ",")
	if len(items) == 0 {
		s = jsSpace(r)
	}
	if k < 8 {
		return "{" + s + "}"
	}
	return "[" + s + "]"
}

func genJSON(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		s := jsSpace(r) + jsValue(r, 1+r.Intn(6)) + jsSpace(r)
		switch r.Intn(40) {
		case 0: // deep
			d := 50 + r.Intn(300)
			s = strings.Repeat("[", d) + s + strings.Repeat("]", d)
		case 1:
			d := 20 + r.Intn(100)
			s = strings.Repeat(`{"a":[`, d) + s + strings.Repeat("]}", d)
		}
		if r.Intn(4) == 0 {
			s = mutate(r, s, "{}[],:\"\\ \n0123456789.-+eEtrufalsn\x01\x80é")
		}
		emit(inputCase{B(s)})
	}
}
