package main

import (
	"encoding/json"
	"fmt"
	"math/rand"

	"github.com/rveen/ogdl"
)

// Suite events: trees built by events, sent to a handler or through a parser.
type eventOp struct {
	O string `json:"o"`
	V Val    `json:"v"`
	L int    `json:"l"`
}
type eventCase struct {
	Ops []eventOp `json:"ops"`
}
type eventStep struct {
	L     int    `json:"l"` // the level afterwards
	Root  string `json:"root,omitempty"`
	D     []Node `json:"d,omitempty"`
	Again []Node `json:"again,omitempty"` // the same tree when everything is done
}

func init() {
	suites["events"] = suite{genEvents, runEvents}
}

func runEvents(raw json.RawMessage) interface{} {
	var c eventCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	p := ogdl.NewStringParser("")
	e := p.Handler()
	steps := []M{}
	trees := map[int]*ogdl.Graph{}
	for i, o := range c.Ops {
		switch o.O {
		case "add":
			e.Add(o.V.B.S())
		case "emit":
			p.Emit(o.V.B.S())
		case "addb":
			e.AddBytes([]byte(o.V.B.S()))
		case "addi":
			e.AddItf(o.V.Go())
		case "addat":
			e.AddAt(o.V.B.S(), o.L)
		case "addbat":
			e.AddBytesAt([]byte(o.V.B.S()), o.L)
		case "delete":
			e.Delete()
		case "set":
			e.SetLevel(o.L)
		case "inc":
			e.Inc()
		case "pinc":
			p.Inc()
		case "dec":
			e.Dec()
		case "pdec":
			p.Dec()
		}
		s := M{"l": e.Level()}
		if o.O == "tree" {
			t, other := e.Tree(), p.Graph()
			for _, g := range append([]*ogdl.Graph{other}, other.Out...) { // edits of one are not seen in the other
				g.Add("edit")
				g.This = "edited"
				g.DeleteAt(0)
			}
			trees[i] = t
			s["root"] = fmt.Sprint(t.This)
			s["d"] = flat(t)
		}
		steps = append(steps, s)
	}
	for i, t := range trees {
		steps[i]["again"] = flat(t)
	}
	return M{"steps": steps}
}

func genEvents(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		c := eventCase{Ops: []eventOp{}}
		level, live, steady := 0, 0, r.Intn(3) > 0
		size := 1 + r.Intn(12)
		if r.Intn(10) == 0 {
			size = 200
		}
		for k := 0; k < size; k++ {
			o := eventOp{V: val(nil)}
			text := func() { o.V = val(pick(r, []string{"a", "b", "", "two words", "é\n", "_", "\x00"}) + fmt.Sprint(k)) }
			switch q := r.Intn(20); {
			case q < 6:
				o.O = pick(r, []string{"add", "add", "emit"})
				text()
				live++
			case q < 7:
				o.O = "addb"
				text()
				o.V = val([]byte(o.V.B.S()))
				live++
			case q < 9:
				o.O = "addi"
				o.V = evVal(r, r.Intn(2) == 0)
				if r.Intn(6) == 0 {
					o.V = val(nil)
				}
				live++
			case q < 11:
				o.O = pick(r, []string{"addat", "addbat"})
				text()
				if o.O == "addbat" {
					o.V = val([]byte(o.V.B.S()))
				}
				o.L = r.Intn(level + 2)
				if !steady {
					o.L = r.Intn(6)
				}
				live++
			case q < 12:
				o.O = "delete"
				if live == 0 && r.Intn(4) > 0 {
					o.O = "level"
				} else if live > 0 {
					live--
				}
			case q < 15:
				if steady && live == 0 {
					o.O = "level"
					break
				}
				o.O = pick(r, []string{"inc", "pinc"})
				level++
			case q < 17:
				o.O = pick(r, []string{"dec", "pdec"})
				if level > 0 {
					level--
				}
			case q < 18:
				o.O = "set"
				o.L = r.Intn(level + 2)
				if !steady {
					o.L = pick(r, []int{0, 1, 2, 3, 5, 40})
				}
				level = o.L
			default:
				o.O = "tree"
			}
			c.Ops = append(c.Ops, o)
		}
		c.Ops = append(c.Ops, eventOp{O: "tree", V: val(nil)})
		emit(c)
	}
}
