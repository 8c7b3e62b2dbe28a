package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/json"
	"io"
	"log"
	"math/rand"
	"net"
	"sync"
	"time"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/ogdlrf"
)

// Suite remotebig: calls with long contents, of which only the length and the number are written down.
type bigCall struct {
	N    int   `json:"n"`
	Head Bytes `json:"head"`
}
type remoteBigCase struct {
	V  int         `json:"v"`
	Cl [][]bigCall `json:"cl"`
}

func init() {
	suites["remotebig"] = suite{genRemoteBig, runRemoteBig}
}

func (c bigCall) content(i int) []byte {
	b := append([]byte(c.Head.S()), bytes.Repeat([]byte("a"), c.N)...)
	return append(b, byte('A'+i))
}

// The nodes of a tree; a long content is that of call number i: [-1, i].
func compact(g *ogdl.Graph, sums map[[20]byte]int) []Node {
	t := []Node{}
	for _, n := range flat(g) {
		if n.V.T == "s" || n.V.T == "b" {
			if len(n.V.B) > 64 {
				n.V.B = Bytes{-1, sums[sha1.Sum([]byte(n.V.B.S()))]}
			}
		}
		t = append(t, n)
	}
	return t
}

var bigServers = map[int]string{}
var bigHandled struct {
	sync.Mutex
	t []*ogdl.Graph
}

func bigServer(v int) string {
	if a := bigServers[v]; a != "" {
		return a
	}
	log.SetOutput(io.Discard)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fatal(err)
	}
	addr := l.Addr().String()
	l.Close()
	srv := &ogdlrf.Server{Host: addr, Timeout: 100, Protocol: v}
	srv.AddRoute("echo", func(c net.Conn, g *ogdl.Graph) *ogdl.Graph {
		bigHandled.Lock()
		bigHandled.t = append(bigHandled.t, g)
		bigHandled.Unlock()
		r := ogdl.New("_")
		a := r.Add("got")
		a.Out = append(a.Out, g.Out...)
		return r
	})
	go srv.Serve()
	for try := 0; try < 2000; try++ {
		if c, err := net.Dial("tcp", addr); err == nil {
			c.Close()
			bigServers[v] = addr
			return addr
		}
		time.Sleep(2 * time.Millisecond)
	}
	fatal("no server")
	return ""
}

type bigMessage struct {
	Len  int   `json:"len"`
	Head Bytes `json:"head"`
}

func ends(b []byte) bigMessage {
	h := b
	if len(h) > 8 {
		h = h[:8]
	}
	return bigMessage{len(b), B(string(h))}
}

func runRemoteBig(raw json.RawMessage) interface{} {
	var c remoteBigCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	addr := bigServer(c.V)
	bigHandled.Lock()
	bigHandled.t = nil
	bigHandled.Unlock()
	sums := map[[20]byte]int{}
	k := 0
	for _, cl := range c.Cl {
		for _, x := range cl {
			k++
			sums[sha1.Sum(x.content(k))] = k
		}
	}
	out := make([][]M, len(c.Cl))
	var wg sync.WaitGroup
	k = 0
	for ci, cl := range c.Cl {
		first := k
		k += len(cl)
		wg.Add(1)
		go func(ci int, cl []bigCall) {
			defer wg.Done()
			// a relay that writes down the lengths
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				fatal(err)
			}
			defer l.Close()
			seen := make(chan [2]bigMessage, 100)
			go func() {
				for {
					a, err := l.Accept()
					if err != nil {
						return
					}
					go func() {
						defer a.Close()
						b, err := net.Dial("tcp", addr)
						if err != nil {
							return
						}
						defer b.Close()
						ra, rb := bufio.NewReaderSize(a, 1<<16), bufio.NewReaderSize(b, 1<<16)
						for {
							q, err := message(ra, c.V)
							if err != nil {
								return
							}
							b.Write(q)
							r, err := message(rb, c.V)
							if err != nil {
								return
							}
							seen <- [2]bigMessage{ends(q), ends(r)}
							a.Write(r)
						}
					}()
				}
			}()
			rf := &ogdlrf.Client{Host: l.Addr().String(), Timeout: 100, Protocol: c.V}
			for i, x := range cl {
				g := ogdl.New("_")
				g.Add("echo")
				g.Add(x.content(first + i + 1))
				g.Add("z")
				r, err := rf.Call(g)
				m := M{"ok": err == nil, "t": compact(r, sums), "req": bigMessage{0, Bytes{}}, "ans": bigMessage{0, Bytes{}}}
				select {
				case s := <-seen:
					m["req"], m["ans"] = s[0], s[1]
				default:
				}
				out[ci] = append(out[ci], m)
			}
			rf.Close()
		}(ci, cl)
	}
	wg.Wait()
	handled := [][]Node{}
	bigHandled.Lock()
	for _, g := range bigHandled.t {
		handled = append(handled, compact(g, sums))
	}
	bigHandled.t = nil
	bigHandled.Unlock()
	return M{"cl": out, "handled": handled}
}

func genRemoteBig(r *rand.Rand, n int, emit func(interface{})) {
	sizes := []int{100, 4080, 4096, 8192, 16384, 32767, 65500, 65520, 65521, 65535, 65536, 70000, 131072, 1 << 20, 3000000}
	for i := 0; i < n; i++ {
		c := remoteBigCase{V: 1 + i%2}
		for k := 1 + r.Intn(3); k > 0; k-- {
			cl := []bigCall{}
			for m := 1 + r.Intn(4); m > 0; m-- {
				s := pick(r, sizes)
				if r.Intn(3) == 0 {
					s += r.Intn(60) - 30
				}
				if r.Intn(60) == 0 {
					s = 17000000 + r.Intn(1000)
				}
				cl = append(cl, bigCall{s, B(pick(r, []string{"x", "\x00", "\x01", "a b"}))})
			}
			c.Cl = append(c.Cl, cl)
		}
		emit(c)
	}
}
