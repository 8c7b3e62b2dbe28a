package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/ogdlrf"
)

// Suite remote: clients that call a server, each through a proxy that splits, delays, loses and cuts the messages as
// told, and connections that send bytes to the server themselves. All at the same time. Everything that is seen is
// written down in the order in which it happened.
type fate struct {
	K string `json:"k"` // ok, okcut, creq, drop, cans, lose, late, lreq
	M int    `json:"m"` // where to cut (negative: from the end)
	S []int  `json:"s"` // sizes of segments, in turn (none: all at once)
}

type remoteClient struct {
	Calls [][]Node `json:"calls"`
	F     []fate   `json:"f"`
	Raw   Bytes    `json:"raw"` // sent as it is if there are no calls
	S     []int    `json:"s"`
	To    int      `json:"to"` // the client's timeout, in seconds
}

type remoteCase struct {
	V  int            `json:"v"`
	Cl []remoteClient `json:"cl"`
}

type remoteEvent struct {
	E  string `json:"e"` // call, req, handle, ret, got
	I  int    `json:"i"` // the number of the call (call, ret)
	OK bool   `json:"ok"`
	B  Bytes  `json:"b"`
	T  []Node `json:"t"`
}

type remoteLog struct {
	sync.Mutex
	ev    [][]remoteEvent
	stray int
	over  bool
}

func (l *remoteLog) add(c int, e remoteEvent) {
	if e.B == nil {
		e.B = Bytes{}
	}
	if e.T == nil {
		e.T = []Node{}
	}
	l.Lock()
	defer l.Unlock()
	if l.over {
		return
	}
	if c < 0 || c >= len(l.ev) {
		l.stray++
		return
	}
	l.ev[c] = append(l.ev[c], e)
}

func init() {
	suites["remote"] = suite{genRemote, runRemote}
}

var remoteNow struct {
	sync.Mutex
	n   int
	log *remoteLog
}
var remoteAddr = map[int]string{}

// note writes down a request that a handler got. The request says whose it is.
func note(g *ogdl.Graph) {
	remoteNow.Lock()
	n, l := remoteNow.n, remoteNow.log
	remoteNow.Unlock()
	c := -1
	if len(g.Out) > 1 && g.Out[1] != nil {
		var run, cl int
		if k, _ := fmt.Sscanf(fmt.Sprint(g.Out[1].This), "r%d c%d", &run, &cl); k == 2 {
			if run != n {
				return // of a case that is over
			}
			c = cl
		}
	}
	l.add(c, remoteEvent{E: "handle", T: flat(g)})
}

func remoteServer(v int) string {
	if a := remoteAddr[v]; a != "" {
		return a
	}
	log.SetOutput(io.Discard)
	for try := 0; try < 20; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			fatal(err)
		}
		addr := l.Addr().String()
		l.Close()
		srv := &ogdlrf.Server{Host: addr, Timeout: 100, Protocol: v}
		echo := func(c net.Conn, g *ogdl.Graph) *ogdl.Graph {
			note(g)
			r := ogdl.New("_")
			a := r.Add("got")
			a.Out = append(a.Out, g.Out...)
			return r
		}
		srv.AddRoute("echo", echo)
		srv.AddRoute("slow", func(c net.Conn, g *ogdl.Graph) *ogdl.Graph {
			time.Sleep(20 * time.Millisecond)
			return echo(c, g)
		})
		srv.AddRoute("empty", func(c net.Conn, g *ogdl.Graph) *ogdl.Graph {
			note(g)
			return ogdl.New("_")
		})
		srv.AddRoute("nil", func(c net.Conn, g *ogdl.Graph) *ogdl.Graph {
			note(g)
			return nil
		})
		failed := make(chan bool, 1)
		go func() {
			srv.Serve()
			failed <- true
		}()
		for {
			if c, err := net.Dial("tcp", addr); err == nil {
				c.Close()
				remoteAddr[v] = addr
				return addr
			}
			select {
			case <-failed:
			case <-time.After(2 * time.Millisecond):
				continue
			}
			break
		}
	}
	fatal("no server")
	return ""
}

// message reads a whole message and returns its bytes.
func message(r *bufio.Reader, v int) ([]byte, error) {
	if v != 1 {
		h := make([]byte, 4)
		if _, err := io.ReadFull(r, h); err != nil {
			return nil, err
		}
		n := binary.BigEndian.Uint32(h)
		if n > 1<<26 {
			return nil, io.ErrUnexpectedEOF
		}
		b := make([]byte, n)
		_, err := io.ReadFull(r, b)
		return append(h, b...), err
	}
	var b []byte
	get := func() (byte, error) {
		c, err := r.ReadByte()
		b = append(b, c)
		return c, err
	}
	num := func() (int, error) {
		c, err := get()
		n, k := int(c), 0
		switch {
		case c >= 0xe0:
			n, k = n&0x1f, 3
		case c >= 0xc0:
			n, k = n&0x3f, 2
		case c >= 0x80:
			n, k = n&0x7f, 1
		}
		for ; k > 0 && err == nil; k-- {
			c, err = get()
			n = n<<8 | int(c)
		}
		return n, err
	}
	for i := 0; i < 3; i++ {
		if _, err := get(); err != nil {
			return nil, err
		}
	}
	for {
		l, err := num()
		if err != nil || l == 0 {
			return b, err
		}
		c, err := get()
		if err == nil && c == 1 {
			for {
				n, err := num()
				if err != nil {
					return nil, err
				}
				if n == 0 {
					break
				}
				for ; n > 0; n-- {
					if _, err := get(); err != nil {
						return nil, err
					}
				}
			}
			continue
		}
		for err == nil && c != 0 {
			c, err = get()
		}
		if err != nil {
			return nil, err
		}
	}
}

// send writes b in segments.
func send(c net.Conn, b []byte, sizes []int) error {
	for i := 0; len(b) > 0; i++ {
		n := len(b)
		if i < 40 && len(sizes) > 0 && sizes[i%len(sizes)] < n {
			n = sizes[i%len(sizes)]
		}
		if _, err := c.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if len(b) > 0 {
			time.Sleep(500 * time.Microsecond)
		}
	}
	return nil
}

func cutAt(b []byte, m int) []byte {
	if m < 0 {
		m += len(b)
	}
	if m < 0 {
		m = 0
	}
	if m >= len(b) {
		m = len(b) - 1
	}
	return b[:m]
}

type proxy struct {
	sync.Mutex
	l    net.Listener
	to   string
	v    int
	c    int
	f    []fate
	log  *remoteLog
	busy sync.WaitGroup
}

func (p *proxy) next() fate {
	p.Lock()
	defer p.Unlock()
	if len(p.f) == 0 {
		return fate{K: "ok"}
	}
	f := p.f[0]
	p.f = p.f[1:]
	return f
}

func (p *proxy) serve() {
	for {
		c, err := p.l.Accept()
		if err != nil {
			return
		}
		p.busy.Add(1)
		go p.relay(c)
	}
}

func (p *proxy) relay(c net.Conn) {
	defer p.busy.Done()
	defer c.Close()
	s, err := net.Dial("tcp", p.to)
	if err != nil {
		return
	}
	defer s.Close()
	rc, rs := bufio.NewReader(c), bufio.NewReader(s)
	for {
		q, err := message(rc, p.v)
		if err != nil {
			return
		}
		p.log.add(p.c, remoteEvent{E: "req", B: B(string(q))})
		f := p.next()
		switch f.K {
		case "creq":
			send(s, cutAt(q, f.M), f.S)
			return
		case "drop":
			send(s, q, f.S)
			return
		case "lose":
			rc.ReadByte()
			return
		case "lreq":
			rc.ReadByte()
			send(s, q, f.S)
			s.SetReadDeadline(time.Now().Add(time.Second))
			message(rs, p.v)
			return
		}
		if send(s, q, f.S) != nil {
			return
		}
		a, err := message(rs, p.v)
		if err != nil {
			return
		}
		switch f.K {
		case "cans":
			send(c, cutAt(a, f.M), f.S)
			return
		case "late":
			rc.ReadByte()
			send(c, a, nil)
			return
		}
		if send(c, a, f.S) != nil || f.K == "okcut" {
			return
		}
	}
}

func runRemote(raw json.RawMessage) interface{} {
	var c remoteCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	addr := remoteServer(c.V)
	l := &remoteLog{ev: make([][]remoteEvent, len(c.Cl))}
	for i := range l.ev {
		l.ev[i] = []remoteEvent{}
	}
	remoteNow.Lock()
	remoteNow.n++
	run := remoteNow.n
	remoteNow.log = l
	remoteNow.Unlock()

	var wg sync.WaitGroup
	var proxies []*proxy
	for ci, cl := range c.Cl {
		if len(cl.Calls) == 0 {
			wg.Add(1)
			go func(ci int, cl remoteClient) {
				defer wg.Done()
				// the number of the case is only known now
				b := []byte(strings.ReplaceAll(cl.Raw.S(), "r0000 ", fmt.Sprintf("r%04d ", run)))
				s, err := net.Dial("tcp", addr)
				if err != nil {
					return
				}
				defer s.Close()
				if send(s, b, cl.S) == nil {
					s.(*net.TCPConn).CloseWrite()
				}
				s.SetReadDeadline(time.Now().Add(15 * time.Second))
				got, err := io.ReadAll(s)
				ne, late := err.(net.Error)
				l.add(ci, remoteEvent{E: "got", B: B(strings.ReplaceAll(string(got), fmt.Sprintf("r%04d ", run), "r0000 ")), OK: !(late && ne.Timeout())})
			}(ci, cl)
			continue
		}
		pl, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			fatal(err)
		}
		p := &proxy{l: pl, to: addr, v: c.V, c: ci, f: cl.F, log: l}
		proxies = append(proxies, p)
		go p.serve()
		wg.Add(1)
		go func(ci int, cl remoteClient) {
			defer wg.Done()
			rf := &ogdlrf.Client{Host: pl.Addr().String(), Timeout: cl.To, Protocol: c.V}
			for i, q := range cl.Calls {
				g := build(q)
				if len(g.Out) > 1 {
					g.Out[1].This = fmt.Sprintf("r%04d c%d %d", run, ci, i+1)
				}
				l.add(ci, remoteEvent{E: "call", I: i + 1})
				r, err := rf.Call(g)
				e := remoteEvent{E: "ret", I: i + 1, OK: err == nil}
				if err == nil {
					e.T = flat(r)
				}
				l.add(ci, e)
			}
			rf.Close()
		}(ci, cl)
	}
	wg.Wait()
	for _, p := range proxies {
		p.busy.Wait()
		p.l.Close()
	}
	time.Sleep(10 * time.Millisecond)
	l.Lock()
	defer l.Unlock()
	l.over = true
	// the number of the case does not matter
	tag, z := fmt.Sprintf("r%04d ", run), "r0000 "
	for _, evs := range l.ev {
		for i := range evs {
			evs[i].B = B(strings.ReplaceAll(evs[i].B.S(), tag, z))
			for k := range evs[i].T {
				if b := evs[i].T[k].V.B.S(); strings.HasPrefix(b, tag) {
					evs[i].T[k].V.B = B(z + b[len(tag):])
				}
			}
		}
	}
	return M{"ev": l.ev, "stray": l.stray}
}

// ------------------------------------------------------------- generation

func rmSegs(r *rand.Rand) []int {
	s := []int{}
	for k := r.Intn(4); k > 0; k-- {
		s = append(s, 1+r.Intn(1+r.Intn(20)))
	}
	return s
}

func rmQuery(r *rand.Rand, ci, i, v int) []Node {
	path := pick(r, []string{"echo", "echo", "echo", "echo", "slow", "nope", "empty", "ech", "echo2"})
	if v != 1 && r.Intn(20) == 0 {
		path = "nil"
	}
	str := func(s string) Val { return Val{"s", B(s), ""} }
	q := []Node{{0, str(path)}, {0, str(fmt.Sprintf("r0000 c%d %d", ci, i))}}
	l := 0
	for k := r.Intn(6); k > 0; k-- {
		s := ""
		for m := r.Intn(12); m > 0; m-- {
			s += pick(r, []string{"a", "b", " ", "\n", "é", "\x00", "\x01", "\xff", "G", "z"})
		}
		if r.Intn(8) == 0 {
			s = strings.Repeat("x", 1<<uint(r.Intn(13)))
		}
		if r.Intn(40) == 0 {
			s = string([]byte{0, 0, 0, 5, 1, 'G', 0, 1, 'a', 0, 0})
		}
		q = append(q, Node{l, str(s)})
		if r.Intn(4) == 0 {
			q[len(q)-1].V.T = "b"
		}
		l = r.Intn(l + 2)
	}
	return q
}

func genRemote(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		c := remoteCase{V: 2}
		if r.Intn(3) == 0 {
			c.V = 1
		}
		slow := c.V == 2 && i%4 == 0 // this case has losses
		for ci := 0; ci < 8+r.Intn(24); ci++ {
			cl := remoteClient{To: 100, F: []fate{}, Raw: Bytes{}, S: []int{}, Calls: [][]Node{}}
			if c.V == 2 && r.Intn(5) == 0 {
				cl.Raw, cl.S = rmRaw(r, ci), rmSegs(r)
				c.Cl = append(c.Cl, cl)
				continue
			}
			for k := 1; k <= 1+r.Intn(4); k++ {
				cl.Calls = append(cl.Calls, rmQuery(r, ci, k, c.V))
			}
			kinds := []string{"ok", "ok", "ok", "okcut", "creq", "drop", "cans"}
			if slow && r.Intn(2) == 0 {
				cl.To = 1
				kinds = append(kinds, "lose", "late", "late", "lreq")
			}
			for k := r.Intn(10); k > 0; k-- {
				cl.F = append(cl.F, fate{pick(r, kinds), r.Intn(40) - 20, rmSegs(r)})
			}
			c.Cl = append(c.Cl, cl)
		}
		emit(c)
	}
}

// rmRaw: several messages one right after the other, the last ones perhaps not in order.
func rmRaw(r *rand.Rand, ci int) Bytes {
	var b []byte
	for k := 1; k <= 1+r.Intn(4); k++ {
		q := rmQuery(r, ci, k, 1)
		m := build(q).Binary()
		h := make([]byte, 4)
		n := len(m)
		if r.Intn(8) == 0 {
			n += r.Intn(9) - 4
		}
		if r.Intn(30) == 0 {
			n = r.Intn(3)
		}
		binary.BigEndian.PutUint32(h, uint32(n))
		if r.Intn(12) == 0 {
			// not where it says whose it is
			m[pick(r, []int{0, 1, 2, 3, len(m) - 1})] ^= byte(1 << uint(r.Intn(8)))
		}
		b = append(append(b, h...), m...)
	}
	if r.Intn(4) == 0 {
		b = b[:r.Intn(len(b)+1)]
	}
	return B(string(b))
}
