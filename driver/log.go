package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"

	"github.com/rveen/ogdl"
)

// Suite log: sessions with one or two handles on a log file, or with a log in
// memory. Suite logsys: sessions whose system calls are recorded.
type logOp struct {
	O   string `json:"o"`   // add addb get getb walk sync nosync dosync reopen limit cut bytes
	H   int    `json:"h"`   // handle
	T   []Node `json:"t"`   // add: the tree
	B   Bytes  `json:"b"`   // addb: the object
	Ref int    `json:"ref"` // get: position returned by that operation (from 1), 0: n
	N   int    `json:"n"`   // position, limit or cut
}
type logCase struct {
	Mem bool    `json:"mem"`
	Ops []logOp `json:"ops"`
}

func init() {
	suites["log"] = suite{genLog, runLog}
	suites["logsys"] = suite{genLogSys, runLogSys}
	suites["logchild"] = suite{nil, runLogChild}
}

func fileLimit(n uint64) {
	var l syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l)
	l.Cur = n
	if n > l.Max {
		l.Cur = l.Max
	}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l)
}

const noLimit = ^uint64(0)

func runLog(raw json.RawMessage) interface{} {
	var c logCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	signal.Ignore(syscall.SIGXFSZ)
	dir, err := os.MkdirTemp("", "ogdllog")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	defer fileLimit(noLimit)
	name := filepath.Join(dir, "log")
	var hs [2]*ogdl.Log
	handle := func(i int) *ogdl.Log {
		if hs[i] == nil {
			if c.Mem {
				hs[i] = &ogdl.Log{}
			} else {
				l, err := ogdl.OpenLog(name)
				if err != nil {
					fatal(err)
				}
				hs[i] = l
			}
		}
		return hs[i]
	}
	size := func() int {
		if c.Mem {
			return len(handle(0).Bytes())
		}
		st, err := os.Stat(name)
		if err != nil {
			return 0
		}
		return int(st.Size())
	}
	type result struct {
		Pos  int64   `json:"pos"`
		At   int64   `json:"at"`
		Tree Tree    `json:"tree"`
		Nil  bool    `json:"nil"`
		B    Bytes   `json:"b"`
		Next int64   `json:"next"`
		Err  bool    `json:"err"`
		Ats  []int64 `json:"ats"`
		Ts   []Tree  `json:"ts"`
		Len  int     `json:"len"`
		Same bool    `json:"same"`
	}
	res := []result{}
	for _, o := range c.Ops {
		r := result{Pos: -9, Next: -9, Tree: tree(nil), B: Bytes{}, Ats: []int64{}, Ts: []Tree{}, Same: true}
		l := handle(o.H)
		at := int64(o.N)
		if o.Ref > 0 && o.Ref <= len(res) {
			at = res[o.Ref-1].Pos
		}
		r.At = at
		switch o.O {
		case "add":
			g := build(o.T)
			r.Pos = l.Add(g)
			after, _ := json.Marshal(flat(g))
			before, _ := json.Marshal(o.T)
			r.Same = bytes.Equal(after, before)
		case "addb":
			b := []byte(o.B.S())
			r.Pos = l.AddBinary(b)
			r.Same = string(b) == o.B.S()
		case "get":
			g, next, err := l.Get(at)
			r.Tree, r.Next, r.Err = tree(g), next, err != nil
		case "getb":
			b, next, err := l.GetBinary(at)
			r.Nil, r.B, r.Next, r.Err = b == nil, B(string(b)), next, err != nil
		case "walk":
			for p := int64(0); len(r.Ats) < 200; {
				g, next, err := l.Get(p)
				if g == nil || err != nil {
					r.Err = err != nil
					break
				}
				r.Ats = append(r.Ats, p)
				r.Ts = append(r.Ts, tree(g))
				p = next
			}
		case "sync":
			l.SetSync(true)
		case "nosync":
			l.SetSync(false)
		case "dosync":
			l.Sync()
		case "reopen":
			l.Close()
			if !c.Mem {
				hs[o.H] = nil
			}
		case "limit":
			if o.N < 0 {
				fileLimit(noLimit)
			} else {
				fileLimit(uint64(size() + o.N))
			}
		case "cut":
			n := size() - o.N
			if n < 0 {
				n = 0
			}
			os.Truncate(name, int64(n))
		case "bytes":
			b := l.Bytes()
			r.Nil, r.B = b == nil, B(string(b))
		}
		r.Len = size()
		res = append(res, r)
	}
	fileLimit(noLimit)
	var file []byte
	if c.Mem {
		file = handle(0).Bytes()
	} else {
		file, _ = os.ReadFile(name)
		for _, h := range hs {
			if h != nil {
				h.Close()
			}
		}
	}
	return M{"res": res, "file": B(string(file))}
}

func genLogTree(r *rand.Rand) []Node {
	size := 1 + r.Intn(5)
	switch r.Intn(300) {
	case 0, 3, 4, 5, 6, 7:
		return []Node{}
	case 1:
		return []Node{{0, Val{"s", B(strings.Repeat("x", 4000+r.Intn(300))), ""}}, {0, Val{"s", B("end"), ""}}}
	case 2:
		return []Node{{0, Val{"b", B(strings.Repeat("\x00", 4000+r.Intn(300))), ""}}, {1, Val{"s", B("end"), ""}}}
	}
	return genTree(r, size, 3, func(l int) Val {
		for {
			v := genContent(r)
			if v.T != "f" && len(v.B) < 1000 {
				return v
			}
		}
	})
}

func genLog(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		c := logCase{Mem: r.Intn(6) == 0, Ops: []logOp{}}
		adds := []int{}
		limited, cutDone := false, false
		for k := 3 + r.Intn(14); k > 0; k-- {
			o := logOp{H: r.Intn(2), T: []Node{}, B: Bytes{}}
			if c.Mem {
				o.H = 0
			}
			if r.Intn(3) == 0 {
				o.H = 0
			}
			x := r.Intn(20)
			switch {
			case x < 6:
				o.O, o.T = "add", genLogTree(r)
			case x < 8:
				o.O, o.B = "addb", B(string(build(genLogTree(r)).Binary()))
			case x < 12 && len(adds) > 0:
				o.O, o.Ref = pick(r, []string{"get", "getb"}), adds[r.Intn(len(adds))]
			case x == 12:
				o.O = "walk"
			case x == 13:
				o.O = pick(r, []string{"sync", "nosync", "dosync"})
			case x == 14:
				o.O = "reopen"
			case x == 15 && !c.Mem:
				o.O, o.N = "limit", r.Intn(30)
				if limited || r.Intn(5) == 0 {
					o.N = -1
				}
				limited = o.N >= 0
			case x == 16 && !c.Mem && !cutDone:
				o.O, o.N = "cut", 1+r.Intn(12)
				cutDone = r.Intn(2) == 0
			case x == 17:
				o.O = "bytes"
			case x == 18:
				// (a position beyond the end)
				o.O, o.N = pick(r, []string{"get", "getb"}), 100000
			default:
				o.O, o.Ref = "get", 0
			}
			c.Ops = append(c.Ops, o)
			if o.O == "add" || o.O == "addb" {
				adds = append(adds, len(c.Ops))
			}
		}
		c.Ops = append(c.Ops, logOp{O: "walk", T: []Node{}, B: Bytes{}})
		emit(c)
	}
}

// ------------------------------------------------- with the system calls

type logSysCase struct {
	Ops []logOp `json:"ops"`
}

// In the child: each operation is framed by marks on the standard error.
func runLogChild(raw json.RawMessage) interface{} {
	var c struct {
		logSysCase
		File string `json:"file"`
	}
	json.Unmarshal(raw, &c)
	mark := func(s string) { syscall.Write(2, []byte("MARK "+s)) }
	l, err := ogdl.OpenLog(c.File)
	if err != nil {
		fatal(err)
	}
	for i, o := range c.Ops {
		mark(fmt.Sprintf("begin %d", i+1))
		pos := int64(0)
		switch o.O {
		case "add":
			pos = l.Add(build(o.T))
		case "addb":
			pos = l.AddBinary([]byte(o.B.S()))
		case "sync":
			l.SetSync(true)
		case "nosync":
			l.SetSync(false)
		case "dosync":
			l.Sync()
		case "reopen":
			l.Close()
			if l, err = ogdl.OpenLog(c.File); err != nil {
				fatal(err)
			}
		case "get":
			l.Get(0)
		case "getb":
			l.GetBinary(0)
		}
		mark(fmt.Sprintf("end %d %d", i+1, pos))
	}
	l.Close()
	return M{}
}

type sysEvent struct {
	E string `json:"e"` // open, write, sync, trunc, begin, end
	N int    `json:"n"` // offset of a write, length of a truncation, number of the operation
	B Bytes  `json:"b"`
	P int    `json:"p"` // end: the position returned; open: 1 if written through
}

var (
	reCall = regexp.MustCompile(`^(\d+) +(\w+)\((.*)\) += (-?\d+)`)
	reHex  = regexp.MustCompile(`"((?:\\x[0-9a-f]{2})*)"`)
)

func unhex(s string) string {
	m := reHex.FindStringSubmatch(s)
	if m == nil {
		return ""
	}
	out, _ := strconv.Unquote(`"` + m[1] + `"`)
	return out
}

func runLogSys(raw json.RawMessage) interface{} {
	var c logSysCase
	json.Unmarshal(raw, &c)
	dir, err := os.MkdirTemp("", "ogdllog")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "log")
	self, _ := os.Executable()
	cmd := exec.Command("strace", "-f", "-xx", "-s", "200000", "-o", filepath.Join(dir, "strace"),
		"-e", "trace=openat,open,creat,write,pwrite64,writev,pwritev,lseek,fsync,fdatasync,syncfs,sync,ftruncate,truncate,close,fallocate,rename,renameat,renameat2,unlink,unlinkat,dup,dup2,dup3,mmap", self, "exec", "logchild")
	in, _ := json.Marshal(M{"ops": c.Ops, "file": name})
	cmd.Stdin = strings.NewReader(string(in) + "\n")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	if err := cmd.Run(); err != nil {
		if strings.Contains(stderr.String(), "strace:") || strings.Contains(err.Error(), "executable file not found") {
			return M{"untraced": 1}
		}
		return M{"crash": 1}
	}
	b, _ := os.ReadFile(filepath.Join(dir, "strace"))
	file, _ := os.ReadFile(name)
	ev := []sysEvent{}
	add := func(e string, n int, b string, p int) { ev = append(ev, sysEvent{e, n, B(b), p}) }
	fds := map[string]int{} // descriptors of the log: offset
	size := 0
	pending := map[string]string{}
	for _, line := range strings.Split(string(b), "\n") {
		pid := strings.SplitN(line, " ", 2)[0]
		if i := strings.Index(line, " <unfinished ...>"); i >= 0 {
			pending[pid] = line[:i]
			continue
		}
		if i := strings.Index(line, " resumed>"); i >= 0 {
			line = pending[pid] + line[i+len(" resumed>"):]
			delete(pending, pid)
		}
		m := reCall.FindStringSubmatch(line)
		if m == nil {
			continue
		}
		call, args, ret := m[2], m[3], m[4]
		n, _ := strconv.Atoi(ret)
		fd := strings.SplitN(args, ",", 2)[0]
		off, isLog := fds[fd]
		switch call {
		case "open", "openat", "creat":
			if n >= 0 && strings.HasPrefix(unhex(args), name) {
				if unhex(args) != name {
					add("other", 0, "", 0)
					continue
				}
				fds[ret] = 0
				p := 0
				if strings.Contains(args, "SYNC") {
					p = 1
				}
				if strings.Contains(args, "O_TRUNC") || call == "creat" {
					size = 0
					add("trunc", 0, "", 0)
				}
				if strings.Contains(args, "O_APPEND") {
					fds[ret] = -1
				}
				add("open", 0, "", p)
			}
		case "write":
			if fd == "2" {
				s := unhex(args)
				f := strings.Fields(s)
				if len(f) >= 3 && f[0] == "MARK" {
					k, _ := strconv.Atoi(f[2])
					p := 0
					if len(f) > 3 {
						p, _ = strconv.Atoi(f[3])
					}
					add(f[1], k, "", p)
				}
			} else if isLog && n > 0 {
				at := off
				if at < 0 {
					at = size
				}
				add("write", at, unhex(args)[:n], 0)
				if at+n > size {
					size = at + n
				}
				if off >= 0 {
					fds[fd] = at + n
				}
			}
		case "pwrite64":
			if isLog && n > 0 {
				f := strings.Split(args, ", ")
				at, _ := strconv.Atoi(f[len(f)-1])
				add("write", at, unhex(args)[:n], 0)
				if at+n > size {
					size = at + n
				}
			}
		case "lseek":
			if isLog && off >= 0 && n >= 0 {
				fds[fd] = n
			}
		case "fsync", "fdatasync", "syncfs":
			if isLog && n == 0 {
				add("sync", 0, "", 0)
			}
		case "sync":
			add("sync", 0, "", 0)
		case "ftruncate":
			if isLog && n == 0 {
				f := strings.Split(args, ", ")
				size, _ = strconv.Atoi(f[len(f)-1])
				add("trunc", size, "", 0)
			}
		case "close":
			delete(fds, fd)
		case "writev", "pwritev", "fallocate", "dup", "dup2", "dup3", "mmap":
			if isLog || call == "mmap" && strings.Contains(args, ", "+"MAP_SHARED") {
				add("other", 0, "", 0)
			}
		case "truncate", "rename", "renameat", "renameat2", "unlink", "unlinkat":
			if strings.Contains(unhex(args), name) {
				add("other", 0, "", 0)
			}
		}
	}
	return M{"ev": ev, "file": B(string(file))}
}

func genLogSys(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		c := logSysCase{}
		for k := 2 + r.Intn(8); k > 0; k-- {
			o := logOp{T: []Node{}, B: Bytes{}}
			t := genLogTree(r)
			if r.Intn(6) == 0 {
				t = append(t, Node{0, Val{"s", B(strings.Repeat("y", 1<<uint(6+r.Intn(8))+r.Intn(3))), ""}})
			}
			switch r.Intn(8) {
			case 0, 1, 2:
				o.O, o.T = "add", t
			case 3, 4:
				o.O, o.B = "addb", B(string(build(t).Binary()))
			case 5:
				o.O = pick(r, []string{"sync", "nosync", "dosync"})
			case 6:
				o.O = pick(r, []string{"get", "getb"})
			case 7:
				o.O = "reopen"
			}
			c.Ops = append(c.Ops, o)
		}
		emit(c)
	}
}
