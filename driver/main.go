// The driver executes cases on the real code and writes what happened as
// JSON lines, to be judged by the TLA+ specification. It knows nothing about
// what the right results are.
//
//	driver gen SUITE SEED N            > cases.ndjson
//	driver run SUITE cases.ndjson      > trace.ndjson   (supervises workers)
//	driver exec SUITE                  (worker: cases on stdin, results on stdout)
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type M = map[string]interface{}

type suite struct {
	gen func(r *rand.Rand, n int, emit func(interface{}))
	run func(c json.RawMessage) interface{}
}

var suites = map[string]suite{}

func fatal(v ...interface{}) {
	fmt.Fprintln(os.Stderr, v...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 3 {
		fatal("usage: driver gen|run|exec SUITE ...")
	}
	s, ok := suites[os.Args[2]]
	if !ok {
		fatal("no suite", os.Args[2])
	}
	switch os.Args[1] {
	case "gen":
		seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
		n, _ := strconv.Atoi(os.Args[4])
		w := bufio.NewWriter(os.Stdout)
		enc := json.NewEncoder(w)
		enc.SetEscapeHTML(false)
		s.gen(rand.New(rand.NewSource(seed)), n, func(c interface{}) {
			if err := enc.Encode(c); err != nil {
				fatal(err)
			}
		})
		w.Flush()
	case "run":
		supervise(os.Args[2], os.Args[3])
	case "exec":
		work(s)
	default:
		fatal("unknown command")
	}
}

// ------------------------------------------------------------------ worker

func work(s suite) {
	// Runaway memory must end this process, not the sandbox
	if !raceDetector {
		lim := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetMaxStack(256 << 20)

	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 0 {
			r := guarded(s, line)
			b, e := json.Marshal(r)
			if e != nil {
				fatal("marshal:", e)
			}
			out.Write(b)
			out.WriteByte('\n')
			out.Flush()
		}
		if err != nil {
			return
		}
	}
}

func guarded(s suite, line []byte) (r interface{}) {
	defer func() {
		if e := recover(); e != nil {
			r = M{"panic": fmt.Sprint(e)}
		}
	}()
	return s.run(json.RawMessage(line))
}

// -------------------------------------------------------------- supervisor

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out chan []byte
}

func start(name string) *worker {
	self, _ := os.Executable()
	cmd := exec.Command(self, "exec", name)
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if os.Getenv("DRIVER_STDERR") != "" {
		cmd.Stderr = os.Stderr
	}
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	w := &worker{cmd, in, make(chan []byte, 1)}
	go func() {
		r := bufio.NewReaderSize(out, 1<<20)
		for {
			b, err := r.ReadBytes('\n')
			if err != nil {
				close(w.out)
				return
			}
			w.out <- b
		}
	}()
	return w
}

func supervise(name, file string) {
	f, err := os.Open(file)
	if err != nil {
		fatal(err)
	}
	limit := 20 * time.Second
	if s := os.Getenv("DRIVER_TIMEOUT"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Second
	}
	workers := 6
	if s := os.Getenv("DRIVER_WORKERS"); s != "" {
		workers, _ = strconv.Atoi(s)
	}
	rd := bufio.NewReaderSize(f, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer out.Flush()

	type job struct {
		i    int
		line []byte
	}
	jobs := make(chan job, 100)
	results := make(chan []byte, 100)
	var bad int32 // crashes and hangs
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			for j := range jobs {
				if atomic.LoadInt32(&bad) >= 5 {
					continue
				}
				if w == nil {
					w = start(name)
				}
				w.in.Write(j.line)
				var res []byte
				select {
				case b, ok := <-w.out:
					if ok {
						res = b[:len(b)-1]
					} else {
						w.cmd.Wait()
						w = nil
						atomic.AddInt32(&bad, 1)
						res = []byte(`{"crash":1}`)
					}
				case <-time.After(limit):
					w.cmd.Process.Kill()
					w.cmd.Wait()
					w = nil
					atomic.AddInt32(&bad, 1)
					res = []byte(`{"hang":1}`)
				}
				results <- []byte(fmt.Sprintf(`{"i":%d,"c":%s,"r":%s}`+"\n", j.i, j.line[:len(j.line)-1], res))
			}
			if w != nil {
				w.in.Close()
				w.cmd.Wait()
			}
		}()
	}
	go func() {
		for i := 1; ; i++ {
			line, err := rd.ReadBytes('\n')
			if len(line) > 1 {
				if line[len(line)-1] != '\n' {
					line = append(line, '\n')
				}
				jobs <- job{i, line}
			}
			if err != nil {
				break
			}
		}
		close(jobs)
		wg.Wait()
		close(results)
	}()
	for b := range results {
		out.Write(b)
	}
}
