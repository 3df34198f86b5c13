// Command h3 runs the real go3mf library on the cases it is given, one JSON object per line,
// and reports what it observed, one JSON object per line in the same order.
//
//	h3 run -in CASES -out RESULTS [-workers N] [-timeout SECONDS]
//	h3 worker
//
// The parent hands cases to worker processes, so that a crash or a hang of the library is an
// observation ({"fail":"crash"} or {"fail":"hang"}) and not the end of the run.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var ops = map[string]func(M) M{}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: h3 run|worker")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker()
	case "run":
		run(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func worker() {
	debug.SetMaxStack(64 << 20)
	debug.SetMemoryLimit(3 << 30)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 0 {
			b := []byte(runCase(line))
			out.Write(append(b, '\n'))
			out.Flush()
		}
		if err != nil {
			return
		}
	}
}

func runCase(line []byte) (res []byte) {
	enc := func(m M) []byte {
		var sb strings.Builder
		e := json.NewEncoder(&sb)
		e.SetEscapeHTML(false)
		if err := e.Encode(m); err != nil {
			return []byte(`{"fail":"encode"}`)
		}
		return []byte(strings.TrimRight(sb.String(), "\n"))
	}
	defer func() {
		if r := recover(); r != nil {
			msg, kind := fmt.Sprint(r), "crash"
			if _, ok := r.(harnessError); ok {
				kind = "harness"
			}
			if os.Getenv("H3_TRACE") != "" {
				msg += string(debug.Stack())
			}
			res = enc(M{"fail": kind, "msg": msg})
		}
	}()
	var c map[string]interface{}
	if err := json.Unmarshal(line, &c); err != nil {
		return enc(M{"fail": "harness", "msg": err.Error()})
	}
	m := M(c)
	f, ok := ops[m.s("op")]
	if !ok {
		return enc(M{"fail": "harness", "msg": "no op " + m.s("op")})
	}
	return enc(f(m))
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *strings.Builder
}

func start() *proc {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	p := &proc{cmd: exec.Command(exe, "worker"), err: &strings.Builder{}}
	p.in, _ = p.cmd.StdinPipe()
	o, _ := p.cmd.StdoutPipe()
	p.cmd.Stderr = &limited{p.err, 4000}
	p.out = bufio.NewReaderSize(o, 1<<20)
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	return p
}

type limited struct {
	b *strings.Builder
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if r := l.n - l.b.Len(); r > 0 {
		if len(p) < r {
			r = len(p)
		}
		l.b.Write(p[:r])
	}
	return len(p), nil
}

func (p *proc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func run(args []string) {
	fl := flag.NewFlagSet("run", flag.ExitOnError)
	inF := fl.String("in", "", "cases")
	outF := fl.String("out", "", "results")
	workers := fl.Int("workers", 8, "worker processes")
	fresh := fl.Bool("fresh", false, "a process of its own for each case")
	timeout := fl.Float64("timeout", 20, "seconds for a case")
	fl.Parse(args)
	f, err := os.Open(*inF)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var lines [][]byte
	rd := bufio.NewReaderSize(f, 1<<20)
	for {
		l, err := rd.ReadBytes('\n')
		if len(l) > 1 {
			lines = append(lines, l)
		}
		if err != nil {
			break
		}
	}
	f.Close()
	res := make([][]byte, len(lines))
	var wg sync.WaitGroup
	var mu sync.Mutex
	var hangs int32
	next := 0
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			defer func() {
				if p != nil {
					p.stop()
				}
			}()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= len(lines) {
					return
				}
				if atomic.LoadInt32(&hangs) >= 16 { // enough to know
					res[i] = []byte(`{"fail":"skipped"}` + "\n")
					continue
				}
				if p == nil {
					p = start()
				}
				type reply struct {
					b   []byte
					err error
				}
				ch := make(chan reply, 1)
				go func(p *proc) {
					l := lines[i]
					if l[len(l)-1] != '\n' {
						l = append(l[:len(l):len(l)], '\n')
					}
					p.in.Write(l)
					b, err := p.out.ReadBytes('\n')
					ch <- reply{b, err}
				}(p)
				select {
				case r := <-ch:
					if r.err == nil {
						res[i] = r.b
						if *fresh {
							p.stop()
							p = nil
						}
						continue
					}
					p.stop()
					msg := p.err.String()
					if len(msg) > 300 {
						msg = msg[:300]
					}
					b, _ := json.Marshal(M{"fail": "crash", "msg": msg})
					res[i] = append(b, '\n')
					p = nil
				case <-time.After(time.Duration(*timeout * float64(time.Second))):
					p.stop()
					p = nil
					atomic.AddInt32(&hangs, 1)
					res[i] = []byte(`{"fail":"hang"}` + "\n")
				}
			}
		}()
	}
	wg.Wait()
	o, err := os.Create(*outF)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	bw := bufio.NewWriter(o)
	for _, r := range res {
		bw.Write(r)
	}
	if err := bw.Flush(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	o.Close()
}

// harnessError is the panic of the harness when it cannot do its own work.
type harnessError struct{ error }
