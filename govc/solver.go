package main

// SMT back ends: one persistent z3 for path feasibility, and a portfolio of
// z3 / z3-new / cvc5 processes for the obligations.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	osexec "os/exec"
	"strings"
	"sync"
	"time"
)

type incSolver struct {
	cmd *osexec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
	t   time.Duration
}

func newIncSolver() *incSolver {
	s := &incSolver{}
	s.start()
	return s
}

func (s *incSolver) start() {
	s.cmd = osexec.Command("z3-new", "-in", "-memory:3000")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReader(o)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	io.WriteString(s.in, "(set-option :print-success false)\n")
}

func (s *incSolver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// check returns "sat", "unsat" or "unknown".
func (s *incSolver) check(q string, ms int) string {
	s.n++
	t0 := time.Now()
	defer func() { s.t += time.Since(t0) }()
	_, err := io.WriteString(s.in, fmt.Sprintf("(push)\n(set-option :timeout %d)\n%s(check-sat)\n(pop)\n(echo \"<done>\")\n", ms, q))
	if err != nil {
		s.close()
		s.start()
		return "unknown"
	}
	res := "unknown"
	type rd struct {
		l   string
		err error
	}
	ch := make(chan rd, 1)
	for {
		go func() {
			l, err := s.out.ReadString('\n')
			ch <- rd{l, err}
		}()
		var r rd
		select {
		case r = <-ch:
		case <-time.After(time.Duration(ms+8000) * time.Millisecond):
			r.err = io.EOF
		}
		if r.err != nil {
			s.cmd.Process.Kill()
			s.cmd.Wait()
			s.start()
			return "unknown"
		}
		l := strings.TrimSpace(r.l)
		if l == "<done>" {
			break
		}
		switch l {
		case "sat", "unsat", "unknown":
			res = l
		default:
			if strings.HasPrefix(l, "(error") {
				fmt.Fprintln(os.Stderr, "z3:", l)
				if os.Getenv("GOVC_DUMP") != "" {
					os.WriteFile("/tmp/govc_bad.smt2", []byte(q), 0644)
				}
			}
		}
	}
	return res
}

type backend struct {
	name string
	args []string
}

var backends = []backend{
	{"z3-new", []string{"z3-new", "-in", "-memory:3000"}},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--incremental", "-q"}},
	{"z3", []string{"z3", "-in", "-memory:3000"}},
	{"z3-nl", []string{"z3-new", "-in", "-memory:3000", "smt.arith.solver=2"}},
}

var solverSem = make(chan struct{}, 8)

// runBackend runs one solver on the query text.
func runBackend(ctx context.Context, b backend, q string, to time.Duration, model bool) (string, string) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return "unknown", ""
	}
	c2, cancel := context.WithTimeout(ctx, to)
	defer cancel()
	cmd := osexec.CommandContext(c2, b.args[0], b.args[1:]...)
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	if model {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	sb.WriteString(q)
	sb.WriteString("(check-sat)\n")
	if model {
		sb.WriteString("(get-model)\n")
	}
	cmd.Stdin = strings.NewReader(sb.String())
	cmd.WaitDelay = time.Second
	out, _ := cmd.Output()
	txt := string(out)
	for _, l := range strings.Split(txt, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			return "unsat", txt
		case "sat":
			return "sat", txt
		}
	}
	return "unknown", txt
}

type solveResult struct {
	verdict string // unsat (discharged), sat, unknown
	by      string
	out     string
	dur     time.Duration
}

// discharge proves q unsatisfiable with the portfolio.
func discharge(q string, to time.Duration, hint string) solveResult {
	t0 := time.Now()
	// quick single shot first
	order := append([]backend{}, backends...)
	if hint != "" {
		for i, b := range order {
			if b.name == hint {
				order[0], order[i] = order[i], order[0]
			}
		}
	}
	first := 2 * time.Second
	v, out := runBackend(context.Background(), order[0], q, first, false)
	if v != "unknown" {
		return solveResult{v, order[0].name, out, time.Since(t0)}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type r struct {
		v, by, out string
	}
	ch := make(chan r, len(order))
	var wg sync.WaitGroup
	for _, b := range order {
		wg.Add(1)
		go func(b backend) {
			defer wg.Done()
			v, out := runBackend(ctx, b, q, to, false)
			ch <- r{v, b.name, out}
		}(b)
	}
	go func() { wg.Wait(); close(ch) }()
	last := r{"unknown", "", ""}
	for x := range ch {
		if x.v != "unknown" {
			cancel()
			return solveResult{x.v, x.by, x.out, time.Since(t0)}
		}
		last = x
	}
	return solveResult{"unknown", "", last.out, time.Since(t0)}
}

// getModel returns a model text for a satisfiable query, best effort.
func getModel(q string, to time.Duration) string {
	for _, b := range backends {
		v, out := runBackend(context.Background(), b, q, to, true)
		if v == "sat" {
			return out
		}
	}
	return ""
}
