package main

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"math"
	"math/big"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Result of a satisfiability query.
type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type proc struct {
	name string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	dead bool
}

func startProc(name string) *proc {
	var cmd *exec.Cmd
	switch name {
	case "z3":
		cmd = exec.Command("z3-new", "-in")
	case "z3old":
		cmd = exec.Command("z3", "-in")
	case "cvc5":
		cmd = exec.Command("cvc5", "--lang=smt2", "--incremental", "--produce-models", "--fp-exp")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return &proc{name: name, dead: true}
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return &proc{name: name, dead: true}
	}
	if err := cmd.Start(); err != nil {
		return &proc{name: name, dead: true}
	}
	return &proc{name: name, cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16)}
}

func (p *proc) kill() {
	if !p.dead {
		p.dead = true
		p.in.Close()
		p.cmd.Process.Kill()
		go p.cmd.Wait()
	}
}

// readSexp reads one line or one balanced s-expression.
func (p *proc) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		line, err := p.out.ReadString('\n')
		if err != nil {
			return sb.String(), err
		}
		if strings.TrimSpace(line) == "" && depth == 0 {
			continue
		}
		inq := false
		for _, ch := range line {
			switch ch {
			case '"', '|':
				inq = !inq
			case '(':
				if !inq {
					depth++
				}
			case ')':
				if !inq {
					depth--
				}
			}
		}
		sb.WriteString(line)
		if depth <= 0 {
			return strings.TrimSpace(sb.String()), nil
		}
	}
}

// Stats are shared by all workers of a run.
type Stats struct {
	queries, cacheHits, sat, unsat, unknown, errors int64
	solverNS                                        int64
	crossChecked, crossDisagree                     int64
	byZ3, byCVC5                                    int64
}

type cacheEntry struct {
	res  Result
	vals map[string]string
}

var (
	qcacheMu sync.Mutex
	qcache   = map[[32]byte]cacheEntry{}
	stats    Stats
	// crossCheck makes every unsat answer be confirmed by the other solver (thorough tier).
	crossCheck bool
)

// Solver is a per-worker portfolio.
type Solver struct {
	procs map[string]*proc
	mu    sync.Mutex
}

func newSolver() *Solver { return &Solver{procs: map[string]*proc{}} }

func (s *Solver) close() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, p := range s.procs {
		p.kill()
	}
	s.procs = map[string]*proc{}
}

func (s *Solver) get(name string) *proc {
	s.mu.Lock()
	defer s.mu.Unlock()
	p := s.procs[name]
	if p == nil || p.dead {
		p = startProc(name)
		s.procs[name] = p
	}
	return p
}

type ans struct {
	res  Result
	vals map[string]string
	err  string
	who  string
}

func (s *Solver) ask(name, text string, vars []*Term, timeout time.Duration, stop <-chan struct{}) ans {
	p := s.get(name)
	if p.dead {
		return ans{res: Unknown, err: "cannot start " + name, who: name}
	}
	done := make(chan ans, 1)
	go func() {
		var sb strings.Builder
		sb.WriteString("(reset)\n(set-option :produce-models true)\n")
		if name == "cvc5" {
			fmt.Fprintf(&sb, "(set-option :tlimit-per %d)\n(set-logic ALL)\n", timeout.Milliseconds())
		} else {
			fmt.Fprintf(&sb, "(set-option :timeout %d)\n", timeout.Milliseconds())
		}
		sb.WriteString(text)
		sb.WriteString("(check-sat)\n")
		if _, err := io.WriteString(p.in, sb.String()); err != nil {
			p.kill()
			done <- ans{res: Unknown, err: err.Error(), who: name}
			return
		}
		line, err := p.readSexp()
		if err != nil {
			p.kill()
			done <- ans{res: Unknown, err: "eof " + err.Error(), who: name}
			return
		}
		a := ans{who: name}
		switch line {
		case "sat":
			a.res = Sat
		case "unsat":
			a.res = Unsat
		case "unknown", "timeout":
			a.res = Unknown
		default:
			a.res = Unknown
			a.err = line
			p.kill()
			done <- a
			return
		}
		if a.res == Sat && len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vars {
				q.WriteString(v.smtName() + " ")
			}
			q.WriteString("))\n")
			io.WriteString(p.in, q.String())
			l, err := p.readSexp()
			if err != nil || strings.HasPrefix(l, "(error") {
				a.err = l
				p.kill()
			} else {
				a.vals = parseValues(l)
			}
		}
		done <- a
	}()
	hard := time.NewTimer(timeout + timeout/2 + 2*time.Second)
	defer hard.Stop()
	select {
	case a := <-done:
		return a
	case <-stop:
		p.kill()
		return ans{res: Unknown, err: "stopped", who: name}
	case <-hard.C:
		p.kill()
		return ans{res: Unknown, err: "hard timeout", who: name}
	}
}

// solve decides the conjunction of asserts.
func (s *Solver) solve(asserts []*Term, timeout time.Duration) (Result, map[string]string, []*Term) {
	text, vars := smtQuery(asserts)
	key := sha256.Sum256([]byte(text))
	qcacheMu.Lock()
	ce, ok := qcache[key]
	qcacheMu.Unlock()
	if ok && ce.res != Unknown {
		atomic.AddInt64(&stats.cacheHits, 1)
		return ce.res, ce.vals, vars
	}
	atomic.AddInt64(&stats.queries, 1)
	t0 := time.Now()
	defer func() { atomic.AddInt64(&stats.solverNS, int64(time.Since(t0))) }()

	fp := strings.Contains(text, "FloatingPoint")
	first, second := "z3", "cvc5"
	if fp {
		first, second = "cvc5", "z3"
	}
	short := 1500 * time.Millisecond
	if short > timeout {
		short = timeout
	}
	a := s.ask(first, text, vars, short, nil)
	if a.res == Unknown {
		stop1, stop2 := make(chan struct{}), make(chan struct{})
		ch := make(chan ans, 2)
		go func() { ch <- s.ask(first, text, vars, timeout, stop1) }()
		go func() { ch <- s.ask(second, text, vars, timeout, stop2) }()
		b := <-ch
		if b.res == Unknown {
			c := <-ch
			if c.res != Unknown {
				b = c
			}
		} else {
			if b.who == first {
				close(stop2)
			} else {
				close(stop1)
			}
			<-ch
		}
		a = b
	}
	if a.err != "" && a.res == Unknown && a.err != "hard timeout" && a.err != "stopped" {
		atomic.AddInt64(&stats.errors, 1)
		noteSolverError(a.who + ": " + a.err)
	}
	if crossCheck && a.res == Unsat {
		other := second
		if a.who == second {
			other = first
		}
		b := s.ask(other, text, vars, timeout, nil)
		if b.res != Unknown {
			atomic.AddInt64(&stats.crossChecked, 1)
		}
		if b.res == Sat {
			atomic.AddInt64(&stats.crossDisagree, 1)
			noteSolverError("solver disagreement on a query")
			a.res = Unknown
		}
	}
	switch a.res {
	case Sat:
		atomic.AddInt64(&stats.sat, 1)
	case Unsat:
		atomic.AddInt64(&stats.unsat, 1)
	default:
		atomic.AddInt64(&stats.unknown, 1)
	}
	switch a.who {
	case "z3":
		atomic.AddInt64(&stats.byZ3, 1)
	case "cvc5":
		atomic.AddInt64(&stats.byCVC5, 1)
	}
	qcacheMu.Lock()
	qcache[key] = cacheEntry{a.res, a.vals}
	qcacheMu.Unlock()
	return a.res, a.vals, vars
}

var (
	solverErrMu sync.Mutex
	solverErrs  []string
)

func noteSolverError(s string) {
	solverErrMu.Lock()
	defer solverErrMu.Unlock()
	if len(solverErrs) < 20 {
		if len(s) > 400 {
			s = s[:400]
		}
		solverErrs = append(solverErrs, s)
	}
}

// ---- model values ----

type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(s string) *sexp {
	pos := 0
	var parse func() *sexp
	parse = func() *sexp {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
			pos++
		}
		if pos >= len(s) {
			return nil
		}
		if s[pos] == '(' {
			pos++
			e := &sexp{list: []*sexp{}}
			for {
				for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
					pos++
				}
				if pos >= len(s) {
					return e
				}
				if s[pos] == ')' {
					pos++
					return e
				}
				x := parse()
				if x == nil {
					return e
				}
				e.list = append(e.list, x)
			}
		}
		st := pos
		for pos < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[pos])) {
			pos++
		}
		return &sexp{atom: s[st:pos]}
	}
	return parse()
}

func (e *sexp) text() string {
	if e.list == nil {
		return e.atom
	}
	xs := make([]string, len(e.list))
	for i, x := range e.list {
		xs[i] = x.text()
	}
	return "(" + strings.Join(xs, " ") + ")"
}

func parseValues(s string) map[string]string {
	e := parseSexp(s)
	out := map[string]string{}
	if e == nil {
		return out
	}
	for _, p := range e.list {
		if len(p.list) == 2 {
			out[p.list[0].text()] = p.list[1].text()
		}
	}
	return out
}

func ratOf(e *sexp) *big.Rat {
	if e.list == nil {
		a := strings.TrimSuffix(e.atom, "?")
		r, ok := new(big.Rat).SetString(a)
		if !ok {
			return nil
		}
		return r
	}
	if len(e.list) == 0 {
		return nil
	}
	switch e.list[0].atom {
	case "-":
		if len(e.list) == 2 {
			r := ratOf(e.list[1])
			if r == nil {
				return nil
			}
			return r.Neg(r)
		}
	case "/":
		if len(e.list) == 3 {
			a, b := ratOf(e.list[1]), ratOf(e.list[2])
			if a == nil || b == nil || b.Sign() == 0 {
				return nil
			}
			return a.Quo(a, b)
		}
	case "to_real":
		return ratOf(e.list[1])
	}
	return nil
}

func bitsOf(a string) (uint64, int, bool) {
	if strings.HasPrefix(a, "#b") {
		v, err := strconv.ParseUint(a[2:], 2, 64)
		return v, len(a) - 2, err == nil
	}
	if strings.HasPrefix(a, "#x") {
		v, err := strconv.ParseUint(a[2:], 16, 64)
		return v, 4 * (len(a) - 2), err == nil
	}
	return 0, 0, false
}

// constOf converts a solver value to a constant of sort so; nil if it cannot be represented.
func (c *Ctx) constOf(so Sort, v string) *Term {
	e := parseSexp(v)
	if e == nil {
		return nil
	}
	switch so.k {
	case SBool:
		if e.atom == "true" {
			return c.T
		}
		if e.atom == "false" {
			return c.F
		}
	case SInt:
		if r := ratOf(e); r != nil && r.IsInt() {
			return c.Rat(sInt, r)
		}
	case SReal:
		if r := ratOf(e); r != nil {
			return c.Rat(sReal, r)
		}
	case SBV:
		if u, _, ok := bitsOf(e.atom); ok {
			return c.BV(so.w, u)
		}
		if len(e.list) == 3 && e.list[0].atom == "_" && strings.HasPrefix(e.list[1].atom, "bv") {
			u, err := strconv.ParseUint(e.list[1].atom[2:], 10, 64)
			if err == nil {
				return c.BV(so.w, u)
			}
		}
	case SFP:
		if len(e.list) == 4 && e.list[0].atom == "fp" {
			s, _, o1 := bitsOf(e.list[1].atom)
			x, _, o2 := bitsOf(e.list[2].atom)
			m, _, o3 := bitsOf(e.list[3].atom)
			if o1 && o2 && o3 {
				return c.FP(math.Float64frombits(s<<63 | x<<52 | m))
			}
		}
		if len(e.list) >= 2 && e.list[0].atom == "_" {
			switch e.list[1].atom {
			case "+zero":
				return c.FP(0)
			case "-zero":
				return c.FP(math.Copysign(0, -1))
			case "+oo":
				return c.FP(math.Inf(1))
			case "-oo":
				return c.FP(math.Inf(-1))
			case "NaN":
				return c.FP(math.NaN())
			}
		}
	}
	return nil
}
