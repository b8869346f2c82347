package main

// A pipe to an SMT solver (z3-new -in). Constraints are asserted as a stack of
// scopes that is shared between consecutive queries.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int
	CacheHits                    int
	Quick                        int // decided by finite-domain and interval propagation
	Time                         time.Duration
	MaxQuery                     time.Duration
	Restarts                     int
	Fallbacks                    int
	CrossChecked, CrossDisagree  int
}

func (a *SolverStats) add(b SolverStats) {
	a.Queries += b.Queries
	a.Sat += b.Sat
	a.Unsat += b.Unsat
	a.Unknown += b.Unknown
	a.CacheHits += b.CacheHits
	a.Quick += b.Quick
	a.Time += b.Time
	a.Restarts += b.Restarts
	a.Fallbacks += b.Fallbacks
	a.CrossChecked += b.CrossChecked
	a.CrossDisagree += b.CrossDisagree
	if b.MaxQuery > a.MaxQuery {
		a.MaxQuery = b.MaxQuery
	}
}

type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.Closer
	lines   chan string
	gen     int
	stack   []*Term
	ndefs   int
	timeout time.Duration
	st      SolverStats
	ints    bool // linear integer encoding
	lia     *Lia
}

var solverGen int

func newSolver(timeout time.Duration) *Solver {
	return &Solver{timeout: timeout}
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-memory:3000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatalf("solver: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatalf("solver: %v", err)
	}
	if err := s.cmd.Start(); err != nil {
		fatalf("solver: %v", err)
	}
	var w io.Writer = in
	if d := os.Getenv("GOSYM_LOG"); d != "" {
		if f, err := os.CreateTemp(d, "z3-*.smt2"); err == nil {
			w = io.MultiWriter(in, f)
		}
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.inc = in
	lines := make(chan string, 64)
	s.lines = lines
	go func() {
		sc := bufio.NewScanner(out)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			lines <- sc.Text()
		}
		close(lines)
	}()
	s.gen++
	s.ndefs = 0
	s.stack = nil
	s.st.Restarts++
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :global-declarations true)\n%s", s.preamble())
	if s.ints {
		s.lia = newLia()
	}
}

func (s *Solver) preamble() string {
	if s.ints {
		return fmt.Sprintf("(set-option :timeout %d)\n(set-logic QF_LIA)\n", s.timeout.Milliseconds())
	}
	return fmt.Sprintf("(set-option :smt.relevancy 0)\n(set-option :timeout %d)\n(set-logic ALL)\n", s.timeout.Milliseconds())
}

// encodable reports whether the integer encoding covers all the constraints
// (defining them on the way).
func (s *Solver) encodable(pc []*Term, cond *Term) bool {
	if s.cmd == nil {
		s.start()
	} else if s.lia.n > 60000 {
		s.stop()
		s.start()
	}
	ok := true
	for _, c := range pc {
		if s.lia.boolean(c) == "" {
			ok = false
			break
		}
	}
	ok = ok && (cond == nil || s.lia.boolean(cond) != "")
	if s.lia.decl.Len() > 0 {
		if len(s.stack) > 0 {
			fmt.Fprintf(s.in, "(pop %d)\n", len(s.stack))
			s.stack = s.stack[:0]
		}
		io.WriteString(s.in, s.lia.decl.String())
		s.lia.decl.Reset()
	}
	io.WriteString(s.in, s.lia.defs.String())
	s.lia.defs.Reset()
	return ok
}

func (s *Solver) ref(t *Term) string {
	if s.ints {
		return s.lia.boolean(t)
	}
	s.define(t)
	return refSMT(t)
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		go s.cmd.Wait()
		s.cmd = nil
	}
	s.stack = nil
}

// reset must be called when the term table is replaced.
func (s *Solver) reset() { s.stop() }

func (s *Solver) define(t *Term) {
	if t.op == OpConst || t.defined == s.gen {
		return
	}
	if t.a != nil {
		s.define(t.a)
	}
	if t.b != nil {
		s.define(t.b)
	}
	if t.c != nil {
		s.define(t.c)
	}
	t.defined = s.gen
	s.ndefs++
	if t.op == OpVar {
		fmt.Fprintf(s.in, "(declare-const %s %s)\n", t.name, sortSMT(t.w))
		return
	}
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sortSMT(t.w), defSMT(t))
}

// Check decides the conjunction of pc and cond. On Sat, values of all
// variables occurring in the constraints are returned.
func (s *Solver) Check(ts *Terms, pc []*Term, cond *Term) (Result, map[int]*big.Int) {
	if s.cmd == nil {
		s.start()
	} else if s.ndefs > 60000 {
		s.stop()
		s.start()
	}
	t0 := time.Now()
	// common prefix
	n := 0
	for n < len(pc) && n < len(s.stack) && s.stack[n] == pc[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for _, c := range pc[n:] {
		r := s.ref(c)
		fmt.Fprintf(s.in, "(push)\n(assert %s)\n", r)
		s.stack = append(s.stack, c)
	}
	if cond != nil {
		r := s.ref(cond)
		fmt.Fprintf(s.in, "(push)\n(assert %s)\n", r)
	}
	io.WriteString(s.in, "(check-sat)\n")
	s.in.Flush()
	s.st.Queries++
	deadline := time.NewTimer(2*s.timeout + 3*time.Second)
	defer deadline.Stop()
	res := Unknown
	line, ok := s.readLine(deadline)
	if !ok {
		s.stop()
		s.st.Unknown++
		s.st.Time += time.Since(t0)
		return Unknown, nil
	}
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		res = Unknown
	default:
		// an error line: inconclusive
		s.st.Unknown++
		warnf("solver said: %s", line)
		s.stop()
		return Unknown, nil
	}
	var vals map[int]*big.Int
	if res == Sat {
		vs := map[int]bool{}
		for _, c := range pc {
			for _, v := range c.vars {
				vs[int(v)] = true
			}
		}
		if cond != nil {
			for _, v := range cond.vars {
				vs[int(v)] = true
			}
		}
		vals = map[int]*big.Int{}
		if len(vs) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			byName := map[string]int{}
			byVar := map[int]*Term{}
			for i := range vs {
				v := ts.varsBy[i]
				byVar[i] = v
				sb.WriteString(v.name)
				sb.WriteByte(' ')
				byName[v.name] = i
			}
			sb.WriteString("))\n")
			io.WriteString(s.in, sb.String())
			s.in.Flush()
			depth := 0
			var txt strings.Builder
			for {
				l, ok := s.readLine(deadline)
				if !ok || strings.HasPrefix(l, "(error") {
					s.stop()
					s.st.Unknown++
					return Unknown, nil
				}
				txt.WriteString(l)
				txt.WriteByte(' ')
				depth += strings.Count(l, "(") - strings.Count(l, ")")
				if depth <= 0 {
					break
				}
			}
			var ok bool
			vals, ok = parseModel(txt.String(), byName, byVar, s.ints)
			if !ok {
				s.stop()
				s.st.Unknown++
				return Unknown, nil
			}
		}
	}
	if cond != nil {
		io.WriteString(s.in, "(pop 1)\n")
	}
	d := time.Since(t0)
	s.st.Time += d
	if d > s.st.MaxQuery {
		s.st.MaxQuery = d
	}
	switch res {
	case Sat:
		s.st.Sat++
	case Unsat:
		s.st.Unsat++
	default:
		s.st.Unknown++
	}
	return res, vals
}

func (s *Solver) readLine(t *time.Timer) (string, bool) {
	select {
	case l, ok := <-s.lines:
		return strings.TrimSpace(l), ok
	case <-t.C:
		return "", false
	}
}

// oneShotScript renders pc and cond as a standalone SMT-LIB script.
func oneShotScript(pc []*Term, cond *Term) string {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n")
	seen := map[*Term]bool{}
	var def func(t *Term)
	def = func(t *Term) {
		if t == nil || t.op == OpConst || seen[t] {
			return
		}
		seen[t] = true
		def(t.a)
		def(t.b)
		def(t.c)
		if t.op == OpVar {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", t.name, sortSMT(t.w))
			return
		}
		fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, sortSMT(t.w), defSMT(t))
	}
	for _, c := range pc {
		def(c)
		fmt.Fprintf(&sb, "(assert %s)\n", refSMT(c))
	}
	if cond != nil {
		def(cond)
		fmt.Fprintf(&sb, "(assert %s)\n", refSMT(cond))
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// parseModel reads a get-value answer.
func parseModel(txt string, byName map[string]int, byVar map[int]*Term, ints bool) (map[int]*big.Int, bool) {
	vals := map[int]*big.Int{}
	toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	for i := 0; i+1 < len(toks); i++ {
		idx, ok := byName[toks[i]]
		if !ok {
			continue
		}
		val := toks[i+1]
		x := new(big.Int)
		switch {
		case val == "true":
			x.SetInt64(1)
		case val == "false":
		case strings.HasPrefix(val, "#x"):
			x.SetString(val[2:], 16)
		case strings.HasPrefix(val, "#b"):
			x.SetString(val[2:], 2)
		case val == "-" && i+2 < len(toks):
			x.SetString(toks[i+2], 10)
			x.Sub(new(big.Int).Lsh(bigOne, uint(byVar[idx].w)), x)
			i++
		case ints && val[0] >= '0' && val[0] <= '9':
			x.SetString(val, 10)
		case val == "_" && i+2 < len(toks) && strings.HasPrefix(toks[i+2], "bv"):
			x.SetString(toks[i+2][2:], 10)
		default:
			warnf("cannot parse model value %q", val)
			return nil, false
		}
		vals[idx] = x
		i++
	}
	return vals, true
}

// portfolio puts one question to several fresh solver processes at once.
func portfolio(ts *Terms, pc []*Term, cond *Term, timeout time.Duration) (Result, map[int]*big.Int) {
	script := oneShotScript(pc, cond)
	byName, byVar := map[string]int{}, map[int]*Term{}
	var names []string
	for _, c := range append(append([]*Term(nil), pc...), cond) {
		for _, v := range c.vars {
			t := ts.varsBy[int(v)]
			if _, ok := byName[t.name]; !ok {
				byName[t.name], byVar[int(v)] = int(v), t
				names = append(names, t.name)
			}
		}
	}
	script = "(set-option :produce-models true)\n" + script + "(get-value (" + strings.Join(names, " ") + "))\n"
	ms := timeout.Milliseconds()
	type ans struct {
		r Result
		v map[int]*big.Int
	}
	ch := make(chan ans, 2)
	var cmds []*exec.Cmd
	for _, c := range [][]string{
		{"z3-new", "-in", "-memory:4000", fmt.Sprintf("-t:%d", ms)},
		{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms)},
	} {
		cmd := exec.Command(c[0], c[1:]...)
		cmd.Stdin = strings.NewReader(script)
		var out strings.Builder
		cmd.Stdout = &out
		if cmd.Start() != nil {
			ch <- ans{Unknown, nil}
			continue
		}
		cmds = append(cmds, cmd)
		go func() {
			cmd.Wait()
			line, rest, _ := strings.Cut(out.String(), "\n")
			switch strings.TrimSpace(line) {
			case "unsat":
				ch <- ans{Unsat, nil}
			case "sat":
				if v, ok := parseModel(rest, byName, byVar, false); ok && len(v) == len(byName) {
					ch <- ans{Sat, v}
					return
				}
				ch <- ans{Unknown, nil}
			default:
				ch <- ans{Unknown, nil}
			}
		}()
	}
	var r ans
	r.r = Unknown
	limit := time.After(timeout + 2*time.Second)
	for i := 0; i < 2 && r.r == Unknown; i++ {
		select {
		case r = <-ch:
		case <-limit:
			i = 2
		}
	}
	for _, c := range cmds {
		c.Process.Kill()
	}
	return r.r, r.v
}

// crossCheck asks cvc5 the same question.
func crossCheck(pc []*Term, cond *Term, timeout time.Duration) Result {
	cmd := exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()))
	cmd.Stdin = strings.NewReader(oneShotScript(pc, cond))
	out, _ := cmd.Output()
	switch strings.TrimSpace(string(out)) {
	case "sat":
		return Sat
	case "unsat":
		return Unsat
	}
	return Unknown
}
