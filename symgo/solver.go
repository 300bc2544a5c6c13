package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

// Solver drives one incremental z3 process (bit-vector queries) and one-shot
// portfolio runs (queries that need the floating-point theory).
type Solver struct {
	tb       *TB
	bin      string
	cmd      *exec.Cmd
	in       *bufio.Writer
	inPipe   io.WriteCloser
	out      *bufio.Reader
	declared map[int]bool
	stack    []*Term
	TimeoutS int
	FPTimeS  int

	Queries, SatN, UnsatN, UnknownN, FPQueries int
	Time                                       time.Duration
	dump                                       io.Writer
	Errors                                     int
}

func NewSolver(tb *TB) *Solver {
	s := &Solver{tb: tb, bin: "z3-new", TimeoutS: 20, FPTimeS: 60}
	if _, err := exec.LookPath(s.bin); err != nil {
		s.bin = "z3"
	}
	if v := os.Getenv("SYMGO_Z3"); v != "" {
		s.bin = v
	}
	return s
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	ip, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	op, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inPipe = ip
	s.in = bufio.NewWriterSize(ip, 1<<16)
	s.out = bufio.NewReaderSize(op, 1<<16)
	s.declared = map[int]bool{}
	s.stack = nil
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.TimeoutS*1000))
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	if s.dump != nil {
		io.WriteString(s.dump, x)
	}
	s.in.WriteString(x)
}

func (s *Solver) declare(t *Term, sb *strings.Builder, declared map[int]bool) {
	if t.op == OConst || declared[t.id] {
		return
	}
	declared[t.id] = true
	if t.op == OVar {
		fmt.Fprintf(sb, "(declare-fun |%s| () %s)\n", t.name, t.sort)
		return
	}
	for _, a := range t.a {
		s.declare(a, sb, declared)
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s ", t.id, t.sort)
	t.body(sb)
	sb.WriteString(")\n")
}

func assertStr(t *Term) string {
	var sb strings.Builder
	sb.WriteString("(assert ")
	t.ref(&sb)
	sb.WriteString(")\n")
	return sb.String()
}

func collectVars(ts []*Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.op == OConst || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OVar {
			out = append(out, t)
			return
		}
		for _, a := range t.a {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return out
}

// Check decides satisfiability of pc && q.
func (s *Solver) Check(pc []*Term, q *Term) (Res, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if q != nil && q.isFalse() {
		s.UnsatN++
		return Unsat, nil
	}
	fp := q != nil && q.fp
	for _, c := range pc {
		fp = fp || c.fp
	}
	var r Res
	var m Model
	if fp {
		s.FPQueries++
		r, m = s.checkFP(pc, q)
	} else {
		r, m = s.checkInc(pc, q)
	}
	switch r {
	case Sat:
		// a model is only believed after it evaluates to true
		ev := NewEval(m)
		ok := q == nil || ev.Eval(q) == 1
		for _, c := range pc {
			if !ok {
				break
			}
			ok = ev.Eval(c) == 1
		}
		if !ok {
			if os.Getenv("SYMGO_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "symgo: model does not evaluate to true")
			}
			s.UnknownN++
			return Unknown, nil
		}
		s.SatN++
	case Unsat:
		s.UnsatN++
	default:
		s.UnknownN++
	}
	return r, m
}

func (s *Solver) checkInc(pc []*Term, q *Term) (Res, Model) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", d))
		s.stack = s.stack[:n]
	}
	var sb strings.Builder
	for _, c := range pc[n:] {
		s.declare(c, &sb, s.declared)
		sb.WriteString("(push 1)\n")
		sb.WriteString(assertStr(c))
		s.stack = append(s.stack, c)
	}
	if q != nil {
		s.declare(q, &sb, s.declared)
		sb.WriteString("(push 1)\n")
		sb.WriteString(assertStr(q))
	}
	sb.WriteString("(check-sat)\n(echo \"@done\")\n")
	s.send(sb.String())
	lines, err := s.readUntilDone()
	if err != nil {
		s.Close()
		s.Errors++
		return Unknown, nil
	}
	res := Unknown
	for _, l := range lines {
		switch strings.TrimSpace(l) {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		}
		if strings.Contains(l, "(error") {
			if os.Getenv("SYMGO_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "z3:", l)
			}
			s.Errors++
			s.Close()
			return Unknown, nil
		}
	}
	var m Model
	if res == Sat {
		all := append(append([]*Term(nil), pc...))
		if q != nil {
			all = append(all, q)
		}
		vars := collectVars(all)
		m = Model{}
		if len(vars) > 0 {
			var vb strings.Builder
			vb.WriteString("(get-value (")
			for _, v := range vars {
				vb.WriteString("|" + v.name + "| ")
			}
			vb.WriteString("))\n(echo \"@done\")\n")
			s.send(vb.String())
			ml, err := s.readUntilDone()
			if err != nil {
				s.Close()
				return Unknown, nil
			}
			parseModel(strings.Join(ml, " "), m)
		}
	}
	if q != nil {
		s.send("(pop 1)\n")
	}
	return res, m
}

func (s *Solver) readUntilDone() ([]string, error) {
	s.in.Flush()
	var lines []string
	done := make(chan struct{})
	cmd := s.cmd
	go func() { // watchdog: z3's own timeout is not always honoured
		select {
		case <-done:
		case <-time.After(time.Duration(s.TimeoutS*2+5) * time.Second):
			cmd.Process.Kill()
		}
	}()
	defer close(done)
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return nil, err
		}
		if strings.HasPrefix(l, "@done") || strings.HasPrefix(l, "\"@done") {
			return lines, nil
		}
		lines = append(lines, l)
	}
}

// parseModel reads ((|x| #x..) (|y| true) ...).
func parseModel(txt string, m Model) {
	i := 0
	for i < len(txt) {
		j := strings.IndexByte(txt[i:], '|')
		if j < 0 {
			// z3 may print simple names without bars
			break
		}
		i += j + 1
		e := strings.IndexByte(txt[i:], '|')
		if e < 0 {
			return
		}
		name := txt[i : i+e]
		i += e + 1
		i = parseVal(txt, i, name, m)
	}
	if len(m) == 0 || true {
		// names without bars
		f := strings.NewReplacer("(", " ", ")", " ").Replace(txt)
		fs := strings.Fields(f)
		for k := 0; k+1 < len(fs); k++ {
			if strings.HasPrefix(fs[k], "|") || strings.HasPrefix(fs[k], "#") {
				continue
			}
			v := fs[k+1]
			if strings.HasPrefix(v, "#") || v == "true" || v == "false" {
				if _, ok := m[fs[k]]; !ok && fs[k] != "true" && fs[k] != "false" {
					m[fs[k]] = parseLit(v)
				}
			}
		}
	}
}

func parseLit(v string) uint64 {
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		u, _ := strconv.ParseUint(v[2:], 16, 64)
		return u
	case strings.HasPrefix(v, "#b"):
		u, _ := strconv.ParseUint(v[2:], 2, 64)
		return u
	}
	return 0
}

func parseVal(txt string, i int, name string, m Model) int {
	for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n') {
		i++
	}
	j := i
	for j < len(txt) && txt[j] != ')' && txt[j] != ' ' {
		j++
	}
	m[name] = parseLit(txt[i:j])
	return j
}

// checkFP: one-shot portfolio over z3 and cvc5 with the FP theory.
func (s *Solver) checkFP(pc []*Term, q *Term) (Res, Model) {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic QF_BVFP)\n")
	declared := map[int]bool{}
	all := append([]*Term(nil), pc...)
	if q != nil {
		all = append(all, q)
	}
	needZ3 := false
	for _, c := range all {
		s.declare(c, &sb, declared)
		sb.WriteString(assertStr(c))
	}
	sb.WriteString("(check-sat)\n")
	vars := collectVars(all)
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString("|" + v.name + "| ")
		}
		sb.WriteString("))\n")
	}
	txt := sb.String()
	needZ3 = strings.Contains(txt, "fp.to_ieee_bv")
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.FPTimeS)*time.Second)
	defer cancel()
	type ans struct {
		r Res
		m Model
	}
	ch := make(chan ans, 3)
	run := func(name string, args ...string) {
		cmd := exec.CommandContext(ctx, name, args...)
		cmd.Stdin = strings.NewReader(txt)
		o, _ := cmd.Output()
		out := string(o)
		r := Unknown
		first := strings.TrimSpace(strings.SplitN(out, "\n", 2)[0])
		m := Model{}
		switch {
		case first == "unsat":
			r = Unsat
		case first == "sat" && !strings.Contains(out, "(error"):
			r = Sat
			if k := strings.Index(out, "\n"); k >= 0 {
				parseModel(out[k:], m)
			}
		}
		ch <- ans{r, m}
	}
	n := 1
	go run(s.bin, "-in", "-smt2")
	if !needZ3 {
		n++
		go run("cvc5", "--lang=smt2", "--produce-models", "-q", "-")
	}
	for i := 0; i < n; i++ {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}
