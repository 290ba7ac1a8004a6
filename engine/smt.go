package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Sat int8

const (
	Unsat Sat = iota
	SatYes
	Unknown
)

// Solver is one incremental SMT solver process.
type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared map[string]bool
	bin      string
	timeout  int // ms per query
	queries  int
	Stat     SolverStat
	Log      io.Writer
}

type SolverStat struct {
	Queries, SatN, UnsatN, UnknownN, Errors int
	Time                                    time.Duration
	Slowest                                 time.Duration
}

func (a *SolverStat) add(b SolverStat) {
	a.Queries += b.Queries
	a.SatN += b.SatN
	a.UnsatN += b.UnsatN
	a.UnknownN += b.UnknownN
	a.Errors += b.Errors
	a.Time += b.Time
	if b.Slowest > a.Slowest {
		a.Slowest = b.Slowest
	}
}

func NewSolver(bin string, timeoutMs int) *Solver {
	s := &Solver{bin: bin, timeout: timeoutMs}
	if f := os.Getenv("VERIF_SMTLOG"); f != "" && bin == "z3" {
		s.Log, _ = os.Create(f)
	}
	return s
}

func (s *Solver) start() error {
	args := []string{"-in"}
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	}
	s.cmd = exec.Command(s.bin, args...)
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err = s.cmd.Start(); err != nil {
		return err
	}
	s.declared = map[string]bool{}
	s.queries = 0
	if strings.Contains(s.bin, "cvc5") {
		io.WriteString(s.in, "(set-logic QF_BV)\n")
	} else {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :model.completion true)\n", s.timeout)
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
}

// Check decides the conjunction of asserts; on sat returns values of vars.
func (s *Solver) Check(ctx *Ctx, asserts []*Term, extra []string, vs VarSet) (res Sat, model map[int]uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Stat.Queries++
		s.Stat.Time += d
		if s.Log != nil {
			fmt.Fprintf(s.Log, "; %v %d\n", d, res)
		}
		if d > s.Stat.Slowest {
			s.Stat.Slowest = d
		}
		switch res {
		case SatYes:
			s.Stat.SatN++
		case Unsat:
			s.Stat.UnsatN++
		default:
			s.Stat.UnknownN++
		}
	}()
	if s.cmd == nil || s.queries > 20000 {
		s.Close()
		if err := s.start(); err != nil {
			s.Stat.Errors++
			return Unknown, nil
		}
	}
	s.queries++
	var sb strings.Builder
	vs.each(func(i int) {
		n := fmt.Sprintf("v%d_%d", i, ctx.vinfo[i].w)
		if !s.declared[n] {
			s.declared[n] = true
			if ctx.vinfo[i].w == 0 {
				fmt.Fprintf(&sb, "(declare-const %s Bool)\n", n)
			} else {
				fmt.Fprintf(&sb, "(declare-const %s (_ BitVec %d))\n", n, ctx.vinfo[i].w)
			}
		}
	})
	sb.WriteString("(push 1)\n")
	for _, a := range asserts {
		sb.WriteString(smtAssert(a))
		sb.WriteByte('\n')
	}
	for _, e := range extra {
		sb.WriteString(e)
		sb.WriteByte('\n')
	}
	sb.WriteString("(check-sat)\n")
	if s.Log != nil {
		io.WriteString(s.Log, sb.String())
	}
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.Stat.Errors++
		s.restart()
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil || strings.HasPrefix(line, "(error") {
		s.Stat.Errors++
		s.restart()
		return Unknown, nil
	}
	switch line {
	case "sat":
		res = SatYes
	case "unsat":
		res = Unsat
	default:
		res = Unknown
	}
	if res == SatYes && !vs.empty() {
		var q strings.Builder
		q.WriteString("(get-value (")
		var names []string
		var idx []int
		vs.each(func(i int) {
			n := fmt.Sprintf("v%d_%d", i, ctx.vinfo[i].w)
			names = append(names, n)
			idx = append(idx, i)
			q.WriteString(n + " ")
		})
		q.WriteString("))\n")
		io.WriteString(s.in, q.String())
		txt, err := s.readSexp()
		if err != nil || strings.HasPrefix(txt, "(error") {
			s.Stat.Errors++
			s.restart()
			return Unknown, nil
		}
		model = map[int]uint64{}
		for k, n := range names {
			p := strings.Index(txt, "("+n+" ")
			if p < 0 {
				continue
			}
			v := txt[p+len(n)+2:]
			v = v[:strings.IndexByte(v, ')')]
			v = strings.TrimSpace(v)
			switch {
			case v == "true":
				model[idx[k]] = 1
			case v == "false":
				model[idx[k]] = 0
			case strings.HasPrefix(v, "#x"):
				x, _ := strconv.ParseUint(v[2:], 16, 64)
				model[idx[k]] = x
			case strings.HasPrefix(v, "#b"):
				x, _ := strconv.ParseUint(v[2:], 2, 64)
				model[idx[k]] = x
			}
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	return
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		sb.WriteString(l)
		for _, ch := range l {
			if ch == '(' {
				depth++
			} else if ch == ')' {
				depth--
			}
		}
		if depth <= 0 && strings.TrimSpace(sb.String()) != "" {
			return strings.TrimSpace(sb.String()), nil
		}
	}
}

// CheckRaw decides one assertion given as text over the variables of the widths in ws.
func (s *Solver) CheckRaw(q string, ws []uint16) (res Sat) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Stat.Queries++
		s.Stat.Time += d
		if d > s.Stat.Slowest {
			s.Stat.Slowest = d
		}
		switch res {
		case SatYes:
			s.Stat.SatN++
		case Unsat:
			s.Stat.UnsatN++
		default:
			s.Stat.UnknownN++
		}
	}()
	if s.cmd == nil || s.queries > 20000 {
		s.Close()
		if err := s.start(); err != nil {
			s.Stat.Errors++
			return Unknown
		}
	}
	s.queries++
	var sb strings.Builder
	for i, m := range ws {
		for w := 0; w < 16; w++ {
			if m&(1<<w) == 0 {
				continue
			}
			n := fmt.Sprintf("v%d_%d", i, w)
			if !s.declared[n] {
				s.declared[n] = true
				if w == 0 {
					fmt.Fprintf(&sb, "(declare-const %s Bool)\n", n)
				} else {
					fmt.Fprintf(&sb, "(declare-const %s (_ BitVec %d))\n", n, w)
				}
			}
		}
	}
	sb.WriteString("(push 1)\n" + q + "\n(check-sat)\n(pop 1)\n")
	if s.Log != nil {
		io.WriteString(s.Log, sb.String())
	}
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.Stat.Errors++
		s.restart()
		return Unknown
	}
	line, err := s.readLine()
	if err != nil || strings.HasPrefix(line, "(error") {
		s.Stat.Errors++
		s.restart()
		return Unknown
	}
	switch line {
	case "sat":
		return SatYes
	case "unsat":
		return Unsat
	}
	return Unknown
}
