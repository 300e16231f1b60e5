package main

// A persistent SMT solver process per worker, driven over SMT-LIB 2.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	epoch int

	queries  int
	sat      int
	unsat    int
	unknown  int
	time     time.Duration
	errs     []string
	assertAt int
}

func solverBinary() string {
	if s := os.Getenv("VERIF_SOLVER"); s != "" {
		return s
	}
	for _, n := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
	}
	return "z3"
}

func NewSolver() *Solver {
	s := &Solver{}
	s.start()
	return s
}

var solverGen int64

func (s *Solver) start() {
	s.epoch = int(atomic.AddInt64(&solverGen, 1))
	s.cmd = exec.Command(solverBinary(), "-in")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver: %v", err))
	}
	io.WriteString(s.in, "(set-option :produce-models true)\n(set-option :timeout 60000)\n(set-logic QF_BVFP)\n")
}

func (s *Solver) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// Restart starts a fresh solver process.
func (s *Solver) Restart() {
	s.Close()
	s.start()
}

// emitDefs defines the nodes of a term that the solver process doesn't know yet. Definitions are
// made outside of any scope, so they are sent only once.
func emitDefs(sb *strings.Builder, e *Expr, epoch int) {
	if e == nil || e.op == OConst || e.prEpoch == epoch {
		return
	}
	e.prEpoch = epoch
	if e.op == OVar {
		fmt.Fprintf(sb, "(declare-const |%s| %s)\n", e.name, smtSort(e.w))
		return
	}
	emitDefs(sb, e.a, epoch)
	emitDefs(sb, e.b, epoch)
	emitDefs(sb, e.c, epoch)
	fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", e.id, smtSort(e.w), smtBody(e))
}

// Check decides the conjunction of the given terms. When it is satisfiable the assignment is
// returned.
func (s *Solver) Check(cs []*Expr, vars []*Expr) (res string, vals map[string]uint64) {
	start := time.Now()
	defer func() { s.time += time.Since(start) }()
	s.queries++
	var sb strings.Builder
	for _, c := range cs {
		emitDefs(&sb, c, s.epoch)
	}
	sb.WriteString("(push)\n")
	for _, c := range cs {
		fmt.Fprintf(&sb, "(assert %s)\n", smtRef(c))
	}
	sb.WriteString("(check-sat)\n")
	io.WriteString(s.in, sb.String())
	res = s.line()
	switch res {
	case "sat":
		s.sat++
		vals = map[string]uint64{}
		if len(vars) > 0 {
			sb.Reset()
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(smtRef(v))
				sb.WriteByte(' ')
			}
			sb.WriteString("))\n(pop)\n")
			io.WriteString(s.in, sb.String())
			s.readValues(vars, vals)
		} else {
			io.WriteString(s.in, "(pop)\n")
		}
	case "unsat":
		s.unsat++
		io.WriteString(s.in, "(pop)\n")
	default:
		s.unknown++
		s.errs = append(s.errs, res)
		s.Restart()
		res = "unknown"
	}
	return
}

func (s *Solver) line() string {
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
		if err != nil {
			return "solver died: " + err.Error()
		}
	}
}

// readValues parses ((|x| #x00) (|y| true)).
func (s *Solver) readValues(vars []*Expr, vals map[string]uint64) {
	depth := 0
	var sb strings.Builder
	quoted := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			s.errs = append(s.errs, "reading values: "+err.Error())
			return
		}
		sb.WriteByte(b)
		if b == '|' {
			quoted = !quoted
		}
		if quoted {
			continue
		}
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	text := sb.String()
	for i := 0; i < len(text); {
		j := strings.IndexByte(text[i:], '|')
		if j < 0 {
			// unquoted variant
			break
		}
		j += i
		k := j + 1 + strings.IndexByte(text[j+1:], '|')
		name := text[j+1 : k]
		e := k + 1 + strings.IndexByte(text[k+1:], ')')
		vals[name] = parseSMTVal(strings.TrimSpace(text[k+1 : e]))
		i = e + 1
	}
	for _, v := range vars {
		if _, ok := vals[v.name]; !ok {
			// z3 drops the quotes for simple symbols
			idx := strings.Index(text, "("+v.name+" ")
			if idx >= 0 {
				st := idx + len(v.name) + 2
				e := st + strings.IndexByte(text[st:], ')')
				vals[v.name] = parseSMTVal(strings.TrimSpace(text[st:e]))
			} else {
				s.errs = append(s.errs, "no value for "+v.name)
			}
		}
	}
}

func parseSMTVal(t string) uint64 {
	switch {
	case t == "true":
		return 1
	case t == "false":
		return 0
	case strings.HasPrefix(t, "#x"):
		v, _ := strconv.ParseUint(t[2:], 16, 64)
		return v
	case strings.HasPrefix(t, "#b"):
		v, _ := strconv.ParseUint(t[2:], 2, 64)
		return v
	}
	return 0
}
