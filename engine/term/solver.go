package term

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver talks SMT-LIB to one solver process.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	decl    map[string]bool
	Queries int
	Time    time.Duration
	argv    []string
	dead    bool
	nq      int
}

func NewSolver(argv ...string) (*Solver, error) {
	s := &Solver{argv: argv}
	if err := s.start(); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.decl = map[string]bool{}
	s.dead = false
	s.nq = 0
	if err := s.cmd.Start(); err != nil {
		return err
	}
	pre := "(set-option :print-success false)\n(set-option :produce-models true)\n"
	if strings.Contains(s.argv[0], "z3") {
		pre += "(set-option :timeout 20000)\n"
	} else {
		pre += "(set-logic QF_BV)\n"
	}
	_, err = io.WriteString(s.in, pre)
	return err
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// Check decides the conjunction of cs. On Sat, model receives the values of
// the variables occurring in cs (others are left as they are).
func (s *Solver) Check(cs []*T, model []uint64, widths func(int32) uint8) Result {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if s.dead || s.nq > 20000 {
		s.Close()
		if s.start() != nil {
			return Unknown
		}
	}
	s.nq++
	var sb strings.Builder
	var vars []int32
	for _, c := range cs {
		vars = union(vars, c.vs)
	}
	var wide = map[int32]uint8{}
	for _, v := range vars {
		w := widths(v)
		wide[v] = w
		n := VarName(v, w)
		if !s.decl[n] {
			s.decl[n] = true
			fmt.Fprintf(&sb, "(declare-const %s (_ BitVec %d))\n", n, w)
		}
	}
	sb.WriteString("(push 1)\n")
	for _, c := range cs {
		sb.WriteString("(assert ")
		sb.WriteString(c.SMT(widths))
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.dead = true
		return Unknown
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return Unknown
	}
	line = strings.TrimSpace(line)
	res := Unknown
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	default:
		// "unknown" or an (error ...) line: inconclusive, restart to resynchronise
		if os.Getenv("VERIF_UNKNOWN") != "" {
			fmt.Fprintf(os.Stderr, "UNKNOWN %q nq=%d %.1fs\n%s\n", line, s.nq, time.Since(t0).Seconds(), sb.String())
		}
		s.Close()
		s.dead = true
		return Unknown
	}
	if res == Sat && model != nil && len(vars) > 0 {
		sb.Reset()
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(VarName(v, wide[v]))
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
		io.WriteString(s.in, sb.String())
		depth, txt := 0, strings.Builder{}
		for {
			b, err := s.out.ReadByte()
			if err != nil {
				s.dead = true
				return Unknown
			}
			txt.WriteByte(b)
			if b == '(' {
				depth++
			} else if b == ')' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		s.out.ReadString('\n')
		f := strings.FieldsFunc(txt.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
		if len(f) != 2*len(vars) {
			s.dead = true
			return Unknown
		}
		for i, v := range vars {
			val, base := f[2*i+1], 16
			if strings.HasPrefix(val, "#b") {
				base = 2
			}
			x, err := strconv.ParseUint(val[2:], base, 64)
			if err != nil {
				s.dead = true
				return Unknown
			}
			if int(v) < len(model) {
				model[v] = x
			}
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	return res
}
