package sym

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one SMT solver process over a pipe.
type Solver struct {
	bin       string
	cmd       *exec.Cmd
	in        io.WriteCloser
	out       *bufio.Reader
	timeoutMS int

	defined map[*Term]string
	vars    map[string]*Term
	stack   []*Term
	queries int
	alone   bool // one query, no stack
	short   bool // a short time limit for the process with the stack

	// statistics
	NQueries, NSat, NUnsat, NUnknown, NRetried int
	Time                             time.Duration
	MaxQ                             time.Duration
	buf                              strings.Builder
}

// Result of a query.
type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// NewSolver starts lazily.
func NewSolver(bin string, timeoutMS int) *Solver {
	return &Solver{bin: bin, timeoutMS: timeoutMS}
}

const prelude = `(set-option :global-declarations true)
(set-option :produce-models true)
(set-option :timeout %d)
(define-fun b64enc0 ((x (_ BitVec 6))) (_ BitVec 8) (let ((z (concat #b00 x))) (ite (bvult x (_ bv26 6)) (bvadd z (_ bv65 8)) (ite (bvult x (_ bv52 6)) (bvadd z (_ bv71 8)) (ite (bvult x (_ bv62 6)) (bvsub z (_ bv4 8)) (ite (= x (_ bv62 6)) (_ bv43 8) (_ bv47 8)))))))
(define-fun b64enc1 ((x (_ BitVec 6))) (_ BitVec 8) (let ((z (concat #b00 x))) (ite (bvult x (_ bv26 6)) (bvadd z (_ bv65 8)) (ite (bvult x (_ bv52 6)) (bvadd z (_ bv71 8)) (ite (bvult x (_ bv62 6)) (bvsub z (_ bv4 8)) (ite (= x (_ bv62 6)) (_ bv45 8) (_ bv95 8)))))))
(define-fun rng ((c (_ BitVec 8)) (a (_ BitVec 8)) (b (_ BitVec 8))) Bool (and (bvule a c) (bvule c b)))
(define-fun b64ok0 ((c (_ BitVec 8))) Bool (or (rng c #x41 #x5a) (rng c #x61 #x7a) (rng c #x30 #x39) (= c #x2b) (= c #x2f)))
(define-fun b64ok1 ((c (_ BitVec 8))) Bool (or (rng c #x41 #x5a) (rng c #x61 #x7a) (rng c #x30 #x39) (= c #x2d) (= c #x5f)))
(define-fun b64dec0 ((c (_ BitVec 8))) (_ BitVec 6) ((_ extract 5 0) (ite (rng c #x41 #x5a) (bvsub c (_ bv65 8)) (ite (rng c #x61 #x7a) (bvsub c (_ bv71 8)) (ite (rng c #x30 #x39) (bvadd c (_ bv4 8)) (ite (= c #x2b) (_ bv62 8) (ite (= c #x2f) (_ bv63 8) (_ bv0 8))))))))
(define-fun b64dec1 ((c (_ BitVec 8))) (_ BitVec 6) ((_ extract 5 0) (ite (rng c #x41 #x5a) (bvsub c (_ bv65 8)) (ite (rng c #x61 #x7a) (bvsub c (_ bv71 8)) (ite (rng c #x30 #x39) (bvadd c (_ bv4 8)) (ite (= c #x2d) (_ bv62 8) (ite (= c #x5f) (_ bv63 8) (_ bv0 8))))))))
`

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.defined, s.vars = map[*Term]string{}, map[string]*Term{}
	s.stack = nil
	s.queries = 0
	s.short = false
	t := s.timeoutMS
	if !s.alone && t > 2000 {
		t = 2000 // then by itself
	}
	fmt.Fprintf(s.in, prelude, t)
	return nil
}

// Close ends the process.
func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OpConst:
		switch {
		case t.w == 0:
			if t.v == 1 {
				return "true"
			}
			return "false"
		case t.w == wFloat:
			return fmt.Sprintf("((_ to_fp 11 53) (_ bv%d 64))", t.v)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.v, t.w)
	case OpVar:
		n := t.varName()
		if _, ok := s.vars[n]; !ok {
			s.vars[n] = t
			fmt.Fprintf(&s.buf, "(declare-const %s %s)\n", n, smtSort(t.w))
		}
		return n
	}
	if n, ok := s.defined[t]; ok {
		return n
	}
	var e string
	switch t.op {
	case OpExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.v>>8, t.v&0xff, s.ref(t.a))
	case OpZext:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OpSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OpB64Enc:
		e = fmt.Sprintf("(b64enc%d %s)", t.v, s.ref(t.a))
	case OpB64Dec:
		e = fmt.Sprintf("(b64dec%d %s)", t.v, s.ref(t.a))
	case OpB64Ok:
		e = fmt.Sprintf("(b64ok%d %s)", t.v, s.ref(t.a))
	case OpSToF:
		e = fmt.Sprintf("((_ to_fp 11 53) RNE %s)", s.ref(t.a))
	case OpUToF:
		e = fmt.Sprintf("((_ to_fp_unsigned 11 53) RNE %s)", s.ref(t.a))
	case OpFToS:
		e = fmt.Sprintf("((_ fp.to_sbv 64) RTZ %s)", s.ref(t.a))
	default:
		o, ok := smtOps[t.op]
		if !ok {
			panic(fmt.Sprintf("smt op %d", t.op))
		}
		switch {
		case t.c != nil:
			e = fmt.Sprintf("(%s %s %s %s)", o, s.ref(t.a), s.ref(t.b), s.ref(t.c))
		case t.b != nil:
			e = fmt.Sprintf("(%s %s %s)", o, s.ref(t.a), s.ref(t.b))
		default:
			e = fmt.Sprintf("(%s %s)", o, s.ref(t.a))
		}
	}
	n := fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(&s.buf, "(define-fun %s () %s %s)\n", n, smtSort(t.w), e)
	s.defined[t] = n
	return n
}

// Check decides pc /\ extra. With sat, it returns a model.
func (s *Solver) Check(pc []*Term, extra *Term) (Result, Model) {
	t0 := time.Now()
	r, m := s.check(pc, extra)
	if r == Unknown {
		s.NRetried++
		t := time.Now()
		r, m = s.retry(pc, extra)
		if r != Unknown && time.Since(t) < time.Second && s.cmd != nil && !s.short {
			s.short = true // the next ones sooner
			io.WriteString(s.in, "(set-option :timeout 300)\n")
		}
	}
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxQ {
		s.MaxQ = d
	}
	s.NQueries++
	switch r {
	case Sat:
		s.NSat++
	case Unsat:
		s.NUnsat++
	default:
		s.NUnknown++
	}
	return r, m
}

func (s *Solver) check(pc []*Term, extra *Term) (Result, Model) {
	if s.cmd != nil && s.queries > 4000 {
		s.Close()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	s.queries++
	s.buf.Reset()
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		fmt.Fprintf(&s.buf, "(pop %d)\n", n)
		s.stack = s.stack[:k]
	}
	push := "(push)\n"
	if s.alone {
		push = ""
	}
	for _, t := range pc[k:] {
		r := s.ref(t)
		fmt.Fprintf(&s.buf, push+"(assert %s)\n", r)
		s.stack = append(s.stack, t)
	}
	vars := map[string]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpVar {
			vars[t.varName()] = t
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	for _, t := range pc {
		walk(t)
	}
	if extra != nil {
		walk(extra)
		r := s.ref(extra)
		fmt.Fprintf(&s.buf, push+"(assert %s)\n", r)
	}
	s.buf.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		s.Close()
		return Unknown, nil
	}
	line, ok := s.line()
	if !ok {
		s.Close()
		return Unknown, nil
	}
	res := Unknown
	var m Model
	switch line {
	case "sat":
		res = Sat
		m = Model{}
		if len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for n, v := range vars {
				if s.vars[n] == nil {
					s.buf.Reset()
					s.ref(v)
				}
				q.WriteString(n)
				q.WriteByte(' ')
			}
			q.WriteString("))\n")
			io.WriteString(s.in, q.String())
			txt, ok := s.sexp()
			if !ok {
				s.Close()
				return Unknown, nil
			}
			if !parseModel(txt, m) {
				s.Close()
				return Unknown, nil
			}
		}
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		res = Unknown
	default:
		// an error: inconclusive, restart
		s.Close()
		return Unknown, nil
	}
	if extra != nil && !s.alone {
		io.WriteString(s.in, "(pop 1)\n")
	}
	return res, m
}

func (s *Solver) line() (string, bool) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", false
		}
		l = strings.TrimSpace(l)
		if l != "" {
			if strings.HasPrefix(l, "(error") {
				return l, true
			}
			return l, true
		}
	}
}

func (s *Solver) sexp() (string, bool) {
	var b strings.Builder
	depth := 0
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", false
		}
		b.WriteByte(c)
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
			if depth == 0 && started {
				return b.String(), true
			}
		}
	}
}

func parseModel(txt string, m Model) bool {
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		return false
	}
	toks := tokenize(txt)
	// ((name value) ...)
	i := 1
	for i < len(toks) && toks[i] == "(" {
		name := toks[i+1]
		j := i + 2
		if toks[j] != "(" {
			v, ok := parseBV(toks[j])
			if !ok {
				return false
			}
			m[name] = v
			i = j + 2
			continue
		}
		// (fp s e m) | (_ bvN w) | (_ +zero 11 53) ...
		d := 0
		k := j
		var inner []string
		for ; k < len(toks); k++ {
			if toks[k] == "(" {
				d++
			} else if toks[k] == ")" {
				d--
				if d == 0 {
					break
				}
			} else {
				inner = append(inner, toks[k])
			}
		}
		switch inner[0] {
		case "fp":
			sgn, _ := parseBV(inner[1])
			e, _ := parseBV(inner[2])
			f, _ := parseBV(inner[3])
			m[name] = sgn<<63 | e<<52 | f
		case "_":
			switch inner[1] {
			case "+zero":
				m[name] = 0
			case "-zero":
				m[name] = 1 << 63
			case "+oo":
				m[name] = 0x7ff << 52
			case "-oo":
				m[name] = 0xfff << 52
			case "NaN":
				m[name] = 0x7ff8 << 48
			default:
				v, err := strconv.ParseUint(strings.TrimPrefix(inner[1], "bv"), 10, 64)
				if err != nil {
					return false
				}
				m[name] = v
			}
		default:
			return false
		}
		i = k + 2
	}
	return true
}

func parseBV(s string) (uint64, bool) {
	switch {
	case s == "true":
		return 1, true
	case s == "false":
		return 0, true
	case strings.HasPrefix(s, "#x"):
		v, err := strconv.ParseUint(s[2:], 16, 64)
		return v, err == nil
	case strings.HasPrefix(s, "#b"):
		v, err := strconv.ParseUint(s[2:], 2, 64)
		return v, err == nil
	}
	return 0, false
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		switch c := s[i]; {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// retry decides the query by itself, in a process of its own, where the solver is free to
// simplify it as a whole.
func (s *Solver) retry(pc []*Term, extra *Term) (Result, Model) {
	f := &Solver{bin: s.bin, timeoutMS: s.timeoutMS, alone: true}
	defer f.Close()
	return f.check(pc, extra)
}
