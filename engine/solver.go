package main

import (
	"bufio"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver is a z3 process that mirrors a stack of asserted literals.
type Solver struct {
	ts      *Terms
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	nvars   int
	gen     uint32
	Queries int
	Unknown int
	Time    time.Duration
	log     io.Writer
	maxTime time.Duration
}

func NewSolver(ts *Terms) *Solver {
	s := &Solver{ts: ts}
	s.start()
	return s
}

func (s *Solver) start() {
	s.gen = nextGen()
	s.nvars = 0
	bin := "z3"
	s.cmd = exec.Command(bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inRaw = in
	s.in, s.out = bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	if p := os.Getenv("VERIF_SMTLOG"); p != "" {
		f, _ := os.Create(fmt.Sprintf("%s.%d", p, s.gen))
		s.log = f
	}
	s.prelude()
}

// Reset forgets everything, for another set of terms.
func (s *Solver) Reset(ts *Terms) {
	s.ts = ts
	s.gen = nextGen()
	s.nvars = 0
	s.send("(reset)\n")
	s.prelude()
}

func (s *Solver) prelude() {
	s.send("(set-option :global-declarations true)\n(set-option :timeout 20000)\n(set-logic QF_BV)\n")
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		io.WriteString(s.log, x)
	}
}

func (s *Solver) Close() {
	s.inRaw.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func bvlit(v uint64, w uint8) string { return fmt.Sprintf("(_ bv%d %d)", v, w) }

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case TConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		return bvlit(t.val, t.w)
	case TVar:
		return "v" + strconv.Itoa(int(t.val))
	}
	return "t" + strconv.Itoa(int(t.id))
}

// encW is the width that the term is encoded with: no more bits than its values
// have.
func encW(t *Term) uint8 {
	if t.w == 0 {
		return 0
	}
	if t.op == TVar {
		return 8
	}
	if t.op == TConst {
		return uint8(max(bits.Len64(t.val), 1))
	}
	return uint8(min(max(bits.Len64(t.hi), 1), int(t.w)))
}

// at is the term as a vector of w bits: the lower bits, or all of them preceded
// by zeros.
func (s *Solver) at(t *Term, w uint8) string {
	if t.op == TConst {
		return bvlit(t.val&mask(w), w)
	}
	e := encW(t)
	switch {
	case e == w:
		return s.ref(t)
	case e < w:
		return fmt.Sprintf("((_ zero_extend %d) %s)", w-e, s.ref(t))
	}
	return fmt.Sprintf("((_ extract %d 0) %s)", w-1, s.ref(t))
}

// declare sends the definitions of the term and what it depends on.
func (s *Solver) declare(t *Term) {
	for s.nvars < len(s.ts.vars) {
		v := s.ts.vars[s.nvars]
		s.send(fmt.Sprintf("(declare-const v%d (_ BitVec 8))\n", v.val))
		s.nvars++
	}
	if t.op == TConst || t.op == TVar || t.smt == s.gen {
		return
	}
	t.smt = s.gen
	if t.tab == nil || t.op == TTab {
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				s.declare(x)
			}
		}
	}
	e := encW(t)
	var body string
	switch t.op {
	case TSet:
		body = s.setExpr(t.a, &t.set)
	case TAnd, TOr:
		var sb strings.Builder
		sb.WriteString("(" + smtOps[t.op])
		for _, x := range t.args {
			s.declare(x)
			sb.WriteString(" " + s.ref(x))
		}
		sb.WriteString(")")
		body = sb.String()
	default:
		if t.tab != nil {
			body = s.tabExpr(t, e)
		} else {
			body = s.expr(t, e)
		}
	}
	sort := "Bool"
	if t.w > 0 {
		sort = fmt.Sprintf("(_ BitVec %d)", e)
	}
	s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, sort, body))
}

// expr is the operation in e bits. The values of the operands are known to be
// those of their intervals.
func (s *Solver) expr(t *Term, e uint8) string {
	op := smtOps[t.op]
	two := func(op string, w uint8) string { return "(" + op + " " + s.at(t.a, w) + " " + s.at(t.b, w) + ")" }
	fit := func(x string, w uint8) string { // of w bits, at least e
		if w == e {
			return x
		}
		return fmt.Sprintf("((_ extract %d 0) %s)", e-1, x)
	}
	var aw, bw uint8
	aw = encW(t.a)
	if t.b != nil {
		bw = encW(t.b)
	}
	switch t.op {
	case TNot:
		return "(not " + s.ref(t.a) + ")"
	case TEq, TUlt, TUle:
		return two(op, max(aw, bw))
	case TSlt, TSle:
		return two(op, t.a.w)
	case TIte:
		return "(ite " + s.ref(t.a) + " " + s.at(t.b, e) + " " + s.at(t.c, e) + ")"
	case TAdd, TSub, TMul, TBand, TBor, TBxor:
		return two(op, e)
	case TUdiv, TUrem:
		if t.b.lo > 0 {
			w := max(aw, bw, e)
			return fit(two(op, w), w)
		}
	case TZext, TTrunc:
		return s.at(t.a, e)
	case TSext:
		return fit(fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.at(t.a, t.a.w)), t.w)
	case TShl:
		if t.b.isConst() && t.b.val < uint64(e) {
			return "(bvshl " + s.at(t.a, e) + " " + bvlit(t.b.val, e) + ")"
		}
	case TLshr:
		if t.b.isConst() && t.b.val < uint64(aw) {
			w := max(aw, e)
			return fit("(bvlshr "+s.at(t.a, w)+" "+bvlit(t.b.val, w)+")", w)
		}
	}
	return fit(two(op, t.w), t.w)
}

func (s *Solver) tabExpr(t *Term, e uint8) string {
	// affine functions are the most common.
	v := s.ts.vars[t.vars[0]]
	vs := v.set.values()
	groups := map[uint64]*Set{}
	var order []uint64
	for _, x := range vs {
		g := groups[t.tab[x]]
		if g == nil {
			g = &Set{}
			groups[t.tab[x]] = g
			order = append(order, t.tab[x])
		}
		g.add(x)
	}
	if len(vs) > 2 {
		k := (t.tab[vs[1]] - t.tab[vs[0]]) & mask(e)
		if d := vs[1] - vs[0]; d == 1 {
			ok := true
			for _, x := range vs {
				if (t.tab[vs[0]]+k*(x-vs[0]))&mask(e) != t.tab[x]&mask(e) {
					ok = false
					break
				}
			}
			if ok {
				return fmt.Sprintf("(bvadd %s (bvmul %s %s))", bvlit((t.tab[vs[0]]-k*vs[0])&mask(e), e), bvlit(k, e), s.at(v, e))
			}
		}
	}
	x := bvlit(order[len(order)-1], e)
	for i := len(order) - 2; i >= 0; i-- {
		x = fmt.Sprintf("(ite %s %s %s)", s.setExpr(v, groups[order[i]]), bvlit(order[i], e), x)
	}
	return x
}

func (s *Solver) setExpr(v *Term, set *Set) string {
	neg := false
	// values outside of the domain do not matter.
	outside := Set{^v.set[0], ^v.set[1], ^v.set[2], ^v.set[3]}
	comp := v.set.minus(set)
	r := setRanges(set)
	full := set.or(&outside)
	if r2 := setRanges(&full); len(r2) < len(r) {
		r = r2
	}
	if r2 := setRanges(&comp); len(r2) < len(r) {
		r, neg = r2, true
	}
	x := s.ref(v)
	var parts []string
	for _, q := range r {
		switch {
		case q[0] == q[1]:
			parts = append(parts, fmt.Sprintf("(= %s %s)", x, bvlit(q[0], 8)))
		case q[0] == 0:
			parts = append(parts, fmt.Sprintf("(bvule %s %s)", x, bvlit(q[1], 8)))
		case q[1] == 255:
			parts = append(parts, fmt.Sprintf("(bvuge %s %s)", x, bvlit(q[0], 8)))
		default:
			parts = append(parts, fmt.Sprintf("(and (bvuge %s %s) (bvule %s %s))", x, bvlit(q[0], 8), x, bvlit(q[1], 8)))
		}
	}
	var e string
	switch len(parts) {
	case 0:
		e = "false"
	case 1:
		e = parts[0]
	default:
		e = "(or " + strings.Join(parts, " ") + ")"
	}
	if neg {
		e = "(not " + e + ")"
	}
	return e
}

var fullSet = Set{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

// slice returns the literals that share variables with the condition, directly
// or by way of others.
func slice(pc []*Term, t *Term, nvars int) []*Term {
	in := make([]bool, nvars)
	for _, v := range t.vars {
		in[v] = true
	}
	var out []*Term
	rest := append([]*Term(nil), pc...)
	for {
		kept := rest[:0]
		grown := false
		for _, x := range rest {
			hit := false
			for _, v := range x.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if !hit {
				kept = append(kept, x)
				continue
			}
			out = append(out, x)
			for _, v := range x.vars {
				if !in[v] {
					in[v], grown = true, true
				}
			}
		}
		rest = kept
		if !grown {
			return out
		}
	}
}

// Check decides the conjunction of the literals, which are satisfiable on their
// own when there is a condition in addition; base is a model of theirs, then.
// When satisfiable, the model is an assignment of all variables.
func (s *Solver) Check(pc []*Term, extra *Term, base []uint64) (res string, model []uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.maxTime {
			s.maxTime = d
		}
	}()
	s.Queries++
	// only what is connected to the condition matters: the rest of the path is
	// known to be satisfiable on its own.
	lits := pc
	if extra != nil {
		lits = slice(pc, extra, len(s.ts.vars))
	}
	for _, t := range lits {
		s.declare(t)
	}
	if extra != nil {
		s.declare(extra)
	}
	s.send("(push 1)\n")
	seen := map[int32]bool{}
	use := func(t *Term) {
		for _, v := range t.vars {
			if !seen[v] {
				seen[v] = true
				x := s.ts.vars[v]
				if x.set != fullSet {
					tmp := *x
					tmp.set = fullSet
					s.send("(assert " + s.setExpr(&tmp, &x.set) + ")\n")
				}
			}
		}
	}
	for _, t := range lits {
		use(t)
		s.send("(assert " + s.ref(t) + ")\n")
	}
	if extra != nil {
		use(extra)
		s.send("(assert " + s.ref(extra) + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	res = s.line()
	if res == "sat" {
		model = make([]uint64, len(s.ts.vars))
		for i, v := range s.ts.vars {
			model[i] = v.lo
			if i < len(base) {
				model[i] = base[i]
			}
		}
		if len(seen) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for v := range seen {
				fmt.Fprintf(&sb, "v%d ", v)
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			s.in.Flush()
			s.readModel(model)
		}
	}
	s.send("(pop 1)\n")
	if res != "sat" && res != "unsat" {
		s.Unknown++
		if strings.HasPrefix(res, "(error") || res == "" {
			fmt.Fprintln(os.Stderr, "solver:", res)
			s.Close()
			s.start()
		}
		res = "unknown"
	}
	return
}

func (s *Solver) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return ""
	}
	return strings.TrimSpace(l)
}

func (s *Solver) readModel(model []uint64) {
	depth, started := 0, false
	var sb strings.Builder
	for !started || depth > 0 {
		c, err := s.out.ReadByte()
		if err != nil {
			return
		}
		switch c {
		case '(':
			depth++
			started = true
		case ')':
			depth--
		}
		sb.WriteByte(c)
	}
	s.out.ReadString('\n')
	f := strings.FieldsFunc(sb.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(f); i += 2 {
		idx, _ := strconv.Atoi(strings.TrimPrefix(f[i], "v"))
		var v uint64
		switch {
		case strings.HasPrefix(f[i+1], "#x"):
			v, _ = strconv.ParseUint(f[i+1][2:], 16, 64)
		case strings.HasPrefix(f[i+1], "#b"):
			v, _ = strconv.ParseUint(f[i+1][2:], 2, 64)
		}
		model[idx] = v
	}
}

var genCh = make(chan uint32, 1)

func init() { genCh <- 0 }

func nextGen() uint32 {
	g := <-genCh
	g++
	genCh <- g
	return g
}
