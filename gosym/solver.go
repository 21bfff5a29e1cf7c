package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries, Sat, Unsat, Unknown, Cached, OneShot int
	Time                                          time.Duration
	Max                                           time.Duration
}

type Solver struct {
	tb       *TB
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	emitted  []bool
	declared []*Term
	stats    SolverStats
	cache    map[string]Res
	models   map[string]Model
	bin      string
	nsent    int
	fastMS   int
	slow     time.Duration
	ctx      context.Context
	small    *Solver // for small queries
	mark     []int32
	gen      int32
}

func z3Binary() string {
	for _, p := range []string{"/opt/veriftools/pyvenv/bin/z3", "z3-new", "z3"} {
		if q, err := exec.LookPath(p); err == nil {
			return q
		}
	}
	return "z3"
}

func newSolver(tb *TB) *Solver {
	s := &Solver{tb: tb, cache: map[string]Res{}, models: map[string]Model{}, bin: z3Binary(), fastMS: 4000, slow: 120 * time.Second}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.emitted = nil
	s.declared = nil
	s.nsent = 0
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-logic QF_BV)\n", s.fastMS)
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
	if s.small != nil {
		s.small.close()
	}
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.val == 1 {
			return "true"
		}
		return "false"
	}
	return bvLit(t.w, t.val)
}
func bvLit(w uint8, v uint64) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

func ref(t *Term) string {
	if t.op == OpConst {
		return constStr(t)
	}
	if t.op == OpVar {
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

func termBody(sb io.Writer, t *Term) {
	switch t.op {
	case OpNot:
		fmt.Fprintf(sb, "(not %s)", ref(t.args[0]))
	case OpAnd:
		io.WriteString(sb, "(and")
		for _, a := range t.args {
			io.WriteString(sb, " ")
			io.WriteString(sb, ref(a))
		}
		io.WriteString(sb, ")")
	case OpEq:
		fmt.Fprintf(sb, "(= %s %s)", ref(t.args[0]), ref(t.args[1]))
	case OpUlt:
		fmt.Fprintf(sb, "(bvult %s %s)", ref(t.args[0]), ref(t.args[1]))
	case OpSlt:
		fmt.Fprintf(sb, "(bvslt %s %s)", ref(t.args[0]), ref(t.args[1]))
	case OpIte:
		fmt.Fprintf(sb, "(ite %s %s %s)", ref(t.args[0]), ref(t.args[1]), ref(t.args[2]))
	case OpVS:
		n := len(t.args)
		for i := 0; i < n-1; i++ {
			fmt.Fprintf(sb, "(ite %s %s ", ref(t.args[i]), bvLit(t.w, t.consts[i]))
		}
		io.WriteString(sb, bvLit(t.w, t.consts[n-1]))
		for i := 0; i < n-1; i++ {
			io.WriteString(sb, ")")
		}
	case OpZExt:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
	case OpSExt:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
	case OpExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", int(t.val)+int(t.w)-1, t.val, ref(t.args[0]))
	case OpUMulHi:
		w := int(t.w)
		fmt.Fprintf(sb, "((_ extract %d %d) (bvmul ((_ zero_extend %d) %s) ((_ zero_extend %d) %s)))", 2*w-1, w, w, ref(t.args[0]), w, ref(t.args[1]))
	default:
		names := map[Op]string{OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr"}
		fmt.Fprintf(sb, "(%s %s %s)", names[t.op], ref(t.args[0]), ref(t.args[1]))
	}
}

func varDecl(w io.Writer, t *Term) {
	fmt.Fprintf(w, "(declare-const v%d %s)\n", t.id, sortOf(t.w))
	if t.w > 0 && (t.lo != 0 || t.hi != maskOf(t.w)) {
		fmt.Fprintf(w, "(assert (and (bvule %s v%d) (bvule v%d %s)))\n", bvLit(t.w, t.lo), t.id, t.id, bvLit(t.w, t.hi))
	}
}

func (s *Solver) emit(t *Term) {
	if t.op == OpConst {
		return
	}
	if int(t.id) >= len(s.emitted) {
		n := make([]bool, len(s.tb.terms)+1024)
		copy(n, s.emitted)
		s.emitted = n
	}
	if s.emitted[t.id] {
		return
	}
	for _, a := range t.args {
		s.emit(a)
	}
	s.emitted[t.id] = true
	s.nsent++
	if t.op == OpVar {
		s.declared = append(s.declared, t)
		varDecl(s.in, t)
		return
	}
	fmt.Fprintf(s.in, "(define-fun t%d () %s ", t.id, sortOf(t.w))
	termBody(s.in, t)
	io.WriteString(s.in, ")\n")
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

func cacheKey(as []*Term) string {
	ids := make([]int, len(as))
	for i, a := range as {
		ids[i] = int(a.id)
	}
	sort.Ints(ids)
	var sb strings.Builder
	for _, i := range ids {
		sb.WriteString(strconv.Itoa(i))
		sb.WriteByte(',')
	}
	return sb.String()
}

// Check decides satisfiability of the conjunction; on Sat returns a model of all declared variables.
func (s *Solver) Check(as []*Term) (Res, Model) {
	var list []*Term
	for _, a := range as {
		if a.isFalse() {
			return Unsat, nil
		}
		if !a.isTrue() {
			list = append(list, a)
		}
	}
	key := cacheKey(list)
	if r, ok := s.cache[key]; ok {
		s.stats.Cached++
		return r, s.models[key]
	}
	t0 := time.Now()
	r, m := s.check(list)
	if r == Unknown {
		r, m = s.oneShot(list)
	}
	d := time.Since(t0)
	s.stats.Time += d
	if d > s.stats.Max {
		s.stats.Max = d
	}
	if d > dumpMin && dumpSlow != "" {
		os.WriteFile(filepath.Join(dumpSlow, fmt.Sprintf("q%d.smt2", s.stats.Queries)), []byte(s.script(list)), 0o644)
	}
	s.stats.Queries++
	switch r {
	case Sat:
		s.stats.Sat++
	case Unsat:
		s.stats.Unsat++
	default:
		s.stats.Unknown++
	}
	s.cache[key] = r
	if m != nil {
		s.models[key] = m
	}
	return r, m
}

var dumpSlow = os.Getenv("GOSYM_DUMP")
var dumpMin, _ = time.ParseDuration(os.Getenv("GOSYM_DUMPMIN") + "ms")

// smallCone: queries with fewer terms are sent on their own, others add to the terms of earlier queries.
const smallCone = 1500

// cone collects the terms below list, operands first; nil if there are too many.
func (s *Solver) cone(list []*Term) []*Term {
	s.gen++
	if len(s.mark) < len(s.tb.terms) {
		s.mark = make([]int32, len(s.tb.terms)+len(s.tb.terms)/2+1024)
	}
	out := make([]*Term, 0, 256)
	ok := true
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.op == OpConst || s.mark[t.id] == s.gen || !ok {
			return
		}
		s.mark[t.id] = s.gen
		for _, a := range t.args {
			rec(a)
		}
		out = append(out, t)
		if len(out) > smallCone {
			ok = false
		}
	}
	for _, t := range list {
		rec(t)
	}
	if !ok {
		return nil
	}
	return out
}

// checkSmall decides a query in a solver that knows nothing else.
func (s *Solver) checkSmall(list, cone []*Term) (Res, Model) {
	w := s.small
	if w == nil {
		w = &Solver{bin: s.bin, fastMS: s.fastMS, tb: s.tb}
		s.small = w
	}
	if w.cmd == nil {
		w.start()
	}
	fmt.Fprintf(w.in, "(reset)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", w.fastMS)
	w.declared = w.declared[:0]
	for _, t := range cone {
		if t.op == OpVar {
			w.declared = append(w.declared, t)
			varDecl(w.in, t)
			continue
		}
		fmt.Fprintf(w.in, "(define-fun t%d () %s ", t.id, sortOf(t.w))
		termBody(w.in, t)
		io.WriteString(w.in, ")\n")
	}
	for _, a := range list {
		fmt.Fprintf(w.in, "(assert %s)\n", ref(a))
	}
	w.in.WriteString("(check-sat)\n")
	return w.answer()
}

func (s *Solver) check(list []*Term) (Res, Model) {
	if c := s.cone(list); c != nil {
		return s.checkSmall(list, c)
	}
	if s.cmd != nil && s.nsent > 400000 {
		s.close()
	}
	if s.cmd == nil {
		s.start()
	}
	for _, a := range list {
		s.emit(a)
	}
	s.in.WriteString("(check-sat-assuming (")
	for _, a := range list {
		s.in.WriteString(" ")
		s.in.WriteString(ref(a))
	}
	s.in.WriteString("))\n")
	return s.answer()
}

func (s *Solver) answer() (Res, Model) {
	s.in.Flush()
	l, err := s.readLine()
	if err != nil {
		s.close()
		return Unknown, nil
	}
	switch l {
	case "unsat":
		return Unsat, nil
	case "unknown":
		return Unknown, nil
	case "sat":
		if len(s.declared) == 0 {
			return Sat, Model{}
		}
		s.in.WriteString("(get-value (")
		for _, v := range s.declared {
			s.in.WriteString(" ")
			s.in.WriteString(ref(v))
		}
		s.in.WriteString("))\n")
		s.in.Flush()
		m, err := s.readModel(s.out, len(s.declared))
		if err != nil {
			fmt.Fprintln(os.Stderr, "solver model:", err)
			s.close()
			return Unknown, nil
		}
		return Sat, m
	}
	fmt.Fprintln(os.Stderr, "solver said:", l)
	s.close()
	return Unknown, nil
}

func (s *Solver) readModel(r *bufio.Reader, n int) (Model, error) {
	// read a balanced s-expression
	var sb strings.Builder
	depth := 0
	started := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return nil, err
		}
		if c == '(' {
			depth++
			started = true
		}
		if c == ')' {
			depth--
		}
		sb.WriteByte(c)
		if started && depth == 0 {
			break
		}
	}
	r.ReadString('\n')
	txt := sb.String()
	if strings.Contains(txt, "error") {
		return nil, fmt.Errorf("%s", txt)
	}
	f := strings.FieldsFunc(txt, func(c rune) bool { return c == '(' || c == ')' || c == ' ' || c == '\n' || c == '\t' || c == '\r' })
	m := Model{}
	for i := 0; i+1 < len(f); {
		id, err := strconv.Atoi(strings.TrimPrefix(f[i], "v"))
		if err != nil {
			return nil, fmt.Errorf("model parse %q", f[i])
		}
		val := f[i+1]
		i += 2
		var v uint64
		switch {
		case val == "true":
			v = 1
		case val == "false":
			v = 0
		case strings.HasPrefix(val, "#x"):
			v, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			v, err = strconv.ParseUint(val[2:], 2, 64)
		default:
			return nil, fmt.Errorf("model value %q", val)
		}
		if err != nil {
			return nil, err
		}
		m[s.tb.terms[id]] = v
	}
	return m, nil
}

func (s *Solver) script(list []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	seen := map[*Term]bool{}
	var vars []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.op == OpConst || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		if t.op == OpVar {
			vars = append(vars, t)
			varDecl(&sb, t)
			return
		}
		fmt.Fprintf(&sb, "(define-fun t%d () %s ", t.id, sortOf(t.w))
		termBody(&sb, t)
		sb.WriteString(")\n")
	}
	for _, a := range list {
		rec(a)
	}
	for _, a := range list {
		fmt.Fprintf(&sb, "(assert %s)\n", ref(a))
	}
	sb.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(" " + ref(v))
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

// oneShot runs non-incremental solvers in parallel on the whole query.
func (s *Solver) oneShot(list []*Term) (Res, Model) {
	s.stats.OneShot++
	base := s.ctx
	if base == nil {
		base = context.Background()
	}
	ctx, cancel := context.WithTimeout(base, s.slow)
	defer cancel()
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return Unknown, nil
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "q.smt2")
	if os.WriteFile(f, []byte(s.script(list)), 0o644) != nil {
		return Unknown, nil
	}
	type ans struct {
		r Res
		m Model
	}
	cmds := [][]string{
		{s.bin, f},
		{"cvc5", "--bitblast=eager", "--produce-models", f},
		{"cvc5", "--solve-bv-as-int=sum", "--produce-models", f},
	}
	ch := make(chan ans, len(cmds))
	for _, c := range cmds {
		go func(c []string) {
			out, _ := exec.CommandContext(ctx, c[0], c[1:]...).Output()
			r := bufio.NewReader(strings.NewReader(string(out)))
			l, _ := r.ReadString('\n')
			switch strings.TrimSpace(l) {
			case "sat":
				m, err := s.readModel(r, 0)
				if err != nil {
					if rest, _ := io.ReadAll(r); len(strings.TrimSpace(string(rest))) == 0 {
						ch <- ans{Sat, Model{}}
						return
					}
					ch <- ans{Unknown, nil}
					return
				}
				ch <- ans{Sat, m}
			case "unsat":
				ch <- ans{Unsat, nil}
			default:
				ch <- ans{Unknown, nil}
			}
		}(c)
	}
	for range cmds {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}
