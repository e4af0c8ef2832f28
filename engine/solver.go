package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Sat int

const (
	Unsat Sat = iota
	SatYes
	Unknown
)

type SolverStats struct {
	Queries    int64
	CacheHits  int64
	DomDecided int64
	Tables     int64
	Unknowns   int64
	Sat, Uns   int64
	Time       time.Duration
	CrossCheck int64
	CrossBad   int64
}

func (s *SolverStats) add(o *SolverStats) {
	s.Queries += o.Queries
	s.CacheHits += o.CacheHits
	s.DomDecided += o.DomDecided
	s.Tables += o.Tables
	s.Unknowns += o.Unknowns
	s.Sat += o.Sat
	s.Uns += o.Uns
	s.Time += o.Time
	s.CrossCheck += o.CrossCheck
	s.CrossBad += o.CrossBad
}

func (s *SolverStats) String() string {
	return fmt.Sprintf("queries=%d sat=%d unsat=%d unknown=%d cache=%d bytedomain=%d tables=%d time=%.1fs cross=%d bad=%d", s.Queries, s.Sat, s.Uns, s.Unknowns, s.CacheHits, s.DomDecided, s.Tables, s.Time.Seconds(), s.CrossCheck, s.CrossBad)
}

// pipe is one SMT-LIB2 solver process.
type pipe struct {
	bin      string
	args     []string
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.WriteCloser
	out      *bufio.Reader
	declared int
	preamble string
}

func (p *pipe) start() error {
	p.cmd = exec.Command(p.bin, p.args...)
	in, err := p.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := p.cmd.Start(); err != nil {
		return err
	}
	p.inc = in
	p.in = bufio.NewWriterSize(in, 1<<16)
	p.out = bufio.NewReaderSize(out, 1<<16)
	p.declared = 0
	p.in.WriteString(p.preamble)
	return nil
}

func (p *pipe) stop() {
	if p.cmd != nil {
		p.inc.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		p.cmd = nil
	}
}

func (p *pipe) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := p.out.ReadByte()
		if err != nil {
			return "", err
		}
		switch b {
		case '(':
			depth++
			started = true
		case ')':
			depth--
		case '\n', ' ', '\r', '\t':
			if !started {
				continue
			}
			if depth == 0 {
				return sb.String(), nil
			}
		default:
			started = true
		}
		sb.WriteByte(b)
		if started && depth == 0 && b == ')' {
			return sb.String(), nil
		}
	}
}

type cacheEnt struct {
	r     Sat
	model map[int32]uint64
}

type Solver struct {
	ctx   *TermCtx
	p     *pipe
	x     *pipe // cross-check solver
	cache map[string]*cacheEnt
	st    SolverStats
}

func newSolver(ctx *TermCtx, cross bool) *Solver {
	s := &Solver{ctx: ctx, cache: map[string]*cacheEnt{}}
	s.p = &pipe{bin: "z3", args: []string{"-in", "-smt2"}, preamble: "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout 30000)\n(set-logic QF_BV)\n"}
	if cross {
		s.x = &pipe{bin: "cvc5", args: []string{"--incremental", "--lang=smt2", "--tlimit-per=30000"}, preamble: "(set-option :print-success false)\n(set-logic QF_BV)\n"}
	}
	return s
}

func (s *Solver) close() {
	s.p.stop()
	if s.x != nil {
		s.x.stop()
	}
}

func (s *Solver) reset(ctx *TermCtx) {
	s.close()
	s.ctx = ctx
	s.cache = map[string]*cacheEnt{}
}

func (p *pipe) sync(ctx *TermCtx) {
	for p.declared < len(ctx.varLst) {
		v := ctx.varLst[p.declared]
		if v.w == 0 {
			fmt.Fprintf(p.in, "(declare-const %s Bool)\n", vname(int32(v.c)))
		} else {
			fmt.Fprintf(p.in, "(declare-const %s (_ BitVec %d))\n", vname(int32(v.c)), v.w)
		}
		p.declared++
	}
}

func domSmt(v int32, d *dom, sb *strings.Builder) {
	n := vname(v)
	sb.WriteString("(or false")
	for lo := 0; lo < 256; {
		if !d.has(lo) {
			lo++
			continue
		}
		hi := lo
		for hi+1 < 256 && d.has(hi+1) {
			hi++
		}
		if lo == hi {
			fmt.Fprintf(sb, " (= %s #x%02x)", n, lo)
		} else {
			fmt.Fprintf(sb, " (and (bvule #x%02x %s) (bvule %s #x%02x))", lo, n, n, hi)
		}
		lo = hi + 1
	}
	sb.WriteString(")")
}

// check decides satisfiability of the conjunction of cons and domain restrictions.
func (s *Solver) check(cons []*Term, doms map[int32]*dom) (Sat, map[int32]uint64) {
	// canonical key
	ids := make([]int, 0, len(cons))
	seen := map[int32]bool{}
	for _, c := range cons {
		if c.op == OConst {
			if c.c == 0 {
				return Unsat, nil
			}
			continue
		}
		if !seen[c.id] {
			seen[c.id] = true
			ids = append(ids, int(c.id))
		}
	}
	sort.Ints(ids)
	vars := []int32{}
	for _, c := range cons {
		vars = mergeVars(vars, c.vars)
	}
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	for _, v := range vars {
		if d := doms[v]; d != nil {
			fmt.Fprintf(&kb, "%d:%x,%x,%x,%x;", v, d[0], d[1], d[2], d[3])
		}
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.st.CacheHits++
		return e.r, e.model
	}
	t0 := time.Now()
	var q strings.Builder
	q.WriteString("(push 1)\n")
	for _, v := range vars {
		if d := doms[v]; d != nil && !d.full() {
			q.WriteString("(assert ")
			domSmt(v, d, &q)
			q.WriteString(")\n")
		}
	}
	done := map[int32]bool{}
	for _, c := range cons {
		if c.op == OConst || done[c.id] {
			continue
		}
		done[c.id] = true
		q.WriteString("(assert " + smtString(c) + ")\n")
	}
	q.WriteString("(check-sat)\n")
	s.st.Queries++
	r, model := s.run(s.p, q.String(), vars, true)
	if r == Unknown {
		// one fresh try
		s.p.stop()
		r, model = s.run(s.p, q.String(), vars, true)
	}
	if s.x != nil && r != Unknown {
		r2, _ := s.run(s.x, q.String(), vars, false)
		s.st.CrossCheck++
		if r2 != Unknown && r2 != r {
			s.st.CrossBad++
			fmt.Fprintf(os.Stderr, "SOLVER DISAGREEMENT z3=%v cvc5=%v\n%s\n", r, r2, q.String())
		}
	}
	s.st.Time += time.Since(t0)
	switch r {
	case SatYes:
		s.st.Sat++
	case Unsat:
		s.st.Uns++
	default:
		s.st.Unknowns++
	}
	if r != Unknown {
		s.cache[key] = &cacheEnt{r, model}
	}
	return r, model
}

var (
	provedTables sync.Map // text of a condition on one byte -> bool
	varRe        = regexp.MustCompile(`\bv\d+\b`)
	letRe        = regexp.MustCompile(`\bl\d+\b`)
)

// proveTable has the solver prove that the byte values in d are exactly those that satisfy c, a condition on one byte v:
// no value of v tells them apart. Decisions made on such tables are thereby decisions of the solver.
func (s *Solver) proveTable(c *Term, v int32, d *dom) bool {
	var q strings.Builder
	q.WriteString("(assert (not (= " + smtString(c) + " ")
	domSmt(v, d, &q)
	q.WriteString(")))\n")
	names := map[string]string{}
	text := letRe.ReplaceAllStringFunc(varRe.ReplaceAllString(q.String(), "b"), func(l string) string {
		n, ok := names[l]
		if !ok {
			n = fmt.Sprintf("l%d", len(names))
			names[l] = n
		}
		return n
	})
	if r, ok := provedTables.Load(text); ok {
		return r.(bool)
	}
	t0 := time.Now()
	r, _ := s.run(s.p, "(push 1)\n(declare-const b (_ BitVec 8))\n"+text+"(check-sat)\n", nil, false)
	s.st.Time += time.Since(t0)
	s.st.Queries++
	s.st.Tables++
	switch r {
	case Unsat:
		s.st.Uns++
	case SatYes:
		s.st.Sat++
		fmt.Fprintln(os.Stderr, "THE SOLVER REFUTES A BYTE TABLE:", text)
	default:
		s.st.Unknowns++
		return false
	}
	provedTables.Store(text, r == Unsat)
	return r == Unsat
}

func (s *Solver) run(p *pipe, q string, vars []int32, wantModel bool) (Sat, map[int32]uint64) {
	if p.cmd == nil {
		if err := p.start(); err != nil {
			fmt.Fprintln(os.Stderr, "cannot start solver:", err)
			os.Exit(3)
		}
	}
	p.sync(s.ctx)
	p.in.WriteString(q)
	if err := p.in.Flush(); err != nil {
		p.stop()
		return Unknown, nil
	}
	ans, err := p.readSexp()
	if err != nil {
		p.stop()
		return Unknown, nil
	}
	if strings.HasPrefix(ans, "(error") {
		fmt.Fprintln(os.Stderr, "solver error:", ans, "\n", q)
		p.stop()
		return Unknown, nil
	}
	var res Sat
	var model map[int32]uint64
	switch ans {
	case "unsat":
		res = Unsat
	case "sat":
		res = SatYes
		if wantModel {
			model = map[int32]uint64{}
			if len(vars) > 0 {
				var g strings.Builder
				g.WriteString("(get-value (")
				for _, v := range vars {
					g.WriteString(vname(v) + " ")
				}
				g.WriteString("))\n")
				p.in.WriteString(g.String())
				p.in.Flush()
				out, err := p.readSexp()
				if err != nil || strings.HasPrefix(out, "(error") {
					p.stop()
					return Unknown, nil
				}
				parseValues(out, model)
			}
		}
	default:
		p.stop()
		return Unknown, nil
	}
	p.in.WriteString("(pop 1)\n")
	return res, model
}

func parseValues(s string, m map[int32]uint64) {
	toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(s))
	for i := 0; i+1 < len(toks); i += 2 {
		if toks[i][0] != 'v' {
			continue
		}
		id, err := strconv.Atoi(toks[i][1:])
		if err != nil {
			continue
		}
		v := toks[i+1]
		var x uint64
		switch {
		case v == "true":
			x = 1
		case v == "false":
			x = 0
		case strings.HasPrefix(v, "#x"):
			x, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, _ = strconv.ParseUint(v[2:], 2, 64)
		}
		m[int32(id)] = x
	}
}

// ---- byte domains ----

type dom [4]uint64

func (d *dom) has(i int) bool { return d[i>>6]>>(uint(i)&63)&1 != 0 }
func (d *dom) set(i int)      { d[i>>6] |= 1 << (uint(i) & 63) }
func (d *dom) full() bool {
	return d[0] == ^uint64(0) && d[1] == ^uint64(0) && d[2] == ^uint64(0) && d[3] == ^uint64(0)
}
func (d *dom) empty() bool { return d[0]|d[1]|d[2]|d[3] == 0 }
func (d dom) and(o *dom) dom {
	return dom{d[0] & o[0], d[1] & o[1], d[2] & o[2], d[3] & o[3]}
}
func (d dom) andNot(o *dom) dom {
	return dom{d[0] &^ o[0], d[1] &^ o[1], d[2] &^ o[2], d[3] &^ o[3]}
}
func (d *dom) first() int {
	// prefer printable letters for readable counterexamples
	for i := 'a'; i <= 'z'; i++ {
		if d.has(int(i)) {
			return int(i)
		}
	}
	for i := 0x20; i < 0x7f; i++ {
		if d.has(i) {
			return i
		}
	}
	for i := 0; i < 256; i++ {
		if d.has(i) {
			return i
		}
	}
	return -1
}

var fullDom = dom{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
