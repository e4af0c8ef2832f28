package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type abortKind int

const (
	abAssume      abortKind = iota // infeasible assumption: path discarded
	abUnsupported                  // engine cannot continue: path incomplete
	abLimit                        // step limit
	abStop                         // end of path requested (after violation)
)

type pathAbort struct {
	kind abortKind
	msg  string
}

func unsupported(msg string) pathAbort { return pathAbort{abUnsupported, msg} }

type targetPanic struct {
	v     value // iface
	where string
}

type input struct {
	Name string `json:"n"`
	term *Term
	Val  uint64 `json:"v"`
}

type item struct {
	h      int
	prefix []int32
	model  map[string]uint64
}

type Exec struct {
	eng *Engine
	id  int
	ctx *TermCtx
	sol *Solver

	globals  map[*ssa.Global]*value
	inited   map[*ssa.Package]bool
	mglobals map[*ssa.Global]*value
	minited  map[*ssa.Package]bool
	initMode int
	metCache map[metKey]*ssa.Function

	truthMemo map[int32]*dom

	cur  *item
	curH *harness
	// per path
	prefix    []int32
	pos       int
	trace     []int32
	multi     []*Term
	doms      map[int32]*dom
	multiVars map[int32]bool
	model     *Model
	ev        *evaluator
	inputs    []input
	nameCount map[string]int
	steps     int64
	depth     int
	noFork    int
	observed  []obs
	reached   map[string]bool
	mapOrder  bool
	asserts   int64
	noPush    bool
	lastFn    *ssa.Function
	pathSteps int64
	stack     []*ssa.Function
}

type obs struct {
	label string
	v     value
	str   bool
}

type metKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

func newExec(eng *Engine, id int) *Exec {
	x := &Exec{eng: eng, id: id}
	x.ctx = newTermCtx()
	x.sol = newSolver(x.ctx, eng.cross)
	x.globals = map[*ssa.Global]*value{}
	x.inited = map[*ssa.Package]bool{}
	x.metCache = map[metKey]*ssa.Function{}
	x.truthMemo = map[int32]*dom{}
	return x
}

func (x *Exec) resetPath(it *item) {
	if x.ctx.next > 1500000 {
		x.ctx = newTermCtx()
		x.sol.reset(x.ctx)
		x.truthMemo = map[int32]*dom{}
		// immutable globals never hold symbolic terms
	}
	x.cur = it
	x.prefix = it.prefix
	x.pos = 0
	x.trace = append(x.trace[:0], it.prefix...)[:0]
	x.multi = x.multi[:0]
	x.doms = map[int32]*dom{}
	x.multiVars = map[int32]bool{}
	x.model = &Model{vals: map[int32]uint64{}}
	x.ev = newEvaluator(x.model)
	x.inputs = x.inputs[:0]
	x.nameCount = map[string]int{}
	x.steps = 0
	x.depth = 0
	x.mglobals = map[*ssa.Global]*value{}
	x.minited = map[*ssa.Package]bool{}
	x.observed = x.observed[:0]
	x.reached = map[string]bool{}
	x.mapOrder = false
	x.noFork = 0
	x.stack = x.stack[:0]
	x.initMode = 0
}

// ---- path condition ----

func (x *Exec) truth(c *Term) *dom {
	if d, ok := x.truthMemo[c.id]; ok {
		return d
	}
	d := &dom{}
	v := c.vars[0]
	m := &Model{vals: map[int32]uint64{}}
	w := x.ctx.varLst[v].w
	n := 256
	if w < 8 {
		n = 1 << w
	}
	for i := 0; i < n; i++ {
		m.vals[v] = uint64(i)
		e := evaluator{m: m, memo: map[int32]uint64{}}
		if e.eval(c) != 0 {
			d.set(i)
		}
	}
	x.truthMemo[c.id] = d
	if w == 8 && !x.sol.proveTable(c, v, d) {
		x.eng.noteUnknown()
	}
	return d
}

func (x *Exec) isUnaryByte(c *Term) bool {
	return len(c.vars) == 1 && x.ctx.varLst[c.vars[0]].w == 8
}

func (x *Exec) addPC(c *Term) {
	if c.op == OConst {
		return
	}
	if c.op == OAnd {
		x.addPC(c.a[0])
		x.addPC(c.a[1])
		return
	}
	if x.isUnaryByte(c) {
		v := c.vars[0]
		t := x.truth(c)
		d := x.doms[v]
		if d == nil {
			d = &fullDom
		}
		nd := d.and(t)
		x.doms[v] = &nd
		return
	}
	x.multi = append(x.multi, c)
	for _, v := range c.vars {
		x.multiVars[v] = true
	}
}

// slice returns the constraints connected with the variables of c.
func (x *Exec) slice(c *Term) []*Term {
	if len(x.multi) == 0 {
		return nil
	}
	vs := map[int32]bool{}
	for _, v := range c.vars {
		vs[v] = true
	}
	var out []*Term
	used := make([]bool, len(x.multi))
	for changed := true; changed; {
		changed = false
		for i, m := range x.multi {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range m.vars {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, m)
				for _, v := range m.vars {
					vs[v] = true
				}
			}
		}
	}
	return out
}

func (x *Exec) domOf(v int32) *dom {
	if d := x.doms[v]; d != nil {
		return d
	}
	return &fullDom
}

// feasible decides PC ∧ c, returning updated variable values when satisfiable.
func (x *Exec) feasible(c *Term, forceSolver bool) (Sat, map[int32]uint64) {
	if c.op == OConst {
		if c.c == 0 {
			return Unsat, nil
		}
		return SatYes, map[int32]uint64{}
	}
	if !forceSolver && x.isUnaryByte(c) {
		v := c.vars[0]
		t := x.truth(c)
		d := x.domOf(v)
		nd := d.and(t)
		if nd.empty() {
			x.sol.st.DomDecided++
			return Unsat, nil
		}
		rest := d.andNot(t)
		if rest.empty() {
			x.sol.st.DomDecided++
			return SatYes, map[int32]uint64{}
		}
		if !x.multiVars[v] {
			x.sol.st.DomDecided++
			return SatYes, map[int32]uint64{v: uint64(nd.first())}
		}
	}
	cons := append(x.slice(c), c)
	return x.sol.check(cons, x.doms)
}

func (x *Exec) applyModel(up map[int32]uint64) {
	if len(up) == 0 {
		return
	}
	ch := false
	for k, v := range up {
		if old, ok := x.model.vals[k]; !ok || old != v {
			ch = true
			break
		}
	}
	if !ch {
		return
	}
	for k, v := range up {
		x.model.vals[k] = v
	}
	x.ev = newEvaluator(x.model)
}

func (x *Exec) modelByName(up map[int32]uint64) map[string]uint64 {
	m := make(map[string]uint64, len(x.inputs))
	for _, in := range x.inputs {
		vi := int32(in.term.c)
		v, ok := up[vi]
		if !ok {
			v = x.model.vals[vi]
		}
		m[in.Name] = v
	}
	return m
}

func (x *Exec) push(dec int32, up map[int32]uint64) {
	if x.noPush {
		return
	}
	p := make([]int32, len(x.trace)+1)
	copy(p, x.trace)
	p[len(x.trace)] = dec
	x.eng.queue.push(&item{h: x.cur.h, prefix: p, model: x.modelByName(up)})
}

// branch decides a symbolic condition for this path, forking when both sides are feasible.
func (x *Exec) branch(c *Term) bool {
	if c.op == OConst {
		return c.c != 0
	}
	if x.noFork > 0 {
		panic(forkNeeded{})
	}
	if x.pos < len(x.prefix) {
		d := x.prefix[x.pos]
		x.pos++
		x.trace = append(x.trace, d)
		side := d&1 == 1
		if d&2 == 0 {
			if side {
				x.addPC(c)
			} else {
				x.addPC(x.ctx.Not(c))
			}
		}
		return side
	}
	cur := x.ev.eval(c) != 0
	other := c
	if cur {
		other = x.ctx.Not(c)
	}
	r, up := x.feasible(other, false)
	if r == Unknown {
		x.eng.noteUnknown()
		r = Unsat
	}
	var dec, odec int32
	if cur {
		dec, odec = 1, 0
	} else {
		dec, odec = 0, 1
	}
	if r == Unsat {
		x.trace = append(x.trace, dec|2)
		x.pos++
		x.prefix = x.trace
		return cur
	}
	x.push(odec, up)
	x.trace = append(x.trace, dec)
	x.pos++
	x.prefix = x.trace
	if cur {
		x.addPC(c)
	} else {
		x.addPC(other2(x, c))
	}
	x.eng.stats.forks.Add(1)
	return cur
}

func other2(x *Exec, c *Term) *Term { return x.ctx.Not(c) }

type forkNeeded struct{}

// choose makes an n-way concrete choice bound to a named input variable.
func (x *Exec) choose(name string, n int) int {
	if n <= 0 {
		panic(pathAbort{abAssume, "empty choice"})
	}
	if x.noFork > 0 {
		panic(forkNeeded{})
	}
	t := x.newInput(name, 32)
	vi := int32(t.c)
	if x.pos < len(x.prefix) {
		d := x.prefix[x.pos]
		x.pos++
		x.trace = append(x.trace, d)
		v := int(d - 4)
		if v < 0 || v >= n {
			panic(unsupported(fmt.Sprintf("choice replay mismatch %s %d of %d", name, v, n)))
		}
		x.model.vals[vi] = uint64(v)
		return v
	}
	for i := n - 1; i >= 1; i-- {
		x.push(int32(4+i), map[int32]uint64{vi: uint64(i)})
	}
	if n > 1 {
		x.eng.stats.forks.Add(int64(n - 1))
	}
	x.trace = append(x.trace, 4)
	x.pos++
	x.prefix = x.trace
	x.model.vals[vi] = 0
	return 0
}

func (x *Exec) newInput(name string, w uint8) *Term {
	k := x.nameCount[name]
	x.nameCount[name] = k + 1
	full := name
	if k > 0 {
		full = fmt.Sprintf("%s#%d", name, k)
	}
	t := x.ctx.Var(full, w)
	x.inputs = append(x.inputs, input{Name: full, term: t})
	vi := int32(t.c)
	if v, ok := x.startModel(full); ok {
		x.model.vals[vi] = v
	} else if _, ok := x.model.vals[vi]; !ok {
		x.model.vals[vi] = 0
	}
	return t
}

func (x *Exec) startModel(n string) (uint64, bool) {
	if x.cur == nil || x.cur.model == nil {
		return 0, false
	}
	v, ok := x.cur.model[n]
	return v, ok
}

// assume restricts the path; discards it when infeasible.
func (x *Exec) assume(v value) {
	switch b := v.(type) {
	case bool:
		if !b {
			panic(pathAbort{abAssume, ""})
		}
	case *Term:
		if b.op == OConst {
			if b.c == 0 {
				panic(pathAbort{abAssume, ""})
			}
			return
		}
		if x.noFork > 0 {
			panic(forkNeeded{})
		}
		if x.pos < len(x.prefix) {
			d := x.prefix[x.pos]
			x.pos++
			x.trace = append(x.trace, d)
			if d&2 == 0 {
				x.addPC(b)
			}
			return
		}
		if x.ev.eval(b) == 0 {
			r, up := x.feasible(b, false)
			if r == Unknown {
				x.eng.noteUnknown()
				r = Unsat
			}
			if r == Unsat {
				panic(pathAbort{abAssume, ""})
			}
			x.applyModel(up)
		}
		x.trace = append(x.trace, 1)
		x.pos++
		x.prefix = x.trace
		x.addPC(b)
	default:
		panic(unsupported("assume of non-bool"))
	}
}

// assertTrue discharges an assertion with the solver.
func (x *Exec) assertTrue(v value, msg string) {
	x.eng.stats.asserts.Add(1)
	switch b := v.(type) {
	case bool:
		if x.noFork > 0 && !b {
			panic(forkNeeded{})
		}
		if b {
			x.eng.stats.assertsConcrete.Add(1)
			return
		}
		x.violation("assert", msg, nil)
		panic(pathAbort{abStop, "violation"})
	case *Term:
		if b.op == OConst {
			x.assertTrue(b.c != 0, msg)
			return
		}
		if x.noFork > 0 {
			panic(forkNeeded{})
		}
		if x.pos < len(x.prefix) { // already decided on a previous visit
			d := x.prefix[x.pos]
			x.pos++
			x.trace = append(x.trace, d)
			if d&2 == 0 {
				x.addPC(b)
			}
			return
		}
		x.eng.stats.assertsSolver.Add(1)
		r, up := x.feasible(x.ctx.Not(b), true)
		switch r {
		case Unknown:
			x.eng.noteUnknown()
			x.trace = append(x.trace, 1)
			x.pos++
			x.prefix = x.trace
			x.addPC(b)
			return
		case Unsat:
			x.trace = append(x.trace, 3)
			x.pos++
			x.prefix = x.trace
			return
		}
		x.violation("assert", msg, up)
		r, up = x.feasible(b, false)
		if r != SatYes {
			panic(pathAbort{abStop, "violation"})
		}
		x.applyModel(up)
		x.trace = append(x.trace, 1)
		x.pos++
		x.prefix = x.trace
		x.addPC(b)
	default:
		panic(unsupported("assert of non-bool"))
	}
}

func (x *Exec) inputsUnder(up map[int32]uint64) []input {
	out := make([]input, len(x.inputs))
	for i, in := range x.inputs {
		out[i] = in
		vi := int32(in.term.c)
		if v, ok := up[vi]; ok {
			out[i].Val = v
		} else {
			out[i].Val = x.model.vals[vi]
		}
	}
	return out
}

func (x *Exec) violation(kind, msg string, up map[int32]uint64) {
	x.eng.addCandidate(&candidate{Harness: x.curH.name, Kind: kind, Msg: msg, Inputs: x.inputsUnder(up)})
}

// ---- concretisation ----

func (x *Exec) concInt(v value, k intKind) int64 {
	switch b := v.(type) {
	case int64:
		return b
	case *Term:
		if b.op == OConst {
			return normInt(b.c, k)
		}
		if x.noFork > 0 {
			panic(forkNeeded{})
		}
		for i := 0; ; i++ {
			if i > 300 {
				panic(unsupported("concretisation of a wide symbolic value"))
			}
			if x.pos < len(x.prefix) {
				// the tested constant is stored in the decision stream: <value marker>
				c := x.prefix[x.pos]
				x.pos++
				x.trace = append(x.trace, c)
				cv := uint64(uint32(c))
				if x.branch(x.ctx.Eq(b, x.ctx.Const(cv, b.w))) {
					return normInt(cv, k)
				}
				continue
			}
			cv := x.ev.eval(b)
			if cv > 0x7fffffff {
				panic(unsupported("concretisation of a large symbolic value"))
			}
			x.trace = append(x.trace, int32(cv))
			x.pos++
			x.prefix = x.trace
			if x.branch(x.ctx.Eq(b, x.ctx.Const(cv, b.w))) {
				return normInt(cv, k)
			}
		}
	}
	panic(unsupported(fmt.Sprintf("concInt %T", v)))
}

func (x *Exec) concBool(v value) bool {
	switch b := v.(type) {
	case bool:
		return b
	case *Term:
		return x.branch(b)
	}
	panic(unsupported(fmt.Sprintf("concBool %T", v)))
}

func (x *Exec) concStr(v value) string {
	switch s := v.(type) {
	case string:
		return s
	case symstr:
		b := make([]byte, len(s))
		for i, e := range s {
			if e.t == nil {
				b[i] = e.c
			} else {
				b[i] = byte(x.concInt(e.t, intKind{8, false}))
			}
		}
		return string(b)
	}
	panic(unsupported(fmt.Sprintf("concStr %T", v)))
}

// modelStr renders v under the current model.
func (x *Exec) modelStr(v value) string {
	switch s := v.(type) {
	case string:
		return s
	case symstr:
		b := make([]byte, len(s))
		for i, e := range s {
			if e.t == nil {
				b[i] = e.c
			} else {
				b[i] = byte(x.ev.eval(e.t))
			}
		}
		return string(b)
	case bool:
		return fmt.Sprint(s)
	case int64:
		return fmt.Sprint(s)
	case *Term:
		if s.w == 0 {
			return fmt.Sprint(x.ev.eval(s) != 0)
		}
		return fmt.Sprint(normInt(x.ev.eval(s), intKind{s.w, true}))
	}
	return describe(v)
}

// ---- globals and package initialisation ----

func (x *Exec) globalAddr(g *ssa.Global) *value {
	pkg := g.Pkg
	if pkg.Pkg.Path() == "os" && (g.Name() == "Args" || g.Name() == "Stdin" || g.Name() == "Stdout" || g.Name() == "Stderr") {
		// set by the harness, on each path anew
		if p, ok := x.mglobals[g]; ok {
			return p
		}
		v := zero(g.Type().(*types.Pointer).Elem())
		x.mglobals[g] = &v
		return &v
	}
	if x.eng.mutablePkg(pkg) {
		if p, ok := x.mglobals[g]; ok {
			return p
		}
		if !x.minited[pkg] {
			x.minited[pkg] = true
			x.allocGlobals(pkg, x.mglobals)
			x.runInit(pkg)
		}
		if p, ok := x.mglobals[g]; ok {
			return p
		}
		v := zero(g.Type().(*types.Pointer).Elem())
		x.mglobals[g] = &v
		return &v
	}
	if p, ok := x.globals[g]; ok {
		return p
	}
	if !x.inited[pkg] {
		x.inited[pkg] = true
		x.allocGlobals(pkg, x.globals)
		x.runInit(pkg)
	}
	if p, ok := x.globals[g]; ok {
		return p
	}
	v := zero(g.Type().(*types.Pointer).Elem())
	x.globals[g] = &v
	return &v
}

func (x *Exec) allocGlobals(pkg *ssa.Package, m map[*ssa.Global]*value) {
	for _, mem := range pkg.Members {
		if g, ok := mem.(*ssa.Global); ok {
			v := zero(g.Type().(*types.Pointer).Elem())
			m[g] = &v
		}
	}
}

func (x *Exec) runInit(pkg *ssa.Package) {
	fn := pkg.Func("init")
	if fn == nil {
		return
	}
	x.initMode++
	savedSteps := x.steps
	sd := x.depth
	ss := len(x.stack)
	defer func() {
		x.initMode--
		x.steps = savedSteps
		x.depth = sd
		x.stack = x.stack[:ss]
		if r := recover(); r != nil {
			if os.Getenv("SYMGO_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "init of %s failed: %v\n", pkg.Pkg.Path(), r)
			}
			switch r.(type) {
			case pathAbort, targetPanic:
				return
			}
			panic(r)
		}
	}()
	x.callSSA(fn, nil, nil)
}

func (x *Exec) stackStr() string {
	n := len(x.stack)
	lo := n - 12
	if lo < 0 {
		lo = 0
	}
	var out []string
	for i := n - 1; i >= lo; i-- {
		out = append(out, x.stack[i].String())
	}
	return strings.Join(out, " < ")
}

var _ = sort.Ints
var debugOn = os.Getenv("SYMGO_DEBUG") != ""
