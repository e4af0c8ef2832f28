package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Hash-consed SMT terms over Bool (w==0) and bit-vectors (w in 1..64).

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OExtract
	OZExt
	OSExt
	ONeg
	OBNot
)

var opNames = [...]string{"", "", "not", "and", "or", "=", "ite", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvult", "bvule", "bvslt", "bvsle", "", "", "", "bvneg", "bvnot"}

type Term struct {
	id   int32
	op   Op
	w    uint8
	n    uint8
	a    [3]*Term
	c    uint64
	name string
	vars []int32 // sorted distinct var indexes
}

type termKey struct {
	op      Op
	w       uint8
	a, b, d int32
	c       uint64
}

type TermCtx struct {
	tab    map[termKey]*Term
	next   int32
	varTab map[string]*Term
	varLst []*Term
	tTrue  *Term
	tFalse *Term
}

func newTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}, varTab: map[string]*Term{}}
	c.tTrue = c.mk(OConst, 0, 1)
	c.tFalse = c.mk(OConst, 0, 0)
	return c
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (c *TermCtx) mk(op Op, w uint8, cv uint64, args ...*Term) *Term {
	k := termKey{op: op, w: w, c: cv, a: -1, b: -1, d: -1}
	for i, x := range args {
		switch i {
		case 0:
			k.a = x.id
		case 1:
			k.b = x.id
		case 2:
			k.d = x.id
		}
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{id: c.next, op: op, w: w, c: cv, n: uint8(len(args))}
	c.next++
	for i, x := range args {
		t.a[i] = x
		if i == 0 {
			t.vars = x.vars
		} else {
			t.vars = mergeVars(t.vars, x.vars)
		}
	}
	c.tab[k] = t
	return t
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// check subset quickly
	i, j := 0, 0
	sub := true
	for j < len(b) {
		if i < len(a) && a[i] < b[j] {
			i++
		} else if i < len(a) && a[i] == b[j] {
			i++
			j++
		} else {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (c *TermCtx) Var(name string, w uint8) *Term {
	key := fmt.Sprintf("%s:%d", name, w)
	if t, ok := c.varTab[key]; ok {
		return t
	}
	t := &Term{id: c.next, op: OVar, w: w, c: uint64(len(c.varLst)), name: name}
	c.next++
	t.vars = []int32{int32(len(c.varLst))}
	c.varLst = append(c.varLst, t)
	c.varTab[key] = t
	return t
}

func (c *TermCtx) Const(v uint64, w uint8) *Term {
	return c.mk(OConst, w, v&mask(w))
}
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}
func (t *Term) isConst() bool { return t.op == OConst }

func (c *TermCtx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(a.c == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return c.mk(ONot, 0, 0, a)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.c == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.isNeg(a, b) {
		return c.tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, 0, 0, a, b)
}
func (c *TermCtx) isNeg(a, b *Term) bool {
	return (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a)
}
func (c *TermCtx) Or(a, b *Term) *Term {
	if a.op == OConst {
		if a.c != 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.c != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.isNeg(a, b) {
		return c.tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, 0, 0, a, b)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tTrue
	}
	if a.w == 0 {
		if a.op == OConst {
			if a.c != 0 {
				return b
			}
			return c.Not(b)
		}
		if b.op == OConst {
			if b.c != 0 {
				return a
			}
			return c.Not(a)
		}
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.c == b.c)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		switch a.op {
		case OIte:
			x, y := a.a[1], a.a[2]
			if x.op == OConst || y.op == OConst {
				return c.Ite(a.a[0], c.Eq(x, b), c.Eq(y, b))
			}
		case OZExt:
			iw := a.a[0].w
			if b.c > mask(iw) {
				return c.tFalse
			}
			return c.Eq(a.a[0], c.Const(b.c, iw))
		case OSExt:
			iw := a.a[0].w
			lo := b.c & mask(iw)
			if uint64(sx(lo, iw))&mask(a.w) != b.c {
				return c.tFalse
			}
			return c.Eq(a.a[0], c.Const(lo, iw))
		case OAdd:
			if a.a[1].op == OConst {
				return c.Eq(a.a[0], c.Const(b.c-a.a[1].c, a.w))
			}
		}
	}
	if a.op == OZExt && b.op == OZExt && a.a[0].w == b.a[0].w {
		return c.Eq(a.a[0], b.a[0])
	}
	if a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, a, b)
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond.op == OConst {
		if cond.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if cond.op == ONot {
		return c.Ite(cond.a[0], b, a)
	}
	if a.w == 0 {
		if a.op == OConst {
			if a.c != 0 {
				return c.Or(cond, b)
			}
			return c.And(c.Not(cond), b)
		}
		if b.op == OConst {
			if b.c != 0 {
				return c.Or(c.Not(cond), a)
			}
			return c.And(cond, a)
		}
		return c.Or(c.And(cond, a), c.And(c.Not(cond), b))
	}
	return c.mk(OIte, a.w, 0, cond, a, b)
}

func evalBin(op Op, x, y uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		s := sx(x, w)
		if y >= uint64(w) {
			y = 63
		}
		return uint64(s>>y) & m
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sx(x, w) < sx(y, w))
	case OSle:
		return b2u(sx(x, w) <= sx(y, w))
	}
	panic("evalBin")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %s %d %d", opNames[op], a.w, b.w))
	}
	rw := a.w
	if op == OUlt || op == OUle || op == OSlt || op == OSle {
		rw = 0
	}
	if a.op == OConst && b.op == OConst {
		return c.Const(evalBin(op, a.c, b.c, a.w), rw)
	}
	switch op {
	case OAdd, OBOr, OBXor:
		if b.op == OConst && b.c == 0 {
			return a
		}
		if a.op == OConst && a.c == 0 {
			return b
		}
		if a.op == OConst {
			a, b = b, a
		}
		if op == OAdd && b.op == OConst && a.op == OAdd && a.a[1].op == OConst {
			return c.Bin(OAdd, a.a[0], c.Const(a.a[1].c+b.c, a.w))
		}
	case OSub:
		if b.op == OConst {
			return c.Bin(OAdd, a, c.Const(-b.c, a.w))
		}
		if a == b {
			return c.Const(0, a.w)
		}
	case OBAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.c == 0 {
			return b
		}
		if b.op == OConst && b.c == mask(a.w) {
			return a
		}
	case OShl, OLShr, OAShr:
		if b.op == OConst && b.c == 0 {
			return a
		}
	case OUlt:
		if b.op == OConst && b.c == 0 {
			return c.tFalse
		}
		if a == b {
			return c.tFalse
		}
	case OUle:
		if a.op == OConst && a.c == 0 {
			return c.tTrue
		}
		if b.op == OConst && b.c == mask(b.w) {
			return c.tTrue
		}
		if a == b {
			return c.tTrue
		}
	}
	// comparisons of zero-extended terms against constants: narrow
	if rw == 0 {
		if t := c.narrowCmp(op, a, b); t != nil {
			return t
		}
	}
	return c.mk(op, rw, 0, a, b)
}

func (c *TermCtx) narrowCmp(op Op, a, b *Term) *Term {
	if a.op == OZExt && b.op == OConst {
		iw := a.a[0].w
		if iw < a.w && b.c <= mask(iw) {
			o := op
			if o == OSlt {
				o = OUlt
			}
			if o == OSle {
				o = OUle
			}
			return c.Bin(o, a.a[0], c.Const(b.c, iw))
		}
		if op == OUlt || op == OUle || sx(b.c, b.w) >= 0 {
			return c.tTrue
		}
		return c.tFalse
	}
	if b.op == OZExt && a.op == OConst {
		iw := b.a[0].w
		if iw < b.w && a.c <= mask(iw) {
			o := op
			if o == OSlt {
				o = OUlt
			}
			if o == OSle {
				o = OUle
			}
			return c.Bin(o, c.Const(a.c, iw), b.a[0])
		}
		if op == OUlt || op == OUle || sx(a.c, a.w) >= 0 {
			return c.tFalse
		}
		return c.tTrue
	}
	if a.op == OZExt && b.op == OZExt && a.a[0].w == b.a[0].w && a.a[0].w < a.w {
		o := op
		if o == OSlt {
			o = OUlt
		}
		if o == OSle {
			o = OUle
		}
		return c.Bin(o, a.a[0], b.a[0])
	}
	return nil
}

func (c *TermCtx) Un(op Op, a *Term) *Term {
	if a.op == OConst {
		switch op {
		case ONeg:
			return c.Const(-a.c, a.w)
		case OBNot:
			return c.Const(^a.c, a.w)
		}
	}
	return c.mk(op, a.w, 0, a)
}

// Resize converts a to width w (sign-extending when signed).
func (c *TermCtx) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		v := a.c
		if signed {
			v = uint64(sx(v, a.w))
		}
		return c.Const(v, w)
	}
	if a.op == OIte && (a.a[1].op == OConst || a.a[2].op == OConst) {
		return c.Ite(a.a[0], c.Resize(a.a[1], w, signed), c.Resize(a.a[2], w, signed))
	}
	if w < a.w {
		if (a.op == OZExt || a.op == OSExt) && a.a[0].w >= w {
			return c.Resize(a.a[0], w, false)
		}
		if a.op == OZExt && a.a[0].w < w {
			return c.Resize(a.a[0], w, false)
		}
		return c.mk(OExtract, w, 0, a)
	}
	if a.op == OZExt {
		return c.Resize(a.a[0], w, false)
	}
	if signed {
		return c.mk(OSExt, w, 0, a)
	}
	return c.mk(OZExt, w, 0, a)
}

// ---- evaluation under a model ----

type Model struct {
	vals map[int32]uint64
}

func (m *Model) clone() *Model {
	n := &Model{vals: make(map[int32]uint64, len(m.vals))}
	for k, v := range m.vals {
		n.vals[k] = v
	}
	return n
}

type evaluator struct {
	m    *Model
	memo map[int32]uint64
}

func newEvaluator(m *Model) *evaluator { return &evaluator{m: m, memo: map[int32]uint64{}} }

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OVar:
		return e.m.vals[int32(t.c)] & mask(t.w)
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - e.eval(t.a[0])
	case OAnd:
		if e.eval(t.a[0]) == 0 {
			r = 0
		} else {
			r = e.eval(t.a[1])
		}
	case OOr:
		if e.eval(t.a[0]) != 0 {
			r = 1
		} else {
			r = e.eval(t.a[1])
		}
	case OEq:
		r = b2u(e.eval(t.a[0]) == e.eval(t.a[1]))
	case OIte:
		if e.eval(t.a[0]) != 0 {
			r = e.eval(t.a[1])
		} else {
			r = e.eval(t.a[2])
		}
	case OExtract:
		r = e.eval(t.a[0]) & mask(t.w)
	case OZExt:
		r = e.eval(t.a[0])
	case OSExt:
		r = uint64(sx(e.eval(t.a[0]), t.a[0].w)) & mask(t.w)
	case ONeg:
		r = -e.eval(t.a[0]) & mask(t.w)
	case OBNot:
		r = ^e.eval(t.a[0]) & mask(t.w)
	default:
		r = evalBin(t.op, e.eval(t.a[0]), e.eval(t.a[1]), t.a[0].w)
	}
	e.memo[t.id] = r
	return r
}

// ---- SMT-LIB printing ----

func vname(i int32) string { return fmt.Sprintf("v%d", i) }

func (t *Term) smt(sb *strings.Builder, depthLets map[int32]string) {
	if depthLets != nil {
		if n, ok := depthLets[t.id]; ok {
			sb.WriteString(n)
			return
		}
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.c != 0 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
			return
		}
		if t.w%4 == 0 {
			fmt.Fprintf(sb, "#x%0*x", int(t.w)/4, t.c)
		} else {
			fmt.Fprintf(sb, "#b%0*b", int(t.w), t.c)
		}
		return
	case OVar:
		sb.WriteString(vname(int32(t.c)))
		return
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d 0) ", t.w-1)
	case OZExt:
		fmt.Fprintf(sb, "((_ zero_extend %d) ", t.w-t.a[0].w)
	case OSExt:
		fmt.Fprintf(sb, "((_ sign_extend %d) ", t.w-t.a[0].w)
	default:
		sb.WriteString("(" + opNames[t.op] + " ")
	}
	for i := 0; i < int(t.n); i++ {
		if i > 0 {
			sb.WriteByte(' ')
		}
		t.a[i].smt(sb, depthLets)
	}
	sb.WriteByte(')')
}

// smtAssert prints t with shared subterms bound by let.
func smtString(t *Term) string {
	// count references
	refs := map[int32]int{}
	order := []*Term{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if x.op == OConst || x.op == OVar {
			return
		}
		refs[x.id]++
		if refs[x.id] > 1 {
			return
		}
		for i := 0; i < int(x.n); i++ {
			walk(x.a[i])
		}
		order = append(order, x)
	}
	walk(t)
	lets := map[int32]string{}
	var sb strings.Builder
	closing := 0
	for _, x := range order {
		if x != t && refs[x.id] > 1 {
			var s2 strings.Builder
			x.smt(&s2, lets)
			n := fmt.Sprintf("l%d", x.id)
			sb.WriteString("(let ((" + n + " " + s2.String() + ")) ")
			lets[x.id] = n
			closing++
		}
	}
	t.smt(&sb, lets)
	for i := 0; i < closing; i++ {
		sb.WriteByte(')')
	}
	return sb.String()
}

var _ = bits.Len
