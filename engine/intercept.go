package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type interceptFn func(x *Exec, fr *frame, fn *ssa.Function, args []value) (value, bool)

var intercepts map[string]interceptFn

const symPkg = "github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"

func redirectTo(target *ssa.Function) interceptFn {
	return func(x *Exec, fr *frame, fn *ssa.Function, args []value) (value, bool) {
		return x.callFn(fr, target, args, nil), true
	}
}

func noop(x *Exec, fr *frame, fn *ssa.Function, args []value) (value, bool) {
	return zeroResult(fn.Signature), true
}

func allConcrete(args []value) bool {
	for _, a := range args {
		switch v := a.(type) {
		case symstr, *Term:
			return false
		case []value:
			for _, e := range v {
				if _, ok := e.(*Term); ok {
					return false
				}
				if _, ok := e.(symstr); ok {
					return false
				}
			}
		}
	}
	return true
}

// conc wraps a native implementation used only when all arguments are concrete.
func conc(f func(x *Exec, a []value) value) interceptFn {
	return func(x *Exec, fr *frame, fn *ssa.Function, args []value) (value, bool) {
		if !allConcrete(args) {
			return nil, false
		}
		return f(x, args), true
	}
}

func concBytes(v value) []byte {
	s := v.([]value)
	b := make([]byte, len(s))
	for i, e := range s {
		b[i] = byte(e.(int64))
	}
	return b
}

func errIface(x *Exec, msg string) value { return x.eng.plainError(msg) }

func strSliceVal(ss []string) value {
	if ss == nil {
		return []value(nil)
	}
	r := make([]value, len(ss))
	for i, s := range ss {
		r[i] = s
	}
	return r
}

func (x *Exec) asciiAll(s value) (symstr, bool) {
	ss := toSym(s)
	c := x.ctx.tTrue
	for _, b := range ss {
		if b.t == nil {
			if b.c >= 0x80 {
				return ss, false
			}
			continue
		}
		c = x.ctx.And(c, x.ctx.Bin(OUlt, b.t, x.ctx.Const(0x80, 8)))
	}
	return ss, x.branch(c)
}

func (x *Exec) caseMap(s value, upper bool) (value, bool) {
	if cs, ok := s.(string); ok {
		if upper {
			return strings.ToUpper(cs), true
		}
		return strings.ToLower(cs), true
	}
	ss, ok := x.asciiAll(s)
	if !ok {
		return nil, false
	}
	out := make(symstr, len(ss))
	for i, b := range ss {
		out[i] = x.caseByte(b, upper)
	}
	return normStr(out), true
}

func (x *Exec) caseByte(b sbyte, upper bool) sbyte {
	lo, hi, add := byte('a'), byte('z'), uint64(0xE0) // -32
	if !upper {
		lo, hi, add = 'A', 'Z', 32
	}
	if b.t == nil {
		if b.c >= lo && b.c <= hi {
			return sbyte{c: b.c + byte(add)}
		}
		return b
	}
	c := x.ctx
	in := c.And(c.Bin(OUle, c.Const(uint64(lo), 8), b.t), c.Bin(OUle, b.t, c.Const(uint64(hi), 8)))
	return sb(c.Ite(in, c.Bin(OAdd, b.t, c.Const(add, 8)), b.t))
}

// selByte is the p-th byte of words[t], blank beyond the end of a word.
func (x *Exec) selByte(t *Term, words []string, p int) *Term {
	c := x.ctx
	at := func(i int) byte {
		if p < len(words[i]) {
			return words[i][p]
		}
		return ' '
	}
	res := c.Const(uint64(at(len(words)-1)), 8)
	for i := len(words) - 2; i >= 0; i-- {
		res = c.Ite(c.Eq(t, c.Const(uint64(i), 8)), c.Const(uint64(at(i)), 8), res)
	}
	return res
}

func init() {
	I := map[string]interceptFn{}
	intercepts = I

	// ---- harness primitives ----
	S := func(n string, f func(x *Exec, a []value) value) {
		I[symPkg+"."+n] = func(x *Exec, fr *frame, fn *ssa.Function, args []value) (value, bool) {
			return f(x, args), true
		}
	}
	S("Byte", func(x *Exec, a []value) value {
		return x.newInput(a[0].(string), 8)
	})
	S("ByteIn", func(x *Exec, a []value) value {
		t := x.newInput(a[0].(string), 8)
		x.restrict(t, a[1].(string))
		return t
	})
	S("Bool", func(x *Exec, a []value) value {
		t := x.newInput(a[0].(string), 8)
		x.restrictSet(t, func(i int) bool { return i < 2 })
		return x.wrapBool(x.ctx.Eq(t, x.ctx.Const(1, 8)))
	})
	S("Choice", func(x *Exec, a []value) value {
		return int64(x.choose(a[0].(string), int(a[1].(int64))))
	})
	S("Int", func(x *Exec, a []value) value {
		lo, hi := a[1].(int64), a[2].(int64)
		t := x.newInput(a[0].(string), 64)
		vi := int32(t.c)
		if v := int64(x.model.vals[vi]); v < lo || v > hi {
			x.model.vals[vi] = uint64(lo)
			x.ev = newEvaluator(x.model)
		}
		x.addPC(x.ctx.Bin(OSle, x.ctx.Const(uint64(lo), 64), t))
		x.addPC(x.ctx.Bin(OSle, t, x.ctx.Const(uint64(hi), 64)))
		return t
	})
	S("Bytes", func(x *Exec, a []value) value { // string of n symbolic bytes over an alphabet ("" = any)
		n := int(a[1].(int64))
		alpha := a[2].(string)
		out := make(symstr, n)
		for i := 0; i < n; i++ {
			t := x.newInput(a[0].(string)+"."+strconv.Itoa(i), 8)
			if alpha != "" {
				x.restrict(t, alpha)
			}
			out[i] = sb(t)
		}
		return normStr(out)
	})
	S("Assume", func(x *Exec, a []value) value { x.assume(a[0]); return nil })
	S("Assert", func(x *Exec, a []value) value { x.assertTrue(a[0], x.modelStr(a[1])); return nil })
	S("Known", func(x *Exec, a []value) value {
		if x.eng.known[a[0].(string)] {
			x.assume(x.not(a[1]))
		}
		return nil
	})
	S("Tier", func(x *Exec, a []value) value { return int64(x.eng.tier) })
	S("Fail", func(x *Exec, a []value) value { x.assertTrue(false, x.modelStr(a[0])); return nil })
	S("Stop", func(x *Exec, a []value) value { panic(pathAbort{abStop, ""}) })
	S("Reach", func(x *Exec, a []value) value { x.reached[a[0].(string)] = true; return nil })
	S("Observe", func(x *Exec, a []value) value {
		x.observed = append(x.observed, obs{a[0].(string), a[1], true})
		return nil
	})
	S("ObserveInt", func(x *Exec, a []value) value {
		x.observed = append(x.observed, obs{a[0].(string), a[1], false})
		return nil
	})
	S("MapOrder", func(x *Exec, a []value) value { x.mapOrder = a[0].(bool); return nil })
	S("Symbolic", func(x *Exec, a []value) value { return true })
	S("Eq", func(x *Exec, a []value) value { return x.strEq(a[0], a[1]) })
	S("And", func(x *Exec, a []value) value { return x.and(a[0], a[1]) })
	S("Or", func(x *Exec, a []value) value { return x.or(a[0], a[1]) })
	S("Not", func(x *Exec, a []value) value { return x.not(a[0]) })
	S("EqFold", func(x *Exec, a []value) value { // ASCII case-insensitive equality without forking
		p, q := toSym(a[0]), toSym(a[1])
		if len(p) != len(q) {
			return false
		}
		r := x.ctx.tTrue
		for i := range p {
			u, v := x.caseByte(p[i], true), x.caseByte(q[i], true)
			r = x.ctx.And(r, x.ctx.Eq(x.sbTerm(u), x.sbTerm(v)))
		}
		return x.wrapBool(r)
	})
	S("IteStr", func(x *Exec, a []value) value {
		c, ok := a[0].(*Term)
		if !ok {
			if a[0].(bool) {
				return a[1]
			}
			return a[2]
		}
		v, ok := x.iteVal(c, a[1], a[2], intKind{})
		if !ok {
			if x.branch(c) {
				return a[1]
			}
			return a[2]
		}
		return v
	})
	// CaseVar returns s with every ASCII letter in a symbolically chosen letter case.
	S("CaseVar", func(x *Exec, a []value) value {
		ss := toSym(a[1])
		out := make(symstr, len(ss))
		for i, b := range ss {
			if b.t != nil || !(b.c >= 'a' && b.c <= 'z' || b.c >= 'A' && b.c <= 'Z') {
				out[i] = b
				continue
			}
			t := x.newInput(a[0].(string)+"."+strconv.Itoa(i), 8)
			u, l := b.c&^0x20, b.c|0x20
			x.restrictSet(t, func(k int) bool { return k == int(u) || k == int(l) })
			out[i] = sb(t)
		}
		return normStr(out)
	})
	// Word is one of the words, padded with blanks to the longest, chosen by one symbolic byte.
	S("Word", func(x *Exec, a []value) value {
		ws := a[1].([]value)
		t := x.newInput(a[0].(string), 8)
		x.restrictSet(t, func(i int) bool { return i < len(ws) })
		w := 0
		words := make([]string, len(ws))
		for i := range ws {
			words[i] = ws[i].(string)
			if len(words[i]) > w {
				w = len(words[i])
			}
		}
		out := make(symstr, w)
		for p := 0; p < w; p++ {
			out[p] = sb(x.selByte(t, words, p))
		}
		return normStr(out)
	})
	// Pin forces a concrete value (forking over all possibilities).
	S("Pin", func(x *Exec, a []value) value { return x.concStr(a[0]) })

	// ---- strings ----
	I["strings.ToUpper"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) { return x.caseMap(a[0], true) }
	I["strings.ToLower"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) { return x.caseMap(a[0], false) }
	I["strings.EqualFold"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		if allConcrete(a) {
			return strings.EqualFold(a[0].(string), a[1].(string)), true
		}
		_, ok1 := x.asciiAll(a[0])
		_, ok2 := x.asciiAll(a[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		u, _ := x.caseMap(a[0], true)
		v, _ := x.caseMap(a[1], true)
		return x.strEq(u, v), true
	}
	I["strings.HasPrefix"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		n := strLen(a[1])
		if strLen(a[0]) < n {
			return false, true
		}
		return x.strEq(strSlice(a[0], 0, n), a[1]), true
	}
	I["strings.HasSuffix"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		n, l := strLen(a[1]), strLen(a[0])
		if l < n {
			return false, true
		}
		return x.strEq(strSlice(a[0], l-n, l), a[1]), true
	}
	ss2i := func(f func(a, b string) int) interceptFn {
		return conc(func(x *Exec, a []value) value { return int64(f(a[0].(string), a[1].(string))) })
	}
	idx := func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		if allConcrete(a) {
			return int64(strings.Index(a[0].(string), a[1].(string))), true
		}
		n, m := strLen(a[0]), strLen(a[1])
		for i := 0; i+m <= n; i++ {
			if x.concBool(x.strEq(strSlice(a[0], i, i+m), a[1])) {
				return int64(i), true
			}
		}
		return int64(-1), true
	}
	I["strings.Index"] = idx
	I["internal/stringslite.Index"] = idx
	I["strings.LastIndex"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		n, m := strLen(a[0]), strLen(a[1])
		for i := n - m; i >= 0; i-- {
			if x.concBool(x.strEq(strSlice(a[0], i, i+m), a[1])) {
				return int64(i), true
			}
		}
		return int64(-1), true
	}
	I["strings.Contains"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		// one solver term, no forking
		n, m := strLen(a[0]), strLen(a[1])
		var r value = false
		for i := 0; i+m <= n; i++ {
			r = x.or(r, x.strEq(strSlice(a[0], i, i+m), a[1]))
			if r == true {
				return true, true
			}
		}
		return r, true
	}
	count := func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		n, m := strLen(a[0]), strLen(a[1])
		if m == 0 {
			return nil, false
		}
		if allConcrete(a) {
			return int64(strings.Count(a[0].(string), a[1].(string))), true
		}
		c := int64(0)
		for i := 0; i+m <= n; {
			if x.concBool(x.strEq(strSlice(a[0], i, i+m), a[1])) {
				c++
				i += m
			} else {
				i++
			}
		}
		return c, true
	}
	I["strings.Count"] = count
	idxByte := func(x *Exec, s value, b value) value {
		n := strLen(s)
		for i := 0; i < n; i++ {
			if x.concBool(x.eq(types.Typ[types.Uint8], strIndex(s, i), b)) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	ib := func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return idxByte(x, a[0], a[1]), true
	}
	I["strings.IndexByte"] = ib
	I["internal/stringslite.IndexByte"] = ib
	I["internal/bytealg.IndexByteString"] = ib
	I["internal/bytealg.IndexByte"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return idxByte(x, bytesToStr(a[0].([]value)), a[1]), true
	}
	I["internal/bytealg.IndexString"] = idx
	I["internal/bytealg.Index"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return idx(x, fr, fn, []value{bytesToStr(a[0].([]value)), bytesToStr(a[1].([]value))})
	}
	I["bytes.Index"] = I["internal/bytealg.Index"]
	lastB := func(x *Exec, s value, b value) value {
		for i := strLen(s) - 1; i >= 0; i-- {
			if x.concBool(x.eq(types.Typ[types.Uint8], strIndex(s, i), b)) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	I["internal/bytealg.LastIndexByteString"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return lastB(x, a[0], a[1]), true
	}
	I["internal/bytealg.LastIndexByte"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return lastB(x, bytesToStr(a[0].([]value)), a[1]), true
	}
	cntB := func(x *Exec, s value, b value) value {
		c := int64(0)
		for i := 0; i < strLen(s); i++ {
			if x.concBool(x.eq(types.Typ[types.Uint8], strIndex(s, i), b)) {
				c++
			}
		}
		return c
	}
	I["internal/bytealg.CountString"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return cntB(x, a[0], a[1]), true
	}
	I["internal/bytealg.Count"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return cntB(x, bytesToStr(a[0].([]value)), a[1]), true
	}
	I["internal/bytealg.Equal"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return x.strEq(bytesToStr(a[0].([]value)), bytesToStr(a[1].([]value))), true
	}
	I["bytes.Equal"] = I["internal/bytealg.Equal"]
	cmp := func(x *Exec, p, q value) value {
		if x.concBool(x.strEq(p, q)) {
			return int64(0)
		}
		if x.concBool(x.strLess(p, q)) {
			return int64(-1)
		}
		return int64(1)
	}
	cmpS := func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) { return cmp(x, a[0], a[1]), true }
	I["strings.Compare"] = cmpS
	I["internal/bytealg.CompareString"] = cmpS
	I["runtime.cmpstring"] = cmpS
	I["internal/bytealg.Compare"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return cmp(x, bytesToStr(a[0].([]value)), bytesToStr(a[1].([]value))), true
	}
	I["internal/bytealg.MakeNoZero"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		n := int(a[0].(int64))
		s := make([]value, n)
		for i := range s {
			s[i] = int64(0)
		}
		return s, true
	}
	I["strings.Repeat"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		n, ok := a[1].(int64)
		if !ok || n < 0 || n > 100000 {
			return nil, false
		}
		var r value = ""
		for i := int64(0); i < n; i++ {
			r = strConcat(r, a[0])
		}
		return r, true
	}
	I["strings.Join"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		el := a[0].([]value)
		if allConcrete(a) {
			ss := make([]string, len(el))
			for i, e := range el {
				ss[i] = e.(string)
			}
			return strings.Join(ss, a[1].(string)), true
		}
		var out symstr
		sep := toSym(a[1])
		for i, e := range el {
			if i > 0 {
				out = append(out, sep...)
			}
			out = append(out, toSym(e)...)
		}
		return normStr(out), true
	}
	I["strings.Split"] = conc(func(x *Exec, a []value) value {
		return strSliceVal(strings.Split(a[0].(string), a[1].(string)))
	})
	I["strings.TrimSpace"] = conc(func(x *Exec, a []value) value { return strings.TrimSpace(a[0].(string)) })
	I["strings.Fields"] = conc(func(x *Exec, a []value) value { return strSliceVal(strings.Fields(a[0].(string))) })
	I["strings.ReplaceAll"] = conc(func(x *Exec, a []value) value {
		return strings.ReplaceAll(a[0].(string), a[1].(string), a[2].(string))
	})
	I["strings.IndexAny"] = ss2i(strings.IndexAny)
	I["strings.Clone"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) { return a[0], true }
	I["internal/stringslite.Clone"] = I["strings.Clone"]

	// strings.Builder: field 1 holds the bytes
	bld := func(n string, f func(x *Exec, buf *value, a []value) value) {
		I["(*strings.Builder)."+n] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			p := a[0].(*value)
			if p == nil {
				x.throw("invalid memory address or nil pointer dereference")
			}
			st := (*p).(structure)
			return f(x, &st[1], a[1:]), true
		}
	}
	// The buffer slot is used to hold an immutable string value while only intercepted methods touch it.
	cur := func(b *value) value {
		switch v := (*b).(type) {
		case []value:
			return bytesToStr(v)
		}
		return *b
	}
	bld("String", func(x *Exec, b *value, a []value) value { return cur(b) })
	bld("Len", func(x *Exec, b *value, a []value) value { return int64(strLen(cur(b))) })
	bld("Cap", func(x *Exec, b *value, a []value) value { return int64(strLen(cur(b))) })
	bld("Reset", func(x *Exec, b *value, a []value) value { *b = []value(nil); return nil })
	bld("Grow", func(x *Exec, b *value, a []value) value { return nil })
	bld("WriteString", func(x *Exec, b *value, a []value) value {
		*b = strConcat(cur(b), a[0])
		return tuple{int64(strLen(a[0])), iface{}}
	})
	bld("Write", func(x *Exec, b *value, a []value) value {
		s := a[0].([]value)
		*b = strConcat(cur(b), bytesToStr(s))
		return tuple{int64(len(s)), iface{}}
	})
	bld("WriteByte", func(x *Exec, b *value, a []value) value {
		*b = strConcat(cur(b), normStr(symstr{byteVal(a[0])}))
		return iface{}
	})
	bld("WriteRune", func(x *Exec, b *value, a []value) value {
		s := x.runeToStr(a[0], intKind{32, true})
		*b = strConcat(cur(b), s)
		return tuple{int64(strLen(s)), iface{}}
	})

	// ---- strconv / utf8: native when concrete ----
	I["strconv.Itoa"] = conc(func(x *Exec, a []value) value { return strconv.Itoa(int(a[0].(int64))) })
	I["strconv.Quote"] = conc(func(x *Exec, a []value) value { return strconv.Quote(a[0].(string)) })
	I["unicode/utf8.RuneCountInString"] = conc(func(x *Exec, a []value) value { return int64(utf8.RuneCountInString(a[0].(string))) })
	I["unicode/utf8.ValidString"] = conc(func(x *Exec, a []value) value { return utf8.ValidString(a[0].(string)) })

	// ---- runtime ----
	I["runtime.Caller"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return tuple{int64(0), "/src/file.go", int64(1), true}, true
	}
	I["runtime.Callers"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) { return int64(0), true }
	I["runtime.GC"] = noop
	I["runtime.KeepAlive"] = noop
	I["runtime.SetFinalizer"] = noop
	I["runtime.NumGoroutine"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) { return int64(1), true }
	I["runtime.Gosched"] = noop

	// ---- logging has no observable effect on the properties ----
	for _, n := range []string{"Print", "Printf", "Println", "Output", "output"} {
		I["(*log.Logger)."+n] = noop
		I["log."+n] = noop
		I["(*github.com/kunitsucom/ddlctl/pkg/logs.DefaultLogger)."+n] = noop
	}

	// ---- sync ----
	for _, n := range []string{
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done",
		"(*sync.WaitGroup).Wait", "(*sync.Pool).Put", "internal/race.Acquire", "internal/race.Release",
		"internal/race.Disable", "internal/race.Enable", "internal/race.ReadRange", "internal/race.WriteRange",
		"(*sync.noCopy).Lock",
	} {
		I[n] = noop
	}
	I["(*sync.Mutex).TryLock"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) { return true, true }
	I["(*sync.Once).Do"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		st := (*a[0].(*value)).(structure)
		// mark with a Go bool in the first field slot that is otherwise an atomic structure
		if b, ok := st[0].(onceDone); ok && bool(b) {
			return nil, true
		}
		st[0] = onceDone(true)
		x.call(fr, a[1], nil)
		return nil, true
	}
	I["(*sync.Pool).Get"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		st := (*a[0].(*value)).(structure)
		nf := st[len(st)-1]
		if isNilFn(nf) {
			return iface{}, true
		}
		return x.call(fr, nf, nil), true
	}
	regAtomics(I)
	regErrors(I)
	regReflect(I)
	regFmt(I)
	regOS(I)

	I["sort.Slice"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) { return sortSlice(x, fr, a, false) }
	I["sort.SliceStable"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) { return sortSlice(x, fr, a, true) }
	I["internal/reflectlite.Swapper"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return swapper(a[0].(iface).v.([]value)), true
	}
	I["reflect.Swapper"] = I["internal/reflectlite.Swapper"]
}

type onceDone bool

func swapper(s []value) *native {
	return &native{name: "swap", fn: func(x *Exec, a []value) value {
		i, j := a[0].(int64), a[1].(int64)
		s[i], s[j] = s[j], s[i]
		return nil
	}}
}

// sortSlice runs the real sorting code over an intrinsic swap.
func sortSlice(x *Exec, fr *frame, a []value, stable bool) (value, bool) {
	s, ok := a[0].(iface).v.([]value)
	if !ok {
		panic(unsupported("sort.Slice of non-slice"))
	}
	ls := structure{a[1], value(swapper(s))}
	n := len(s)
	if stable {
		f := x.eng.lookupFunc("sort", "stable_func")
		x.callFn(fr, f, []value{ls, int64(n)}, nil)
		return nil, true
	}
	f := x.eng.lookupFunc("sort", "pdqsort_func")
	limit := 0
	for m := n; m > 0; m >>= 1 {
		limit++
	}
	x.callFn(fr, f, []value{ls, int64(0), int64(n), int64(limit)}, nil)
	return nil, true
}

func (x *Exec) restrict(t *Term, alpha string) {
	var d dom
	for i := 0; i < len(alpha); i++ {
		d.set(int(alpha[i]))
	}
	x.restrictDom(t, &d)
}
func (x *Exec) restrictSet(t *Term, f func(int) bool) {
	var d dom
	for i := 0; i < 256; i++ {
		if f(i) {
			d.set(i)
		}
	}
	x.restrictDom(t, &d)
}
func (x *Exec) restrictDom(t *Term, d *dom) {
	v := int32(t.c)
	nd := x.domOf(v).and(d)
	if nd.empty() {
		panic(pathAbort{abAssume, "empty domain"})
	}
	x.doms[v] = &nd
	if !nd.has(int(x.model.vals[v])) {
		x.model.vals[v] = uint64(nd.first())
		x.ev = newEvaluator(x.model)
	}
}

func regAtomics(I map[string]interceptFn) {
	load := func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return copyVal(*a[0].(*value)), true
	}
	store := func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		storeVal(a[0].(*value), a[1])
		return nil, true
	}
	add := func(k intKind) interceptFn {
		return func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			p := a[0].(*value)
			n := normInt(uint64((*p).(int64)+a[1].(int64)), k)
			*p = n
			return n, true
		}
	}
	swap := func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		p := a[0].(*value)
		o := *p
		*p = a[1]
		return o, true
	}
	cas := func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		p := a[0].(*value)
		if x.concBool(x.eq(nil, *p, a[1])) {
			*p = a[2]
			return true, true
		}
		return false, true
	}
	for _, t := range []struct {
		n string
		k intKind
	}{{"Int32", intKind{32, true}}, {"Int64", intKind{64, true}}, {"Uint32", intKind{32, false}}, {"Uint64", intKind{64, false}}, {"Uintptr", intKind{64, false}}, {"Pointer", intKind{}}} {
		for _, pfx := range []string{"sync/atomic."} {
			I[pfx+"Load"+t.n] = load
			I[pfx+"Store"+t.n] = store
			I[pfx+"Swap"+t.n] = swap
			I[pfx+"CompareAndSwap"+t.n] = cas
			if t.k.w != 0 {
				I[pfx+"Add"+t.n] = add(t.k)
			}
		}
	}
	// atomic.Value
	I["(*sync/atomic.Value).Load"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return (*a[0].(*value)).(structure)[0], true
	}
	I["(*sync/atomic.Value).Store"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		(*a[0].(*value)).(structure)[0] = a[1]
		return nil, true
	}
}

func (x *Exec) callMethodByName(fr *frame, v iface, name string, args ...value) (value, bool) {
	x.eng.progMu.Lock()
	ms := x.eng.prog.MethodSets.MethodSet(v.t)
	sel := ms.Lookup(nil, name)
	var f *ssa.Function
	if sel != nil {
		f = x.eng.prog.MethodValue(sel)
	}
	x.eng.progMu.Unlock()
	if f == nil {
		return nil, false
	}
	return x.callFn(fr, f, append([]value{copyArg(v.v)}, args...), nil), true
}

func (x *Exec) hasMethod(t types.Type, name string) *types.Func {
	if t == nil {
		return nil
	}
	x.eng.progMu.Lock()
	defer x.eng.progMu.Unlock()
	sel := x.eng.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	f, _ := sel.Obj().(*types.Func)
	return f
}

func regErrors(I map[string]interceptFn) {
	var is func(x *Exec, fr *frame, e, target iface) bool
	is = func(x *Exec, fr *frame, e, target iface) bool {
		for {
			if e.t == nil {
				return target.t == nil
			}
			if target.t != nil && types.Identical(e.t, target.t) && types.Comparable(e.t) {
				if x.concBool(x.eq(nil, e, target)) {
					return true
				}
			}
			if m := x.hasMethod(e.t, "Is"); m != nil {
				if sig := m.Type().(*types.Signature); sig.Params().Len() == 1 {
					r, _ := x.callMethodByName(fr, e, "Is", target)
					if x.concBool(r) {
						return true
					}
				}
			}
			m := x.hasMethod(e.t, "Unwrap")
			if m == nil {
				return false
			}
			r, _ := x.callMethodByName(fr, e, "Unwrap")
			switch u := r.(type) {
			case iface:
				if u.t == nil {
					return false
				}
				e = u
			case []value:
				for _, w := range u {
					if is(x, fr, w.(iface), target) {
						return true
					}
				}
				return false
			default:
				return false
			}
		}
	}
	I["errors.Is"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		e, t := a[0].(iface), a[1].(iface)
		if e.t == nil || t.t == nil {
			return e.t == nil && t.t == nil, true
		}
		return is(x, fr, e, t), true
	}
	var as func(x *Exec, fr *frame, e iface, tt types.Type, p *value) bool
	as = func(x *Exec, fr *frame, e iface, tt types.Type, p *value) bool {
		for e.t != nil {
			if it, ok := tt.Underlying().(*types.Interface); ok {
				if types.Implements(e.t, it) {
					*p = e
					return true
				}
			} else if types.Identical(e.t, tt) {
				storeVal(p, e.v)
				return true
			}
			if m := x.hasMethod(e.t, "Unwrap"); m == nil {
				return false
			}
			r, _ := x.callMethodByName(fr, e, "Unwrap")
			switch u := r.(type) {
			case iface:
				e = u
			case []value:
				for _, w := range u {
					if as(x, fr, w.(iface), tt, p) {
						return true
					}
				}
				return false
			default:
				return false
			}
		}
		return false
	}
	I["errors.As"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		t := a[1].(iface)
		pt, ok := t.t.Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported("errors.As target"))
		}
		return as(x, fr, a[0].(iface), pt.Elem(), t.v.(*value)), true
	}
}

func regOS(I map[string]interceptFn) {
	I["os.runtime_args"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) { return []value{"prog"}, true }
	I["os.Getenv"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) { return "", true }
	I["os.LookupEnv"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) { return tuple{"", false}, true }
	I["time.Now"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return zeroResult(fn.Signature), true
	}
	I["time.Sleep"] = noop
	ready := func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		et := fn.Signature.Results().At(0).Type().Underlying().(*types.Chan).Elem()
		return &gochan{cap: 1, buf: []value{zero(et)}}, true
	}
	I["go/ast.Fprint"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) { return iface{}, true }
	I["time.After"] = ready
	for _, p := range []string{"math/rand", "math/rand/v2"} {
		I[p+".Int63n"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) { return int64(0), true }
	}
	I["(*encoding/json.Encoder).Encode"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) { return iface{}, true }
	I["encoding/json.NewEncoder"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return zeroResult(fn.Signature), true
	}
	I["github.com/kunitsucom/util.go/database/sql.ScanRows"] = scanRows
	I["(*github.com/kunitsucom/util.go/errors.wrapError).Error"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		s := (*a[0].(*value)).(structure)
		e := s[1].(iface)
		if e.t == nil {
			return s[0], true
		}
		m, _ := x.callMethodByName(fr, e, "Error")
		return strConcat(strConcat(s[0], ": "), m), true
	}
	I["(*os.File).WriteString"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return tuple{int64(strLen(a[1])), iface{}}, true
	}
}

var _ = fmt.Sprint

// scanRows is ScanRows of util.go without reflection: dst is *[]T, *[]*T or *T with T a
// struct whose fields are matched by their tag.
func scanRows(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
	rows, dst := a[0].(iface), a[2].(iface)
	tag, ok := a[1].(string)
	if !ok {
		panic(unsupported("ScanRows: tag"))
	}
	call := func(m string, args ...value) value {
		v, ok := x.callMethodByName(fr, rows, m, args...)
		if !ok {
			panic(unsupported("ScanRows: no method " + m))
		}
		return v
	}
	pt, ok := dst.t.Underlying().(*types.Pointer)
	if !ok {
		panic(unsupported("ScanRows: " + dst.t.String()))
	}
	p := dst.v.(*value)
	elem := pt.Elem()
	isSlice, isPtr := false, false
	if s, ok := elem.Underlying().(*types.Slice); ok {
		isSlice = true
		elem = s.Elem()
		if q, ok := elem.Underlying().(*types.Pointer); ok {
			isPtr = true
			elem = q.Elem()
		}
	}
	st, ok := elem.Underlying().(*types.Struct)
	if !ok {
		panic(unsupported("ScanRows: " + dst.t.String()))
	}
	isErr := func(v value) bool { return v.(iface).t != nil }
	next := func() bool {
		switch v := call("Next").(type) {
		case bool:
			return v
		case *Term:
			return x.branch(v)
		}
		panic(unsupported("ScanRows: Next"))
	}
	scan := func(cols []value, into *value) value {
		dests := make([]value, len(cols))
		for i, c := range cols {
			dests[i] = iface{}
			name, ok := c.(string)
			if !ok {
				panic(unsupported("ScanRows: column name"))
			}
			s := (*into).(structure)
			for j := 0; j < st.NumFields(); j++ {
				if strings.Split(reflect.StructTag(st.Tag(j)).Get(tag), ",")[0] == name {
					dests[i] = iface{t: types.NewPointer(st.Field(j).Type()), v: &s[j]}
				}
			}
		}
		return call("Scan", dests)
	}
	columns := func() ([]value, value) {
		t := call("Columns").(tuple)
		c, _ := t[0].([]value)
		return c, t[1]
	}
	if !isSlice {
		if !next() {
			if e := call("Err"); isErr(e) {
				return e, true
			}
			return *x.globalAddr(x.eng.prog.ImportedPackage("database/sql").Var("ErrNoRows")), true
		}
		cols, e := columns()
		if isErr(e) {
			return e, true
		}
		return scan(cols, p), true
	}
	cols, e := columns()
	if isErr(e) {
		return e, true
	}
	out, _ := (*p).([]value)
	out = append([]value(nil), out...)
	if out == nil && (*p).([]value) != nil {
		out = []value{}
	}
	for next() {
		v := zero(elem)
		if e := scan(cols, &v); isErr(e) {
			return e, true
		}
		if isPtr {
			out = append(out, &v)
		} else {
			out = append(out, v)
		}
	}
	if e := call("Err"); isErr(e) {
		return e, true
	}
	*p = out
	return iface{}, true
}
