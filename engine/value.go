package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value = any
type structure []value
type array []value
type iface struct {
	t types.Type
	v value
}
type tuple []value

type sbyte struct {
	t *Term
	c byte
}

// symstr is a string with at least one symbolic byte; plain Go strings are used otherwise.
type symstr []sbyte

type closure struct {
	fn  *ssa.Function
	env []value
}
type native struct {
	name string
	fn   func(x *Exec, args []value) value
}
type boundMethodNative struct{}

type rtype struct{ t types.Type }

// symPtr is the address of an array/slice element at a symbolic index.
type symPtr struct {
	arr []value
	idx *Term
}

// slicePtr is the result of unsafe.SliceData / unsafe.StringData.
type slicePtr struct {
	s   []value
	str value
}

type mapEnt struct {
	k, v value
	del  bool
}
type gomap struct {
	kt   types.Type
	ents []*mapEnt
	idx  map[value]*mapEnt // only while all keys are concrete simple
	n    int
	sym  bool
}

type gochan struct {
	buf    []value
	cap    int
	closed bool
}

type strIter struct {
	s   value
	pos int
}
type mapIter struct {
	m    *gomap
	keys []*mapEnt
	pos  int
}

// intKind describes a basic integer type.
type intKind struct {
	w      uint8
	signed bool
}

type basicClass uint8

const (
	bcOther basicClass = iota
	bcBool
	bcInt
	bcFloat
	bcComplex
	bcString
	bcUnsafe
)

func classify(t types.Type) (basicClass, intKind) {
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		return bcOther, intKind{}
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return bcOther, intKind{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return bcBool, intKind{}
	case types.Int, types.Int64, types.UntypedInt:
		return bcInt, intKind{64, true}
	case types.Int8:
		return bcInt, intKind{8, true}
	case types.Int16:
		return bcInt, intKind{16, true}
	case types.Int32, types.UntypedRune:
		return bcInt, intKind{32, true}
	case types.Uint, types.Uint64, types.Uintptr:
		return bcInt, intKind{64, false}
	case types.Uint8:
		return bcInt, intKind{8, false}
	case types.Uint16:
		return bcInt, intKind{16, false}
	case types.Uint32:
		return bcInt, intKind{32, false}
	case types.Float32, types.Float64, types.UntypedFloat:
		return bcFloat, intKind{}
	case types.Complex64, types.Complex128, types.UntypedComplex:
		return bcComplex, intKind{}
	case types.String, types.UntypedString:
		return bcString, intKind{}
	case types.UnsafePointer:
		return bcUnsafe, intKind{}
	}
	return bcOther, intKind{}
}

func normInt(v uint64, k intKind) int64 {
	if k.w >= 64 {
		return int64(v)
	}
	v &= mask(k.w)
	if k.signed {
		return sx(v, k.w)
	}
	return int64(v)
}

func zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Basic:
		switch c, _ := classify(t); c {
		case bcBool:
			return false
		case bcInt:
			return int64(0)
		case bcFloat:
			return float64(0)
		case bcComplex:
			return complex128(0)
		case bcString:
			return ""
		case bcUnsafe:
			return (*value)(nil)
		}
		if t.Kind() == types.UntypedNil {
			return nil
		}
		panic(unsupported("zero of " + t.String()))
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Named:
		return zero(t.Underlying())
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return []value(nil)
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*gochan)(nil)
	case *types.Map:
		return (*gomap)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.TypeParam:
		panic(unsupported("zero of type param"))
	}
	panic(unsupported(fmt.Sprintf("zero of %T", t)))
}

func constValue(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	cl, k := classify(c.Type())
	switch cl {
	case bcBool:
		return constant.BoolVal(c.Value)
	case bcInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return normInt(uint64(i), k)
		}
		u, _ := constant.Uint64Val(v)
		return normInt(u, k)
	case bcFloat:
		f, _ := constant.Float64Val(c.Value)
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case bcComplex:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	case bcString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(constant.ToInt(c.Value))
		return string(rune(i))
	}
	panic(unsupported("const of type " + c.Type().String()))
}

// copyVal makes a copy of aggregate values (value semantics).
func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		n := make(structure, len(v))
		for i, e := range v {
			switch e.(type) {
			case structure, array:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	case array:
		n := make(array, len(v))
		for i, e := range v {
			switch e.(type) {
			case structure, array:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	}
	return v
}

func storeVal(p *value, v value) {
	switch v := v.(type) {
	case structure:
		if l, ok := (*p).(structure); ok && len(l) == len(v) {
			for i := range v {
				storeVal(&l[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case array:
		if l, ok := (*p).(array); ok && len(l) == len(v) {
			for i := range v {
				storeVal(&l[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// ---- strings ----

func strLen(v value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case symstr:
		return len(s)
	}
	panic(unsupported(fmt.Sprintf("strLen %T", v)))
}

func toSym(v value) symstr {
	switch s := v.(type) {
	case string:
		r := make(symstr, len(s))
		for i := 0; i < len(s); i++ {
			r[i].c = s[i]
		}
		return r
	case symstr:
		return s
	}
	panic(unsupported(fmt.Sprintf("toSym %T", v)))
}

func normStr(s symstr) value {
	for _, b := range s {
		if b.t != nil {
			return s
		}
	}
	var sb strings.Builder
	sb.Grow(len(s))
	for _, b := range s {
		sb.WriteByte(b.c)
	}
	return sb.String()
}

func strSlice(v value, lo, hi int) value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case symstr:
		return normStr(s[lo:hi])
	}
	panic("strSlice")
}

func strIndex(v value, i int) value {
	switch s := v.(type) {
	case string:
		return int64(s[i])
	case symstr:
		if s[i].t != nil {
			return s[i].t
		}
		return int64(s[i].c)
	}
	panic("strIndex")
}

func strConcat(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := toSym(a), toSym(b)
	r := make(symstr, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return r
}

func byteVal(v value) sbyte {
	switch b := v.(type) {
	case int64:
		return sbyte{c: byte(b)}
	case *Term:
		if b.op == OConst {
			return sbyte{c: byte(b.c)}
		}
		return sbyte{t: b}
	}
	panic(unsupported(fmt.Sprintf("byteVal %T", v)))
}

func bytesToStr(b []value) value {
	r := make(symstr, len(b))
	for i, e := range b {
		r[i] = byteVal(e)
	}
	return normStr(r)
}

func strToBytes(v value) []value {
	switch s := v.(type) {
	case string:
		r := make([]value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = int64(s[i])
		}
		return r
	case symstr:
		r := make([]value, len(s))
		for i, b := range s {
			if b.t != nil {
				r[i] = b.t
			} else {
				r[i] = int64(b.c)
			}
		}
		return r
	}
	panic("strToBytes")
}

// describe gives a short debug rendering of a value.
func describe(v value) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case iface:
		if v.t == nil {
			return "nil"
		}
		return fmt.Sprintf("(%s)%s", v.t, describe(v.v))
	case structure:
		var sb strings.Builder
		sb.WriteString("{")
		for i, e := range v {
			if i > 0 {
				sb.WriteString(", ")
			}
			sb.WriteString(describe(e))
		}
		sb.WriteString("}")
		return sb.String()
	case []value:
		var sb strings.Builder
		sb.WriteString("[")
		for i, e := range v {
			if i > 0 {
				sb.WriteString(", ")
			}
			sb.WriteString(describe(e))
		}
		sb.WriteString("]")
		return sb.String()
	case symstr:
		var sb strings.Builder
		for _, b := range v {
			if b.t != nil {
				sb.WriteString("·")
			} else {
				sb.WriteByte(b.c)
			}
		}
		return sb.String()
	case *value:
		if v == nil {
			return "nilptr"
		}
		return "&" + describe(*v)
	case *Term:
		return "<" + smtString(v) + ">"
	}
	return fmt.Sprint(v)
}
