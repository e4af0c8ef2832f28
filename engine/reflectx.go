package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rtypeMethod implements the reflect.Type methods used by the code under test.
func (x *Exec) rtypeMethod(r rtype, name string, args []value) value {
	switch name {
	case "String":
		return x.typeString(r.t)
	case "Name":
		if n, ok := types.Unalias(r.t).(*types.Named); ok {
			return n.Obj().Name()
		}
		if b, ok := r.t.(*types.Basic); ok {
			return b.Name()
		}
		return ""
	case "PkgPath":
		if n, ok := types.Unalias(r.t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Kind":
		return int64(kindOf(r.t))
	case "Elem":
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			return x.eng.rtypeIface(u.Elem())
		case *types.Slice:
			return x.eng.rtypeIface(u.Elem())
		case *types.Array:
			return x.eng.rtypeIface(u.Elem())
		case *types.Map:
			return x.eng.rtypeIface(u.Elem())
		}
	case "NumField":
		if s, ok := r.t.Underlying().(*types.Struct); ok {
			return int64(s.NumFields())
		}
	case "Comparable":
		return types.Comparable(r.t)
	case "Implements":
		if o, ok := args[0].(iface).v.(rtype); ok {
			if it, ok := o.t.Underlying().(*types.Interface); ok {
				return types.Implements(r.t, it)
			}
		}
	case "AssignableTo":
		if o, ok := args[0].(iface).v.(rtype); ok {
			return types.AssignableTo(r.t, o.t)
		}
	}
	panic(unsupported("reflect.Type." + name))
}

func kindOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (x *Exec) typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

type visitPair struct{ a, b *value }

func (x *Exec) deepEqual(a, b value, t types.Type, seen map[visitPair]bool) value {
	switch av := a.(type) {
	case iface:
		bv := b.(iface)
		if av.t == nil || bv.t == nil {
			return av.t == nil && bv.t == nil
		}
		if !types.Identical(av.t, bv.t) {
			return false
		}
		return x.deepEqual(av.v, bv.v, av.t, seen)
	case *value:
		bv, ok := b.(*value)
		if !ok {
			return false
		}
		if av == bv {
			return true
		}
		if av == nil || bv == nil {
			return false
		}
		k := visitPair{av, bv}
		if seen[k] {
			return true
		}
		seen[k] = true
		return x.deepEqual(*av, *bv, nil, seen)
	case structure:
		bv := b.(structure)
		var r value = true
		for i := range av {
			r = x.and(r, x.deepEqual(av[i], bv[i], nil, seen))
			if r == false {
				return false
			}
		}
		return r
	case array:
		bv := b.(array)
		var r value = true
		for i := range av {
			r = x.and(r, x.deepEqual(av[i], bv[i], nil, seen))
			if r == false {
				return false
			}
		}
		return r
	case []value:
		bv := b.([]value)
		if (av == nil) != (bv == nil) || len(av) != len(bv) {
			return false
		}
		var r value = true
		for i := range av {
			r = x.and(r, x.deepEqual(av[i], bv[i], nil, seen))
			if r == false {
				return false
			}
		}
		return r
	case *gomap:
		bv := b.(*gomap)
		if av == bv {
			return true
		}
		if av == nil || bv == nil || av.n != bv.n {
			return false
		}
		var r value = true
		for _, e := range av.ents {
			if e.del {
				continue
			}
			o := x.mapGet(bv, e.k)
			if o == nil {
				return false
			}
			r = x.and(r, x.deepEqual(e.v, o.v, nil, seen))
			if r == false {
				return false
			}
		}
		return r
	case *ssa.Function, *closure, *native:
		return isNilFn(a) && isNilFn(b)
	}
	return x.eq(t, a, b)
}

func regReflect(I map[string]interceptFn) {
	I["reflect.TypeOf"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		v := a[0].(iface)
		if v.t == nil {
			return iface{}, true
		}
		return x.eng.rtypeIface(v.t), true
	}
	I["internal/reflectlite.TypeOf"] = I["reflect.TypeOf"]
	I["reflect.DeepEqual"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return x.deepEqual(a[0], a[1], nil, map[visitPair]bool{}), true
	}
	// A reflect.Value is represented as a structure whose first slot carries the wrapped iface.
	I["reflect.ValueOf"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		z := zeroResult(fn.Signature).(structure)
		z[0] = rvalue{v: a[0].(iface)}
		return z, true
	}
	rv := func(v value) rvalue {
		if r, ok := v.(structure)[0].(rvalue); ok {
			return r
		}
		return rvalue{}
	}
	mk := func(x *Exec, fn *ssa.Function, proto structure, r rvalue) value {
		z := make(structure, len(proto))
		copy(z, proto)
		z[0] = r
		return z
	}
	R := func(n string, f func(x *Exec, fr *frame, fn *ssa.Function, r rvalue, a []value) value) {
		I["(reflect.Value)."+n] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			return f(x, fr, fn, rv(a[0]), a), true
		}
	}
	R("Kind", func(x *Exec, fr *frame, fn *ssa.Function, r rvalue, a []value) value {
		if r.v.t == nil {
			return int64(0)
		}
		return int64(kindOf(r.v.t))
	})
	R("IsValid", func(x *Exec, fr *frame, fn *ssa.Function, r rvalue, a []value) value { return r.v.t != nil })
	R("Type", func(x *Exec, fr *frame, fn *ssa.Function, r rvalue, a []value) value { return x.eng.rtypeIface(r.v.t) })
	R("Interface", func(x *Exec, fr *frame, fn *ssa.Function, r rvalue, a []value) value { return r.v })
	R("IsNil", func(x *Exec, fr *frame, fn *ssa.Function, r rvalue, a []value) value {
		switch v := r.v.v.(type) {
		case *value:
			return v == nil
		case []value:
			return v == nil
		case *gomap:
			return v == nil
		case *ssa.Function:
			return v == nil
		case iface:
			return v.t == nil
		}
		return false
	})
	R("Len", func(x *Exec, fr *frame, fn *ssa.Function, r rvalue, a []value) value {
		switch v := r.v.v.(type) {
		case []value:
			return int64(len(v))
		case array:
			return int64(len(v))
		case string, symstr:
			return int64(strLen(v))
		case *gomap:
			return int64(v.n)
		}
		panic(unsupported("reflect.Value.Len"))
	})
	R("String", func(x *Exec, fr *frame, fn *ssa.Function, r rvalue, a []value) value {
		switch v := r.v.v.(type) {
		case string, symstr:
			return v
		}
		return "<" + x.typeString(r.v.t) + " Value>"
	})
	R("Elem", func(x *Exec, fr *frame, fn *ssa.Function, r rvalue, a []value) value {
		switch v := r.v.v.(type) {
		case *value:
			et := r.v.t.Underlying().(*types.Pointer).Elem()
			if v == nil {
				return mk(x, fn, a[0].(structure), rvalue{})
			}
			if i, ok := (*v).(iface); ok {
				return mk(x, fn, a[0].(structure), rvalue{v: i, p: v})
			}
			return mk(x, fn, a[0].(structure), rvalue{v: iface{et, *v}, p: v})
		}
		panic(unsupported("reflect.Value.Elem"))
	})
	R("Field", func(x *Exec, fr *frame, fn *ssa.Function, r rvalue, a []value) value {
		st, ok := r.v.v.(structure)
		if !ok {
			panic(unsupported("reflect.Value.Field"))
		}
		i := a[1].(int64)
		ft := r.v.t.Underlying().(*types.Struct).Field(int(i)).Type()
		fv := st[i]
		if n, ok := fv.(iface); ok {
			return mk(x, fn, a[0].(structure), rvalue{v: n, p: &st[i]})
		}
		return mk(x, fn, a[0].(structure), rvalue{v: iface{ft, fv}, p: &st[i]})
	})
	R("NumField", func(x *Exec, fr *frame, fn *ssa.Function, r rvalue, a []value) value {
		return int64(r.v.t.Underlying().(*types.Struct).NumFields())
	})
	R("Index", func(x *Exec, fr *frame, fn *ssa.Function, r rvalue, a []value) value {
		s, ok := r.v.v.([]value)
		if !ok {
			panic(unsupported("reflect.Value.Index"))
		}
		i := a[1].(int64)
		et := r.v.t.Underlying().(*types.Slice).Elem()
		if n, ok := s[i].(iface); ok {
			return mk(x, fn, a[0].(structure), rvalue{v: n, p: &s[i]})
		}
		return mk(x, fn, a[0].(structure), rvalue{v: iface{et, s[i]}, p: &s[i]})
	})
}

type rvalue struct {
	v iface
	p *value
}

var _ = strings.Join
var _ = fmt.Sprint
