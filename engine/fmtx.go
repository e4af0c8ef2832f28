package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A small formatter that understands symbolic strings. It covers the verbs the code
// under test uses; text produced for other verbs is an approximation used only in
// error and log messages.

func (x *Exec) sprintf(fr *frame, format value, args []value) (value, []iface) {
	f, ok := format.(string)
	var fs symstr
	if !ok {
		fs = toSym(format)
	} else {
		fs = toSym(f)
	}
	var out value = ""
	var wrapped []iface
	ai := 0
	for i := 0; i < len(fs); {
		// literal run
		j := i
		for j < len(fs) && !(fs[j].t == nil && fs[j].c == '%') {
			if fs[j].t != nil && x.branch(x.ctx.Eq(fs[j].t, x.ctx.Const('%', 8))) {
				panic(unsupported("symbolic format verb"))
			}
			j++
		}
		if j > i {
			out = strConcat(out, normStr(fs[i:j]))
		}
		if j >= len(fs) {
			break
		}
		i = j + 1
		if i >= len(fs) {
			out = strConcat(out, "%!(NOVERB)")
			break
		}
		spec := "%"
		for i < len(fs) && fs[i].t == nil && strings.IndexByte("+-# 0123456789.", fs[i].c) >= 0 {
			spec += string(fs[i].c)
			i++
		}
		if i >= len(fs) {
			out = strConcat(out, "%!(NOVERB)")
			break
		}
		verb := fs[i].c
		i++
		if verb == '%' {
			out = strConcat(out, "%")
			continue
		}
		if verb == '*' {
			panic(unsupported("format *"))
		}
		if ai >= len(args) {
			out = strConcat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := args[ai].(iface)
		ai++
		if verb == 'w' {
			wrapped = append(wrapped, a)
			verb = 'v'
		}
		out = strConcat(out, x.fmtArg(fr, spec, verb, a, 0))
	}
	if ai < len(args) {
		out = strConcat(out, "%!(EXTRA )")
	}
	return out, wrapped
}

func (x *Exec) fmtArg(fr *frame, spec string, verb byte, a iface, depth int) value {
	if depth > 8 {
		return "..."
	}
	if a.t == nil {
		switch verb {
		case 'v':
			return "<nil>"
		case 'T':
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		if r, ok := a.v.(rtype); ok {
			_ = r
			return "*reflect.rtype"
		}
		return x.typeString(a.t)
	}
	sharp := strings.Contains(spec, "#")
	if r, ok := a.v.(rtype); ok {
		return x.typeString(r.t)
	}
	if !sharp && (verb == 's' || verb == 'v' || verb == 'q') {
		for _, mn := range []string{"Error", "String"} {
			if m := x.hasMethod(a.t, mn); m != nil {
				sig := m.Type().(*types.Signature)
				if sig.Params().Len() == 0 && sig.Results().Len() == 1 {
					if c, _ := classify(sig.Results().At(0).Type()); c == bcString {
						if p, ok := a.v.(*value); ok && p == nil {
							// fmt prints <nil> when a nil receiver panics
							r, pan := x.tryCall(func() value { v, _ := x.callMethodByName(fr, a, mn); return v })
							if pan {
								return "<nil>"
							}
							return x.fmtStr(spec, verb, r)
						}
						r, _ := x.callMethodByName(fr, a, mn)
						return x.fmtStr(spec, verb, r)
					}
				}
			}
		}
	}
	return x.fmtVal(fr, spec, verb, a.t, a.v, depth)
}

func (x *Exec) tryCall(f func() value) (r value, pan bool) {
	depth, sp := x.depth, len(x.stack)
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(targetPanic); ok {
				x.depth = depth
				x.stack = x.stack[:sp]
				pan = true
				return
			}
			panic(e)
		}
	}()
	return f(), false
}

func (x *Exec) fmtStr(spec string, verb byte, s value) value {
	if cs, ok := s.(string); ok {
		if verb == 'v' {
			verb = 's'
			if strings.Contains(spec, "#") {
				verb = 'q'
			}
		}
		return fmt.Sprintf(spec+string(verb), cs)
	}
	if (verb == 's' || verb == 'v') && spec == "%" {
		return s
	}
	if verb == 'q' || strings.Contains(spec, "#") {
		// quoted symbolic text occurs only in error and trace messages: escapes are not modelled
		return strConcat(strConcat("\"", s), "\"")
	}
	if strings.Contains(spec, "+") {
		return s
	}
	return fmt.Sprintf(spec+string(verb), x.concStr(s))
}

func (x *Exec) fmtVal(fr *frame, spec string, verb byte, t types.Type, v value, depth int) value {
	switch u := v.(type) {
	case string, symstr:
		return x.fmtStr(spec, verb, u)
	case bool:
		return fmt.Sprintf(spec+string(verb), u)
	case int64:
		_, k := classify(t)
		if k.signed {
			return fmt.Sprintf(spec+string(verb), u)
		}
		return fmt.Sprintf(spec+string(verb), uint64(u))
	case float64:
		return fmt.Sprintf(spec+string(verb), u)
	case *Term:
		if u.w == 0 {
			return strconv.FormatBool(x.branch(u))
		}
		_, k := classify(t)
		n := x.concInt(u, k)
		return x.fmtVal(fr, spec, verb, t, n, depth)
	case iface:
		return x.fmtArg(fr, spec, verb, u, depth+1)
	case *value:
		if u == nil {
			return "<nil>"
		}
		if depth == 0 {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				switch pt.Elem().Underlying().(type) {
				case *types.Struct, *types.Array, *types.Slice, *types.Map:
					return strConcat("&", x.fmtVal(fr, spec, verb, pt.Elem(), *u, depth+1))
				}
			}
		}
		return "0xc000010000"
	case structure:
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return "{?}"
		}
		sharp := strings.Contains(spec, "#")
		var out value = "{"
		if sharp {
			out = x.typeString(t) + "{"
		}
		for i := range u {
			if i > 0 {
				if sharp {
					out = strConcat(out, ", ")
				} else {
					out = strConcat(out, " ")
				}
			}
			if sharp || strings.Contains(spec, "+") {
				out = strConcat(out, st.Field(i).Name()+":")
			}
			out = strConcat(out, x.fmtArg(fr, spec, verb, iface{st.Field(i).Type(), u[i]}, depth+1))
		}
		return strConcat(out, "}")
	case []value, array:
		var el []value
		var et types.Type
		switch uu := t.Underlying().(type) {
		case *types.Slice:
			et = uu.Elem()
		case *types.Array:
			et = uu.Elem()
		}
		if s, ok := u.([]value); ok {
			el = s
			if c, k := classify(et); c == bcInt && k.w == 8 && !k.signed && (verb == 's' || verb == 'q' || verb == 'x') {
				return x.fmtStr(spec, verb, bytesToStr(el))
			}
		} else {
			el = []value(u.(array))
		}
		var out value = "["
		for i, e := range el {
			if i > 0 {
				out = strConcat(out, " ")
			}
			if n, ok := e.(iface); ok {
				out = strConcat(out, x.fmtArg(fr, spec, verb, n, depth+1))
			} else {
				out = strConcat(out, x.fmtArg(fr, spec, verb, iface{et, e}, depth+1))
			}
		}
		return strConcat(out, "]")
	}
	return "<?>"
}

func (x *Exec) sprint(fr *frame, args []value, ln bool) value {
	var out value = ""
	prevStr := true
	for i, a := range args {
		av := a.(iface)
		isS := false
		switch av.v.(type) {
		case string, symstr:
			isS = true
		}
		if i > 0 && (ln || (!isS && !prevStr)) {
			out = strConcat(out, " ")
		}
		out = strConcat(out, x.fmtArg(fr, "%", 'v', av, 0))
		prevStr = isS
	}
	if ln {
		out = strConcat(out, "\n")
	}
	return out
}

func regFmt(I map[string]interceptFn) {
	sl := func(v value) []value {
		s, _ := v.([]value)
		return s
	}
	I["fmt.Sprintf"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		s, _ := x.sprintf(fr, a[0], sl(a[1]))
		return s, true
	}
	I["fmt.Sprint"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return x.sprint(fr, sl(a[0]), false), true
	}
	I["fmt.Sprintln"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return x.sprint(fr, sl(a[0]), true), true
	}
	I["fmt.Errorf"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		s, w := x.sprintf(fr, a[0], sl(a[1]))
		switch len(w) {
		case 0:
			return x.eng.plainErrorV(s), true
		case 1:
			var st value = structure{s, w[0]}
			return iface{t: types.NewPointer(x.eng.namedType("fmt", "wrapError")), v: &st}, true
		}
		errs := make([]value, len(w))
		for i, e := range w {
			errs[i] = e
		}
		var st value = structure{s, errs}
		return iface{t: types.NewPointer(x.eng.namedType("fmt", "wrapErrors")), v: &st}, true
	}
	wr := func(x *Exec, fr *frame, w value, s value) value {
		wi := w.(iface)
		if wi.t == nil {
			x.throw("invalid memory address or nil pointer dereference")
		}
		r, ok := x.callMethodByName(fr, wi, "Write", strToBytes(s))
		if !ok {
			panic(unsupported("Fprint to " + wi.t.String()))
		}
		return r
	}
	I["fmt.Fprintf"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		s, _ := x.sprintf(fr, a[1], sl(a[2]))
		return wr(x, fr, a[0], s), true
	}
	I["fmt.Fprint"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return wr(x, fr, a[0], x.sprint(fr, sl(a[1]), false)), true
	}
	I["fmt.Fprintln"] = func(x *Exec, fr *frame, fn *ssa.Function, a []value) (value, bool) {
		return wr(x, fr, a[0], x.sprint(fr, sl(a[1]), true)), true
	}
}
