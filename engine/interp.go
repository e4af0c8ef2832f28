package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	x      *Exec
	fi     *fnInfo
	env    []value
	defers []deferred
	block  int
	prev   int
	result value
	pan    *targetPanic
	recovd bool
	caller *frame
}

type deferred struct {
	fn   value
	args []value
	bi   *ssa.Builtin
	call *ssa.CallCommon
}

func (fr *frame) get(r ref) value {
	if r >= 0 {
		return fr.env[r]
	}
	if r == -1<<30 {
		return nil
	}
	pe := &fr.fi.pool[^r]
	if pe.g != nil {
		return fr.x.globalAddr(pe.g)
	}
	return pe.v
}

// call invokes any function value.
func (x *Exec) call(caller *frame, fn value, args []value) value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			x.throw("invalid memory address or nil pointer dereference")
		}
		return x.callFn(caller, f, args, nil)
	case *closure:
		return x.callFn(caller, f.fn, args, f.env)
	case *native:
		return f.fn(x, args)
	case *ssa.Builtin:
		return x.builtin(caller, f, nil, args)
	case nil:
		x.throw("invalid memory address or nil pointer dereference")
	}
	panic(unsupported(fmt.Sprintf("call of %T", fn)))
}

func (x *Exec) callSSA(fn *ssa.Function, args, env []value) value {
	return x.callFn(nil, fn, args, env)
}

func (x *Exec) callFn(caller *frame, fn *ssa.Function, args, env []value) value {
	fi := infoOf(x.eng, fn)
	if fi.icept != nil {
		if r, handled := fi.icept(x, caller, fn, args); handled {
			return r
		}
	}
	if fn.Synthetic == "package initializer" && x.initMode > 0 && len(x.stack) > 0 && x.stack[len(x.stack)-1].Synthetic == "package initializer" {
		// initialisers of imported packages run lazily
		return nil
	}
	if x.initMode > 0 && (strings.HasPrefix(fi.name, "reflect.TypeFor") || fi.name == "reflect.TypeOf") {
		// types that a package keeps in variables; what reads them is intercepted
		return zeroResult(fn.Signature)
	}
	if fi.extern || fi.blocks == nil {
		if x.initMode > 0 {
			return zeroResult(fn.Signature)
		}
		panic(unsupported("external function " + fi.name))
	}
	x.depth++
	if x.depth > 4000 {
		x.violation("stack overflow", "recursion deeper than 4000 calls in "+fi.name, nil)
		panic(pathAbort{abStop, "stack"})
	}
	x.stack = append(x.stack, fn)
	x.eng.noteFn(fn)
	fr := &frame{x: x, fi: fi, caller: caller, prev: -1}
	fr.env = make([]value, fi.nslots)
	np := copy(fr.env, args)
	if np != len(fn.Params) {
		panic(unsupported(fmt.Sprintf("arity of %s: %d args for %d params", fi.name, np, len(fn.Params))))
	}
	copy(fr.env[np:], env)
	fr.run()
	x.stack = x.stack[:len(x.stack)-1]
	x.depth--
	return fr.result
}

func zeroResult(sig *types.Signature) value {
	res := sig.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

// run executes the frame including panic/defer/recover handling.
func (fr *frame) run() {
	x := fr.x
	if fr.fi.fn.Recover == nil && !hasDefer(fr.fi) {
		fr.exec()
		return
	}
	depth, sp := x.depth, len(x.stack)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if tp, ok := r.(targetPanic); ok {
					fr.pan = &tp
					x.depth = depth
					x.stack = x.stack[:sp]
					return
				}
				panic(r)
			}
		}()
		fr.exec()
	}()
	if fr.pan != nil {
		fr.runDefers()
		if fr.pan != nil {
			panic(*fr.pan)
		}
		// recovered: run the recover block
		if fr.fi.fn.Recover != nil {
			fr.block = fr.fi.fn.Recover.Index
			fr.prev = -1
			fr.exec()
		} else {
			fr.result = zeroResult(fr.fi.fn.Signature)
		}
	}
}

func hasDefer(fi *fnInfo) bool {
	for i := range fi.blocks {
		for j := range fi.blocks[i].ins {
			if _, ok := fi.blocks[i].ins[j].in.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

func (fr *frame) runDefers() {
	x := fr.x
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth, sp := x.depth, len(x.stack)
		func() {
			defer func() {
				if r := recover(); r != nil {
					if tp, ok := r.(targetPanic); ok {
						fr.pan = &tp
						x.depth = depth
						x.stack = x.stack[:sp]
						return
					}
					panic(r)
				}
			}()
			if d.bi != nil {
				x.builtin(fr, d.bi, d.call, d.args)
			} else {
				x.call(fr, d.fn, d.args)
			}
		}()
	}
}

func (x *Exec) throw(msg string) {
	if debugOn && strings.HasPrefix(msg, "invalid mem") {
		println("THROW", msg, x.pos, len(x.prefix), x.steps, len(x.mglobals), x.stackStr())
	}
	panic(targetPanic{v: x.eng.runtimeError(msg), where: x.stackStr()})
}

func (fr *frame) exec() {
	x := fr.x
	fi := fr.fi
loop:
	for {
		cb := &fi.blocks[fr.block]
		x.steps += int64(len(cb.ins))
		if x.steps > x.eng.stepLimit {
			panic(pathAbort{abLimit, x.stackStr()})
		}
		i := 0
		if cb.nphi > 0 {
			if fr.prev != -2 { // -2: phis already set by a merge
				pi := -1
				for k, p := range cb.b.Preds {
					if p.Index == fr.prev {
						pi = k
						break
					}
				}
				if cb.nphi == 1 {
					fr.env[cb.ins[0].dst] = fr.get(cb.ins[0].args[pi])
				} else {
					tmp := make([]value, cb.nphi)
					for k := 0; k < cb.nphi; k++ {
						tmp[k] = fr.get(cb.ins[k].args[pi])
					}
					for k := 0; k < cb.nphi; k++ {
						fr.env[cb.ins[k].dst] = tmp[k]
					}
				}
			}
			i = cb.nphi
		}
		for ; i < len(cb.ins); i++ {
			ci := &cb.ins[i]
			switch in := ci.in.(type) {
			case *ssa.Jump:
				fr.prev = fr.block
				fr.block = cb.b.Succs[0].Index
				continue loop
			case *ssa.If:
				var side bool
				switch c := fr.get(ci.a).(type) {
				case bool:
					side = c
				case *Term:
					if c.op == OConst {
						side = c.c != 0
					} else {
						if cb.merge != nil && !x.eng.noMerge {
							switch fr.tryMerge(cb, c) {
							case 1:
								continue loop
							case 2:
								return
							}
						}
						side = x.branch(c)
					}
				default:
					panic(unsupported(fmt.Sprintf("if on %T", c)))
				}
				fr.prev = fr.block
				if side {
					fr.block = cb.b.Succs[0].Index
				} else {
					fr.block = cb.b.Succs[1].Index
				}
				continue loop
			case *ssa.Return:
				switch len(ci.args) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = fr.get(ci.args[0])
				default:
					t := make(tuple, len(ci.args))
					for k, r := range ci.args {
						t[k] = fr.get(r)
					}
					fr.result = t
				}
				return
			case *ssa.Call:
				fr.env[ci.dst] = fr.doCall(ci, &in.Call)
			case *ssa.RunDefers:
				fr.runDefers()
				if fr.pan != nil {
					p := *fr.pan
					fr.pan = nil
					fr.defers = nil
					panic(p)
				}
			case *ssa.Defer:
				fr.defers = append(fr.defers, fr.prepDefer(ci, &in.Call))
			case *ssa.Go:
				d := fr.prepDefer(ci, &in.Call)
				if d.bi != nil {
					panic(unsupported("go builtin"))
				}
				x.spawn(fr, d.fn, d.args)
			case *ssa.Panic:
				v := fr.get(ci.a)
				panic(targetPanic{v: v, where: x.stackStr()})
			case *ssa.Store:
				p := fr.get(ci.a)
				switch p := p.(type) {
				case *value:
					if p == nil {
						x.throw("invalid memory address or nil pointer dereference")
					}
					storeVal(p, fr.get(ci.b))
				case symPtr:
					k := x.concInt(p.idx, intKind{p.idx.w, false})
					storeVal(&p.arr[k], fr.get(ci.b))
				default:
					panic(unsupported(fmt.Sprintf("store to %T", p)))
				}
			case *ssa.MapUpdate:
				m, _ := fr.get(ci.a).(*gomap)
				if m == nil {
					panic(targetPanic{v: x.eng.runtimeError("assignment to entry in nil map"), where: x.stackStr()})
				}
				x.mapSet(m, copyVal(fr.get(ci.b)), copyVal(fr.get(ci.c)))
			case *ssa.Send:
				ch := fr.get(ci.a).(*gochan)
				if ch == nil || ch.closed || len(ch.buf) >= ch.cap {
					panic(unsupported("blocking send"))
				}
				ch.buf = append(ch.buf, copyVal(fr.get(ci.b)))
			default:
				fr.env[ci.dst] = fr.eval(ci)
			}
		}
		panic(unsupported("fell off block in " + fi.name))
	}
}

// eval computes a value-producing instruction other than Call.
func (fr *frame) eval(ci *cinstr) value {
	x := fr.x
	switch in := ci.in.(type) {
	case *ssa.UnOp:
		return fr.unop(in, ci)
	case *ssa.BinOp:
		return x.binop(in.Op, ci, fr.get(ci.a), fr.get(ci.b))
	case *ssa.ChangeInterface:
		return fr.get(ci.a)
	case *ssa.ChangeType:
		return fr.get(ci.a)
	case *ssa.Convert:
		return x.convert(ci, fr.get(ci.a))
	case *ssa.MultiConvert:
		return x.convert(ci, fr.get(ci.a))
	case *ssa.MakeInterface:
		return iface{t: ci.t, v: copyVal(fr.get(ci.a))}
	case *ssa.Extract:
		t, ok := fr.get(ci.a).(tuple)
		if !ok {
			panic(unsupported("extract from " + fmt.Sprintf("%T in %s: %s", fr.get(ci.a), fr.fi.name, in)))
		}
		return t[in.Index]
	case *ssa.Slice:
		return fr.slice(ci)
	case *ssa.MakeChan:
		return &gochan{cap: int(x.concInt(fr.get(ci.a), intKind{64, true}))}
	case *ssa.Alloc:
		v := zero(ci.t)
		return &v
	case *ssa.MakeSlice:
		n := x.concInt(fr.get(ci.a), intKind{64, true})
		c := x.concInt(fr.get(ci.b), intKind{64, true})
		if n < 0 || c < n || c > 1<<26 {
			x.throw("makeslice: len out of range")
		}
		s := make([]value, n, c)
		s2 := s[:c]
		switch ci.t.Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range s2 {
				s2[i] = zero(ci.t)
			}
		default:
			z := zero(ci.t)
			for i := range s2 {
				s2[i] = z
			}
		}
		return s
	case *ssa.MakeMap:
		return newMap(ci.t)
	case *ssa.Range:
		switch v := fr.get(ci.a).(type) {
		case string, symstr:
			return &strIter{s: v}
		case *gomap:
			it := &mapIter{m: v}
			if v != nil {
				for _, e := range v.ents {
					if !e.del {
						it.keys = append(it.keys, e)
					}
				}
			}
			return it
		}
		panic(unsupported("range"))
	case *ssa.Next:
		return x.next(ci, fr.get(ci.a))
	case *ssa.FieldAddr:
		p, ok := fr.get(ci.a).(*value)
		if !ok {
			if sp, ok := fr.get(ci.a).(symPtr); ok {
				k := x.concInt(sp.idx, intKind{sp.idx.w, false})
				p = &sp.arr[k]
			} else {
				panic(unsupported(fmt.Sprintf("fieldaddr of %T in %s", fr.get(ci.a), fr.fi.name)))
			}
		}
		if p == nil {
			x.throw("invalid memory address or nil pointer dereference")
		}
		st, ok := (*p).(structure)
		if !ok {
			panic(unsupported(fmt.Sprintf("fieldaddr into %T in %s: %s", *p, fr.fi.name, in)))
		}
		return &st[in.Field]
	case *ssa.Field:
		return copyVal(fr.get(ci.a).(structure)[in.Field])
	case *ssa.IndexAddr:
		return fr.indexAddr(ci)
	case *ssa.Index:
		switch a := fr.get(ci.a).(type) {
		case array:
			return x.indexVal([]value(a), fr.get(ci.b), ci)
		case string, symstr:
			return x.strAt(a, fr.get(ci.b), ci.k2)
		}
		panic(unsupported("index"))
	case *ssa.Lookup:
		switch m := fr.get(ci.a).(type) {
		case string, symstr:
			return x.strAt(m, fr.get(ci.b), ci.k2)
		case *gomap:
			var e *mapEnt
			if m != nil {
				e = x.mapGet(m, fr.get(ci.b))
			}
			var v value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(ci.t)
			}
			if ci.comm {
				return tuple{v, e != nil}
			}
			return v
		}
		panic(unsupported("lookup"))
	case *ssa.TypeAssert:
		return x.typeAssert(ci, fr.get(ci.a).(iface))
	case *ssa.MakeClosure:
		env := make([]value, len(ci.args))
		for i, r := range ci.args {
			env[i] = fr.get(r)
		}
		return &closure{fn: fr.get(ci.a).(*ssa.Function), env: env}
	case *ssa.Phi:
		panic(unsupported("phi outside block head"))
	case *ssa.SliceToArrayPointer:
		s := fr.get(ci.a).([]value)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(len(s)) < n {
			x.throw("cannot convert slice to array pointer")
		}
		var v value = array(s[:n:n])
		return &v
	case *ssa.Select:
		return fr.selectStmt(in, ci)
	}
	panic(unsupported(fmt.Sprintf("instr %T", ci.in)))
}

func (fr *frame) selectStmt(in *ssa.Select, ci *cinstr) value {
	x := fr.x
	var ready []int
	for i, s := range in.States {
		ch, _ := fr.get(ci.args[2*i]).(*gochan)
		if ch == nil {
			continue
		}
		if s.Dir == types.RecvOnly {
			if len(ch.buf) > 0 || ch.closed {
				ready = append(ready, i)
			}
		} else if len(ch.buf) < ch.cap || ch.closed {
			ready = append(ready, i)
		}
	}
	pick := -1
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = x.choose("select", len(ready))
		}
		pick = ready[k]
	} else if in.Blocking {
		panic(unsupported("select would block"))
	}
	recvOk := false
	res := tuple{int64(pick), false}
	for i, s := range in.States {
		if s.Dir != types.RecvOnly {
			continue
		}
		et := s.Chan.Type().Underlying().(*types.Chan).Elem()
		var v value = zero(et)
		if i == pick {
			ch := fr.get(ci.args[2*i]).(*gochan)
			if len(ch.buf) > 0 {
				v = ch.buf[0]
				ch.buf = ch.buf[1:]
				recvOk = true
			}
		}
		res = append(res, v)
	}
	if pick >= 0 && in.States[pick].Dir != types.RecvOnly {
		ch := fr.get(ci.args[2*pick]).(*gochan)
		if ch.closed {
			x.throw("send on closed channel")
		}
		ch.buf = append(ch.buf, copyVal(fr.get(ci.args[2*pick+1])))
	}
	res[1] = recvOk
	return res
}

// spawn runs a goroutine body to completion at its start point (a legal schedule
// whenever it does not block).
func (x *Exec) spawn(fr *frame, fn value, args []value) {
	x.eng.stats.goroutines.Add(1)
	x.call(fr, fn, args)
}

func (x *Exec) indexVal(a []value, idx value, ci *cinstr) value {
	switch i := idx.(type) {
	case int64:
		if i < 0 || i >= int64(len(a)) {
			x.throw(fmt.Sprintf("index out of range [%d] with length %d", i, len(a)))
		}
		return copyVal(a[i])
	case *Term:
		return x.loadSym(x.symIndex(a, i, ci.k2))
	}
	panic(unsupported("indexVal"))
}

// symIndex bounds-checks a symbolic index.
func (x *Exec) symIndex(a []value, i *Term, k intKind) symPtr {
	w := i.w
	in := x.ctx.Bin(OUlt, i, x.ctx.Const(uint64(len(a)), w))
	if w < 64 && uint64(len(a)) > mask(w) {
		in = x.ctx.tTrue
		if k.signed {
			in = x.ctx.Bin(OSle, x.ctx.Const(0, w), i)
		}
	}
	if !x.branch(in) {
		x.throw(fmt.Sprintf("index out of range with length %d", len(a)))
	}
	return symPtr{arr: a, idx: i}
}

func (x *Exec) loadSym(p symPtr) value {
	// group equal scalar values
	allBool, allInt := true, true
	var w uint8 = 64
	for _, e := range p.arr {
		switch t := e.(type) {
		case bool:
			allInt = false
		case int64:
			allBool = false
		case *Term:
			if t.w == 0 {
				allInt = false
			} else {
				allBool = false
				w = t.w
			}
		default:
			allBool, allInt = false, false
		}
	}
	if (!allBool && !allInt) || len(p.arr) > 300 || len(p.arr) == 0 {
		k := x.concInt(p.idx, intKind{p.idx.w, false})
		return copyVal(p.arr[k])
	}
	if allInt && w == 64 {
		// stay at 64 bit; the consumer narrows by kind (see narrow)
	}
	toT := func(v value) *Term {
		switch t := v.(type) {
		case bool:
			return x.ctx.Bool(t)
		case int64:
			return x.ctx.Const(uint64(t), w)
		}
		return v.(*Term)
	}
	res := toT(p.arr[len(p.arr)-1])
	groups := map[int32]*Term{}
	var order []int32
	vals := map[int32]*Term{}
	for i := 0; i < len(p.arr)-1; i++ {
		if uint64(i) > mask(p.idx.w) {
			break
		}
		t := toT(p.arr[i])
		if t == res {
			continue
		}
		c := x.ctx.Eq(p.idx, x.ctx.Const(uint64(i), p.idx.w))
		if g, ok := groups[t.id]; ok {
			groups[t.id] = x.ctx.Or(g, c)
		} else {
			groups[t.id] = c
			order = append(order, t.id)
			vals[t.id] = t
		}
	}
	for _, id := range order {
		res = x.ctx.Ite(groups[id], vals[id], res)
	}
	return res
}

func (x *Exec) strAt(s value, idx value, k intKind) value {
	switch i := idx.(type) {
	case int64:
		n := int64(strLen(s))
		if i < 0 || i >= n {
			x.throw(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return strIndex(s, int(i))
	case *Term:
		p := x.symIndex(strToBytes(s), i, k)
		return x.narrowTo(x.loadSym(p), intKind{8, false})
	}
	panic(unsupported("strAt"))
}

// narrowTo fixes the width of a term produced by loadSym.
func (x *Exec) narrowTo(v value, k intKind) value {
	if t, ok := v.(*Term); ok && t.w != 0 && t.w != k.w {
		return x.wrap(x.ctx.Resize(t, k.w, false), k)
	}
	return v
}

func (fr *frame) indexAddr(ci *cinstr) value {
	x := fr.x
	var a []value
	switch p := fr.get(ci.a).(type) {
	case []value:
		a = p
	case *value:
		if p == nil {
			x.throw("invalid memory address or nil pointer dereference")
		}
		a = []value((*p).(array))
	default:
		panic(unsupported(fmt.Sprintf("indexaddr of %T", p)))
	}
	switch i := fr.get(ci.b).(type) {
	case int64:
		if i < 0 || i >= int64(len(a)) {
			x.throw(fmt.Sprintf("index out of range [%d] with length %d", i, len(a)))
		}
		return &a[i]
	case *Term:
		return x.symIndex(a, i, ci.k2)
	}
	panic(unsupported("indexaddr"))
}

func (fr *frame) unop(in *ssa.UnOp, ci *cinstr) value {
	x := fr.x
	v := fr.get(ci.a)
	switch in.Op {
	case token.MUL:
		switch p := v.(type) {
		case *value:
			if p == nil {
				x.throw("invalid memory address or nil pointer dereference")
			}
			return copyVal(*p)
		case symPtr:
			r := x.loadSym(p)
			if c, k := classify(ci.t); c == bcInt {
				return x.narrowTo(r, k)
			}
			return r
		}
		panic(unsupported(fmt.Sprintf("load from %T in %s", v, fr.fi.name)))
	case token.NOT:
		switch b := v.(type) {
		case bool:
			return !b
		case *Term:
			return x.wrapBool(x.ctx.Not(b))
		}
	case token.SUB:
		switch b := v.(type) {
		case int64:
			return normInt(uint64(-b), ci.k)
		case float64:
			return -b
		case *Term:
			return x.wrap(x.ctx.Un(ONeg, b), ci.k)
		}
	case token.XOR:
		switch b := v.(type) {
		case int64:
			return normInt(^uint64(b), ci.k)
		case *Term:
			return x.wrap(x.ctx.Un(OBNot, b), ci.k)
		}
	case token.ARROW:
		ch, _ := v.(*gochan)
		if ch == nil {
			panic(unsupported("receive on nil channel"))
		}
		var r value
		ok := false
		if len(ch.buf) > 0 {
			r = ch.buf[0]
			ch.buf = ch.buf[1:]
			ok = true
		} else if ch.closed {
			r = zero(in.X.Type().Underlying().(*types.Chan).Elem())
		} else {
			panic(unsupported("blocking receive"))
		}
		if ci.comm {
			return tuple{r, ok}
		}
		return r
	}
	panic(unsupported(fmt.Sprintf("unop %s on %T", in.Op, v)))
}

func (x *Exec) wrap(t *Term, k intKind) value {
	if t.op == OConst {
		return normInt(t.c, k)
	}
	return t
}
func (x *Exec) wrapBool(t *Term) value {
	if t.op == OConst {
		return t.c != 0
	}
	return t
}

func (x *Exec) term(v value, w uint8) *Term {
	switch v := v.(type) {
	case int64:
		return x.ctx.Const(uint64(v), w)
	case bool:
		return x.ctx.Bool(v)
	case *Term:
		if v.w != w {
			panic(unsupported(fmt.Sprintf("term width %d wanted %d", v.w, w)))
		}
		return v
	}
	panic(unsupported(fmt.Sprintf("term of %T", v)))
}

func (x *Exec) binop(op token.Token, ci *cinstr, a, b value) value {
	switch op {
	case token.EQL:
		return x.eq(ci.t, a, b)
	case token.NEQ:
		return x.not(x.eq(ci.t, a, b))
	}
	switch ci.cl {
	case bcInt:
		if op == token.SHL || op == token.SHR {
			return x.shift(op, ci, a, b)
		}
		ai, aok := a.(int64)
		bi, bok := b.(int64)
		if aok && bok {
			return intOp(x, op, ai, bi, ci.k)
		}
		ta, tb := x.term(a, ci.k.w), x.term(b, ci.k.w)
		c := x.ctx
		s := ci.k.signed
		sel := func(u, sg Op) Op {
			if s {
				return sg
			}
			return u
		}
		switch op {
		case token.ADD:
			return x.wrap(c.Bin(OAdd, ta, tb), ci.k)
		case token.SUB:
			return x.wrap(c.Bin(OSub, ta, tb), ci.k)
		case token.MUL:
			return x.wrap(c.Bin(OMul, ta, tb), ci.k)
		case token.QUO, token.REM:
			if x.branch(c.Eq(tb, c.Const(0, ci.k.w))) {
				x.throw("integer divide by zero")
			}
			if op == token.QUO {
				return x.wrap(c.Bin(sel(OUDiv, OSDiv), ta, tb), ci.k)
			}
			return x.wrap(c.Bin(sel(OURem, OSRem), ta, tb), ci.k)
		case token.AND:
			return x.wrap(c.Bin(OBAnd, ta, tb), ci.k)
		case token.OR:
			return x.wrap(c.Bin(OBOr, ta, tb), ci.k)
		case token.XOR:
			return x.wrap(c.Bin(OBXor, ta, tb), ci.k)
		case token.AND_NOT:
			return x.wrap(c.Bin(OBAnd, ta, c.Un(OBNot, tb)), ci.k)
		case token.LSS:
			return x.wrapBool(c.Bin(sel(OUlt, OSlt), ta, tb))
		case token.LEQ:
			return x.wrapBool(c.Bin(sel(OUle, OSle), ta, tb))
		case token.GTR:
			return x.wrapBool(c.Bin(sel(OUlt, OSlt), tb, ta))
		case token.GEQ:
			return x.wrapBool(c.Bin(sel(OUle, OSle), tb, ta))
		}
	case bcString:
		switch op {
		case token.ADD:
			return strConcat(a, b)
		case token.LSS:
			return x.strLess(a, b)
		case token.GTR:
			return x.strLess(b, a)
		case token.LEQ:
			return x.not(x.strLess(b, a))
		case token.GEQ:
			return x.not(x.strLess(a, b))
		}
	case bcFloat:
		fa, fb := a.(float64), b.(float64)
		switch op {
		case token.ADD:
			return fa + fb
		case token.SUB:
			return fa - fb
		case token.MUL:
			return fa * fb
		case token.QUO:
			return fa / fb
		case token.LSS:
			return fa < fb
		case token.LEQ:
			return fa <= fb
		case token.GTR:
			return fa > fb
		case token.GEQ:
			return fa >= fb
		}
	case bcBool:
		switch op {
		case token.AND:
			return x.and(a, b)
		case token.OR:
			return x.or(a, b)
		}
	}
	panic(unsupported(fmt.Sprintf("binop %s on %T,%T (%s)", op, a, b, ci.t)))
}

func intOp(x *Exec, op token.Token, a, b int64, k intKind) value {
	ua, ub := uint64(a), uint64(b)
	switch op {
	case token.ADD:
		return normInt(ua+ub, k)
	case token.SUB:
		return normInt(ua-ub, k)
	case token.MUL:
		return normInt(ua*ub, k)
	case token.QUO:
		if b == 0 {
			x.throw("integer divide by zero")
		}
		if k.signed {
			if b == -1 {
				return normInt(-ua, k)
			}
			return normInt(uint64(a/b), k)
		}
		return normInt(ua/ub, k)
	case token.REM:
		if b == 0 {
			x.throw("integer divide by zero")
		}
		if k.signed {
			if b == -1 {
				return int64(0)
			}
			return normInt(uint64(a%b), k)
		}
		return normInt(ua%ub, k)
	case token.AND:
		return normInt(ua&ub, k)
	case token.OR:
		return normInt(ua|ub, k)
	case token.XOR:
		return normInt(ua^ub, k)
	case token.AND_NOT:
		return normInt(ua&^ub, k)
	case token.LSS:
		if k.signed {
			return a < b
		}
		return ua < ub
	case token.LEQ:
		if k.signed {
			return a <= b
		}
		return ua <= ub
	case token.GTR:
		if k.signed {
			return a > b
		}
		return ua > ub
	case token.GEQ:
		if k.signed {
			return a >= b
		}
		return ua >= ub
	}
	panic(unsupported("intOp " + op.String()))
}

func (x *Exec) shift(op token.Token, ci *cinstr, a, b value) value {
	if bi, ok := b.(int64); ok {
		if ci.k2.signed && bi < 0 {
			x.throw("negative shift amount")
		}
		if ai, ok := a.(int64); ok {
			if op == token.SHL {
				if uint64(bi) >= 64 {
					return int64(0)
				}
				return normInt(uint64(ai)<<uint64(bi), ci.k)
			}
			if ci.k.signed {
				if uint64(bi) >= 64 {
					bi = 63
				}
				return normInt(uint64(ai>>uint64(bi)), ci.k)
			}
			if uint64(bi) >= 64 {
				return int64(0)
			}
			return normInt(uint64(ai)>>uint64(bi), ci.k)
		}
		n := uint64(bi)
		if n > uint64(ci.k.w) {
			n = uint64(ci.k.w)
		}
		b = int64(n)
		ta := x.term(a, ci.k.w)
		tb := x.ctx.Const(n, ci.k.w)
		if op == token.SHL {
			return x.wrap(x.ctx.Bin(OShl, ta, tb), ci.k)
		}
		if ci.k.signed {
			return x.wrap(x.ctx.Bin(OAShr, ta, tb), ci.k)
		}
		return x.wrap(x.ctx.Bin(OLShr, ta, tb), ci.k)
	}
	tb := b.(*Term)
	if ci.k2.signed {
		if x.branch(x.ctx.Bin(OSlt, tb, x.ctx.Const(0, tb.w))) {
			x.throw("negative shift amount")
		}
	}
	w := ci.k.w
	big := x.ctx.Bin(OUle, x.ctx.Const(uint64(w), tb.w), tb)
	if tb.w < 64 && uint64(w) > mask(tb.w) {
		big = x.ctx.tFalse
	}
	sh := x.ctx.Resize(tb, w, false)
	ta := x.term(a, w)
	o := OLShr
	if op == token.SHL {
		o = OShl
	} else if ci.k.signed {
		o = OAShr
	}
	norm := x.ctx.Bin(o, ta, sh)
	var ov *Term
	if o == OAShr {
		ov = x.ctx.Bin(OAShr, ta, x.ctx.Const(uint64(w-1), w))
	} else {
		ov = x.ctx.Const(0, w)
	}
	return x.wrap(x.ctx.Ite(big, ov, norm), ci.k)
}

func (x *Exec) not(v value) value {
	switch b := v.(type) {
	case bool:
		return !b
	case *Term:
		return x.wrapBool(x.ctx.Not(b))
	}
	panic("not")
}
func (x *Exec) and(a, b value) value {
	if v, ok := a.(bool); ok {
		if !v {
			return false
		}
		return b
	}
	if v, ok := b.(bool); ok {
		if !v {
			return false
		}
		return a
	}
	return x.wrapBool(x.ctx.And(a.(*Term), b.(*Term)))
}
func (x *Exec) or(a, b value) value {
	return x.not(x.and(x.not(a), x.not(b)))
}

func (x *Exec) sbTerm(b sbyte) *Term {
	if b.t != nil {
		return b.t
	}
	return x.ctx.Const(uint64(b.c), 8)
}

func (x *Exec) strEq(a, b value) value {
	if s, ok := a.(string); ok {
		if t, ok := b.(string); ok {
			return s == t
		}
	}
	if strLen(a) != strLen(b) {
		return false
	}
	p, q := toSym(a), toSym(b)
	// concrete mismatches first
	for i := range p {
		if p[i].t == nil && q[i].t == nil && p[i].c != q[i].c {
			return false
		}
	}
	res := x.ctx.tTrue
	for i := len(p) - 1; i >= 0; i-- {
		if p[i].t == nil && q[i].t == nil {
			continue
		}
		res = x.ctx.And(x.ctx.Eq(x.sbTerm(p[i]), x.sbTerm(q[i])), res)
		if res == x.ctx.tFalse {
			return false
		}
	}
	return x.wrapBool(res)
}

func (x *Exec) strLess(a, b value) value {
	if s, ok := a.(string); ok {
		if t, ok := b.(string); ok {
			return s < t
		}
	}
	p, q := toSym(a), toSym(b)
	n := len(p)
	if len(q) < n {
		n = len(q)
	}
	res := x.ctx.Bool(len(p) < len(q))
	for i := n - 1; i >= 0; i-- {
		u, v := x.sbTerm(p[i]), x.sbTerm(q[i])
		lt := x.ctx.Bin(OUlt, u, v)
		eq := x.ctx.Eq(u, v)
		res = x.ctx.Or(lt, x.ctx.And(eq, res))
	}
	return x.wrapBool(res)
}

// eq compares two values of static type t.
func (x *Exec) eq(t types.Type, a, b value) value {
	switch av := a.(type) {
	case string, symstr:
		switch b.(type) {
		case string, symstr:
			return x.strEq(a, b)
		}
	case int64:
		switch bv := b.(type) {
		case int64:
			return av == bv
		case *Term:
			return x.wrapBool(x.ctx.Eq(x.ctx.Const(uint64(av), bv.w), bv))
		}
	case bool:
		switch bv := b.(type) {
		case bool:
			return av == bv
		case *Term:
			return x.wrapBool(x.ctx.Eq(x.ctx.Bool(av), bv))
		}
	case float64:
		return av == b.(float64)
	case complex128:
		return av == b.(complex128)
	case *Term:
		return x.wrapBool(x.ctx.Eq(av, x.term(b, av.w)))
	case *value:
		switch bv := b.(type) {
		case *value:
			return av == bv
		case slicePtr:
			return false
		}
		return false
	case *gochan:
		return av == b.(*gochan)
	case *gomap:
		bm, _ := b.(*gomap)
		return av == bm
	case []value:
		bs, _ := b.([]value)
		return av == nil && bs == nil
	case *ssa.Function, *closure, *native:
		return isNilFn(a) && isNilFn(b)
	case rtype:
		bt, ok := b.(rtype)
		return ok && types.Identical(av.t, bt.t)
	case structure:
		bv := b.(structure)
		st, _ := t.Underlying().(*types.Struct)
		var r value = true
		for i := range av {
			var ft types.Type
			if st != nil {
				if st.Field(i).Name() == "_" {
					continue
				}
				ft = st.Field(i).Type()
			}
			r = x.and(r, x.eq(ft, av[i], bv[i]))
			if r == false {
				return false
			}
		}
		return r
	case array:
		bv := b.(array)
		var r value = true
		var et types.Type
		if at, ok := t.Underlying().(*types.Array); ok {
			et = at.Elem()
		}
		for i := range av {
			r = x.and(r, x.eq(et, av[i], bv[i]))
			if r == false {
				return false
			}
		}
		return r
	case iface:
		bv, ok := b.(iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("eq iface with %T", b)))
		}
		if av.t == nil || bv.t == nil {
			return av.t == nil && bv.t == nil
		}
		if !types.Identical(av.t, bv.t) {
			return false
		}
		if !types.Comparable(av.t) {
			x.throw("comparing uncomparable type " + av.t.String())
		}
		return x.eq(av.t, av.v, bv.v)
	}
	panic(unsupported(fmt.Sprintf("eq %T %T", a, b)))
}

func isNilFn(v value) bool {
	switch f := v.(type) {
	case *ssa.Function:
		return f == nil
	case nil:
		return true
	}
	return false
}

func (x *Exec) convert(ci *cinstr, v value) value {
	dst := ci.t2.Underlying()
	switch ci.cl2 {
	case bcInt:
		switch ci.cl {
		case bcInt:
			switch n := v.(type) {
			case int64:
				return normInt(uint64(n), ci.k2)
			case *Term:
				return x.wrap(x.ctx.Resize(n, ci.k2.w, ci.k.signed), ci.k2)
			}
		case bcFloat:
			f := v.(float64)
			if ci.k2.signed {
				return normInt(uint64(int64(f)), ci.k2)
			}
			return normInt(uint64(f), ci.k2)
		case bcUnsafe:
			return v // pointer laundering through uintptr
		}
		if ci.cl == bcOther || ci.cl == bcUnsafe {
			return v
		}
	case bcFloat:
		switch ci.cl {
		case bcInt:
			n, ok := v.(int64)
			if !ok {
				n = x.concInt(v, ci.k)
			}
			var f float64
			if ci.k.signed {
				f = float64(n)
			} else {
				f = float64(uint64(n))
			}
			if b := dst.(*types.Basic); b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case bcFloat:
			f := v.(float64)
			if b := dst.(*types.Basic); b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		}
	case bcComplex:
		return v
	case bcString:
		switch ci.cl {
		case bcString:
			return v
		case bcInt:
			return x.runeToStr(v, ci.k)
		}
		if s, ok := v.([]value); ok {
			et := ci.t.Underlying().(*types.Slice).Elem()
			_, k := classify(et)
			if k.w == 8 {
				return bytesToStr(s)
			}
			var out value = ""
			for _, r := range s {
				out = strConcat(out, x.runeToStr(r, intKind{32, true}))
			}
			return out
		}
	case bcUnsafe:
		return v
	case bcBool:
		return v
	}
	switch d := dst.(type) {
	case *types.Slice:
		if ci.cl == bcString {
			_, k := classify(d.Elem())
			if k.w == 8 {
				return strToBytes(v)
			}
			var out []value
			it := &strIter{s: v}
			for {
				ok, _, r := x.nextRune(it)
				if !ok {
					break
				}
				out = append(out, r)
			}
			if out == nil {
				out = []value{}
			}
			return out
		}
		return v
	case *types.Pointer:
		return v
	}
	return v
}

func (x *Exec) runeToStr(v value, k intKind) value {
	switch n := v.(type) {
	case int64:
		if n < 0 || n > math.MaxInt32 {
			n = 0xFFFD
		}
		return string(rune(n))
	case *Term:
		lt := x.ctx.Bin(OUlt, n, x.ctx.Const(0x80, n.w))
		if n.w == 8 || !k.signed || true {
			if x.branch(lt) {
				return normStr(symstr{{t: x.ctx.Resize(n, 8, false)}})
			}
			if n.w == 8 {
				// two byte encoding of U+0080..U+00FF
				c := x.ctx
				hi := c.Bin(OBOr, c.Const(0xC0, 8), c.Bin(OLShr, n, c.Const(6, 8)))
				lo := c.Bin(OBOr, c.Const(0x80, 8), c.Bin(OBAnd, n, c.Const(0x3f, 8)))
				return normStr(symstr{sb(hi), sb(lo)})
			}
		}
		r := x.concInt(n, k)
		return string(rune(r))
	}
	panic(unsupported("runeToStr"))
}

func sb(t *Term) sbyte {
	if t.op == OConst {
		return sbyte{c: byte(t.c)}
	}
	return sbyte{t: t}
}

func (x *Exec) nextRune(it *strIter) (bool, int, value) {
	n := strLen(it.s)
	if it.pos >= n {
		return false, 0, int64(0)
	}
	p := it.pos
	if s, ok := it.s.(string); ok {
		for i, r := range s[p:] {
			_ = i
			sz := len(string(r))
			if r == 0xFFFD {
				// may be an invalid byte
				sz = 1
				if len(s[p:]) >= 3 && s[p:p+3] == "\uFFFD" {
					sz = 3
				}
			}
			it.pos += sz
			return true, p, int64(r)
		}
	}
	ss := it.s.(symstr)
	b := ss[p]
	if b.t == nil {
		if b.c < 0x80 {
			it.pos++
			return true, p, int64(b.c)
		}
	} else if x.branch(x.ctx.Bin(OUlt, b.t, x.ctx.Const(0x80, 8))) {
		it.pos++
		return true, p, x.wrap(x.ctx.Resize(b.t, 32, false), intKind{32, true})
	}
	// multi-byte: decode through the real utf8 code
	fn := x.eng.lookupFunc("unicode/utf8", "DecodeRuneInString")
	r := x.callSSA(fn, []value{strSlice(it.s, p, n)}, nil).(tuple)
	sz := x.concInt(r[1], intKind{64, true})
	it.pos += int(sz)
	return true, p, r[0]
}

func (x *Exec) next(ci *cinstr, it value) value {
	switch it := it.(type) {
	case *strIter:
		ok, i, r := x.nextRune(it)
		return tuple{ok, int64(i), r}
	case *mapIter:
		for {
			rest := it.keys[it.pos:]
			live := 0
			for _, e := range rest {
				if !e.del {
					live++
				}
			}
			if live == 0 {
				return tuple{false, zeroOrNil(ci.t), zeroOrNil(ci.t2)}
			}
			if x.mapOrder && live > 1 {
				k := x.choose("maporder", len(rest))
				it.keys[it.pos], it.keys[it.pos+k] = it.keys[it.pos+k], it.keys[it.pos]
			}
			e := it.keys[it.pos]
			it.pos++
			if e.del {
				continue
			}
			return tuple{true, copyVal(e.k), copyVal(e.v)}
		}
	}
	panic(unsupported("next"))
}

func zeroOrNil(t types.Type) value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

func (x *Exec) typeAssert(ci *cinstr, v iface) value {
	ok := false
	var r value
	if it, isI := ci.t.Underlying().(*types.Interface); isI {
		if v.t != nil && x.implements(v, it) {
			ok = true
			r = v
		}
	} else if v.t != nil && types.Identical(v.t, ci.t) {
		ok = true
		r = copyVal(v.v)
	}
	if ci.comm {
		if !ok {
			r = zero(ci.t)
		}
		return tuple{r, ok}
	}
	if !ok {
		x.throw(fmt.Sprintf("interface conversion: interface is %v, not %s", v.t, ci.t))
	}
	return r
}

func (x *Exec) implements(v iface, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	return types.Implements(v.t, it)
}

func (fr *frame) slice(ci *cinstr) value {
	x := fr.x
	v := fr.get(ci.a)
	gi := func(r ref, def int) int {
		if r == -1<<30 {
			return def
		}
		return int(x.concInt(fr.get(r), intKind{64, true}))
	}
	switch s := v.(type) {
	case string, symstr:
		n := strLen(s)
		hi := gi(ci.c, n)
		lo := gi(ci.b, 0)
		if hi < 0 || hi > n {
			x.throw(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			x.throw(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return strSlice(s, lo, hi)
	case []value, *value:
		var a []value
		if p, ok := s.(*value); ok {
			if p == nil {
				x.throw("invalid memory address or nil pointer dereference")
			}
			a = []value((*p).(array))
		} else {
			a = s.([]value)
		}
		hi := gi(ci.c, len(a))
		lo := gi(ci.b, 0)
		mx := gi(ci.d, cap(a))
		if mx < 0 || mx > cap(a) || hi < 0 || hi > mx || lo < 0 || lo > hi {
			x.throw(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(a)))
		}
		if a == nil {
			return []value(nil)
		}
		return a[lo:hi:mx]
	}
	panic(unsupported(fmt.Sprintf("slice of %T", v)))
}

// ---- maps ----

func newMap(kt types.Type) *gomap {
	return &gomap{kt: kt, idx: map[value]*mapEnt{}}
}

func simpleKey(v value) (value, bool) {
	switch k := v.(type) {
	case int64, string, bool, float64, *value:
		return v, true
	case iface:
		switch k.v.(type) {
		case int64, string, bool, *value:
			if k.t != nil {
				return [2]value{k.t.String(), k.v}, true
			}
		}
		if k.t == nil {
			return [2]value{"nil", nil}, true
		}
	}
	return nil, false
}

func (x *Exec) mapGet(m *gomap, k value) *mapEnt {
	if sk, ok := simpleKey(k); ok && !m.sym {
		return m.idx[sk]
	}
	for _, e := range m.ents {
		if e.del {
			continue
		}
		r := x.eq(m.kt, e.k, k)
		if x.concBool(r) {
			return e
		}
	}
	return nil
}

func (x *Exec) mapSet(m *gomap, k, v value) {
	if e := x.mapGet(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEnt{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	if sk, ok := simpleKey(k); ok {
		m.idx[sk] = e
	} else {
		m.sym = true
	}
}

func (x *Exec) mapDelete(m *gomap, k value) {
	if m == nil {
		return
	}
	e := x.mapGet(m, k)
	if e == nil {
		return
	}
	e.del = true
	m.n--
	if sk, ok := simpleKey(e.k); ok {
		delete(m.idx, sk)
	}
	for i, f := range m.ents {
		if f == e {
			m.ents = append(append([]*mapEnt(nil), m.ents[:i]...), m.ents[i+1:]...)
			break
		}
	}
}

// ---- calls ----

func (fr *frame) doCall(ci *cinstr, c *ssa.CallCommon) value {
	x := fr.x
	if c.IsInvoke() {
		recv := fr.get(ci.a)
		args := make([]value, 0, len(ci.args)+1)
		args = append(args, nil)
		for _, r := range ci.args {
			args = append(args, copyArg(fr.get(r)))
		}
		return x.invoke(fr, recv, c.Method, args)
	}
	args := make([]value, len(ci.args))
	for i, r := range ci.args {
		args[i] = copyArg(fr.get(r))
	}
	switch f := fr.get(ci.a).(type) {
	case *ssa.Function:
		if f == nil {
			x.throw("invalid memory address or nil pointer dereference")
		}
		return x.callFn(fr, f, args, nil)
	case *ssa.Builtin:
		return x.builtin(fr, f, c, args)
	default:
		return x.call(fr, f, args)
	}
}

func copyArg(v value) value {
	switch v.(type) {
	case structure, array:
		return copyVal(v)
	}
	return v
}

// invoke calls an interface method; args[0] is filled with the receiver.
func (x *Exec) invoke(fr *frame, recv value, m *types.Func, args []value) value {
	if n, ok := recv.(iface); ok {
		if n.t == nil {
			x.throw("invalid memory address or nil pointer dereference")
		}
		if rt, ok := n.v.(rtype); ok {
			return x.rtypeMethod(rt, m.Name(), args[1:])
		}
		args[0] = copyArg(n.v)
		fn := x.method(n.t, m)
		if fn == nil {
			panic(unsupported("no method " + m.Name() + " on " + n.t.String()))
		}
		return x.callFn(fr, fn, args, nil)
	}
	panic(unsupported(fmt.Sprintf("invoke on %T", recv)))
}

func (x *Exec) method(t types.Type, m *types.Func) *ssa.Function {
	var pkg *types.Package
	if !m.Exported() {
		pkg = m.Pkg()
	}
	k := metKey{t, m.Name(), pkg}
	if f, ok := x.metCache[k]; ok {
		return f
	}
	x.eng.progMu.Lock()
	f := x.eng.prog.LookupMethod(t, m.Pkg(), m.Name())
	x.eng.progMu.Unlock()
	x.metCache[k] = f
	return f
}

func (fr *frame) prepDefer(ci *cinstr, c *ssa.CallCommon) deferred {
	x := fr.x
	if c.IsInvoke() {
		recv := fr.get(ci.a).(iface)
		if recv.t == nil {
			x.throw("invalid memory address or nil pointer dereference")
		}
		args := []value{copyArg(recv.v)}
		for _, r := range ci.args {
			args = append(args, copyArg(fr.get(r)))
		}
		return deferred{fn: x.method(recv.t, c.Method), args: args}
	}
	args := make([]value, len(ci.args))
	for i, r := range ci.args {
		args[i] = copyArg(fr.get(r))
	}
	f := fr.get(ci.a)
	if b, ok := f.(*ssa.Builtin); ok {
		return deferred{bi: b, args: args, call: c}
	}
	return deferred{fn: f, args: args}
}

func (x *Exec) builtin(fr *frame, b *ssa.Builtin, c *ssa.CallCommon, args []value) value {
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case string, symstr:
			return int64(strLen(v))
		case []value:
			return int64(len(v))
		case array:
			return int64(len(v))
		case *value:
			return int64(len((*v).(array)))
		case *gomap:
			if v == nil {
				return int64(0)
			}
			return int64(v.n)
		case *gochan:
			return int64(len(v.buf))
		}
	case "cap":
		switch v := args[0].(type) {
		case []value:
			return int64(cap(v))
		case array:
			return int64(len(v))
		case *value:
			return int64(len((*v).(array)))
		case *gochan:
			return int64(v.cap)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s, _ := args[0].([]value)
		var add []value
		switch a := args[1].(type) {
		case []value:
			add = a
		case string, symstr:
			add = strToBytes(a)
		case nil:
		}
		if len(add) == 0 {
			return args[0]
		}
		return appendVals(s, add)
	case "copy":
		d := args[0].([]value)
		var src []value
		switch a := args[1].(type) {
		case []value:
			src = a
		default:
			src = strToBytes(a)
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		if n > 0 {
			tmp := make([]value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(src[i])
			}
			for i := 0; i < n; i++ {
				storeVal(&d[i], tmp[i])
			}
		}
		return int64(n)
	case "delete":
		m, _ := args[0].(*gomap)
		x.mapDelete(m, args[1])
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *gomap:
			if v != nil {
				for _, e := range v.ents {
					e.del = true
				}
				v.ents = nil
				v.idx = map[value]*mapEnt{}
				v.n = 0
				v.sym = false
			}
		case []value:
			if c != nil {
				et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
				for i := range v {
					v[i] = zero(et)
				}
			}
		}
		return nil
	case "min", "max":
		cl, k := bcInt, intKind{64, true}
		var t types.Type
		if c != nil {
			t = c.Args[0].Type()
			cl, k = classify(t)
		}
		r := args[0]
		for _, a := range args[1:] {
			ci := &cinstr{cl: cl, k: k, t: t}
			var lt value
			if b.Name() == "min" {
				lt = x.binop(token.LSS, ci, a, r)
			} else {
				lt = x.binop(token.GTR, ci, a, r)
			}
			if x.concBool(lt) {
				r = a
			}
		}
		return r
	case "panic":
		panic(targetPanic{v: args[0], where: x.stackStr()})
	case "recover":
		if fr != nil && fr.caller != nil && fr.caller.pan != nil {
			p := fr.caller.pan
			fr.caller.pan = nil
			return p.v
		}
		return iface{}
	case "print", "println":
		return nil
	case "close":
		ch := args[0].(*gochan)
		if ch == nil || ch.closed {
			x.throw("close of closed channel")
		}
		ch.closed = true
		return nil
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			x.throw("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := int(x.concInt(args[1], intKind{64, true}))
		switch p := args[0].(type) {
		case slicePtr:
			if p.str != nil {
				return strSlice(p.str, 0, n)
			}
			return bytesToStr(p.s[:n])
		case *value:
			if n == 0 {
				return ""
			}
			if p != nil && n == 1 {
				return bytesToStr([]value{*p})
			}
		}
	case "SliceData":
		return slicePtr{s: args[0].([]value)[:cap(args[0].([]value))]}
	case "StringData":
		return slicePtr{str: args[0]}
	case "Slice":
		n := int(x.concInt(args[1], intKind{64, true}))
		if p, ok := args[0].(slicePtr); ok {
			if p.str != nil {
				return strToBytes(strSlice(p.str, 0, n))
			}
			return p.s[:n]
		}
	}
	panic(unsupported("builtin " + b.Name()))
}

func appendVals(s []value, add []value) []value {
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		tmp := make([]value, len(add))
		for i, e := range add {
			tmp[i] = copyVal(e)
		}
		for i, e := range tmp {
			r[len(s)+i] = e
		}
		return r
	}
	nc := cap(s) * 2
	if cap(s) >= 256 {
		nc = cap(s) + (cap(s)+768)/4
	}
	if nc < n {
		nc = n
	}
	r := make([]value, n, nc)
	copy(r, s)
	for i, e := range add {
		r[len(s)+i] = copyVal(e)
	}
	return r
}

// tryMerge executes a side-effect free region under guards instead of forking.
// Returns 0: not merged, 1: continue at join, 2: function returned.
func (fr *frame) tryMerge(cb *cblock, cond *Term) (res int) {
	x := fr.x
	mi := cb.merge
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case forkNeeded, targetPanic:
				res = 0
				return
			case pathAbort:
				res = 0
				return
			}
			panic(r)
		}
	}()
	x.noFork++
	defer func() { x.noFork-- }()
	c := x.ctx
	nb := len(fr.fi.blocks)
	_ = nb
	type edge struct{ from, to int }
	eg := map[edge]*Term{}
	add := func(f, t int, g *Term) {
		e := edge{f, t}
		if o, ok := eg[e]; ok {
			eg[e] = c.Or(o, g)
		} else {
			eg[e] = g
		}
	}
	bi := cb.b.Index
	add(bi, cb.b.Succs[0].Index, cond)
	add(bi, cb.b.Succs[1].Index, c.Not(cond))
	tmp := map[int32]value{}
	get := func(r ref) value {
		if r >= 0 {
			if v, ok := tmp[int32(r)]; ok {
				return v
			}
		}
		return fr.get(r)
	}
	var retVal value
	var retSet bool
	_, retK := intKind{}, intKind{}
	if mi.join < 0 {
		_, retK = classify(fr.fi.fn.Signature.Results().At(0).Type())
	}
	for _, b := range mi.order {
		blk := &fr.fi.blocks[b]
		g := c.tFalse
		for _, p := range blk.b.Preds {
			if t, ok := eg[edge{p.Index, b}]; ok {
				g = c.Or(g, t)
			}
		}
		if g == c.tFalse {
			continue
		}
		for k := range blk.ins {
			ci := &blk.ins[k]
			switch in := ci.in.(type) {
			case *ssa.Phi:
				v, ok := fr.mergePhi(blk, ci, func(p int) *Term { return eg[edge{p, b}] }, get)
				if !ok {
					return 0
				}
				tmp[ci.dst] = v
			case *ssa.Jump:
				add(b, blk.b.Succs[0].Index, g)
			case *ssa.If:
				switch cv := get(ci.a).(type) {
				case bool:
					if cv {
						add(b, blk.b.Succs[0].Index, g)
					} else {
						add(b, blk.b.Succs[1].Index, g)
					}
				case *Term:
					add(b, blk.b.Succs[0].Index, c.And(g, cv))
					add(b, blk.b.Succs[1].Index, c.And(g, c.Not(cv)))
				default:
					return 0
				}
			case *ssa.Return:
				v := get(ci.args[0])
				if !retSet {
					retVal, retSet = v, true
				} else {
					m, ok := x.mergeVal(g, v, retVal, retK)
					if !ok {
						return 0
					}
					retVal = m
				}
			case *ssa.UnOp:
				tmp[ci.dst] = fr.evalWith(ci, in, get)
			default:
				tmp[ci.dst] = fr.evalWith(ci, in, get)
			}
		}
	}
	if mi.join < 0 {
		if !retSet {
			return 0
		}
		fr.result = retVal
		x.eng.stats.merges.Add(1)
		return 2
	}
	jb := &fr.fi.blocks[mi.join]
	out := make([]value, jb.nphi)
	for k := 0; k < jb.nphi; k++ {
		v, ok := fr.mergePhi(jb, &jb.ins[k], func(p int) *Term { return eg[edge{p, mi.join}] }, get)
		if !ok {
			return 0
		}
		out[k] = v
	}
	for s, v := range tmp {
		fr.env[s] = v
	}
	for k := 0; k < jb.nphi; k++ {
		fr.env[jb.ins[k].dst] = out[k]
	}
	fr.block = mi.join
	fr.prev = -2
	x.eng.stats.merges.Add(1)
	return 1
}

// evalWith evaluates one instruction with operands taken through get.
func (fr *frame) evalWith(ci *cinstr, in ssa.Instruction, get func(ref) value) value {
	// operands are copied into a scratch frame view: temporarily store tmp values in env
	f2 := *fr
	f2.env = nil
	return (&overlayFrame{fr: &f2, get: get}).eval(ci)
}

type overlayFrame struct {
	fr  *frame
	get func(ref) value
}

func (o *overlayFrame) eval(ci *cinstr) value {
	// build a tiny environment for this instruction
	n := 0
	mapRef := func(r ref) ref {
		if r < 0 {
			return r
		}
		n++
		return ref(n - 1)
	}
	c2 := *ci
	env := make([]value, 0, 4)
	put := func(r ref) ref {
		if r < 0 {
			return r
		}
		env = append(env, o.get(r))
		return mapRef(r)
	}
	c2.a, c2.b, c2.c, c2.d = put(ci.a), put(ci.b), put(ci.c), put(ci.d)
	if len(ci.args) > 0 {
		c2.args = make([]ref, len(ci.args))
		for i, r := range ci.args {
			c2.args[i] = put(r)
		}
	}
	o.fr.env = env
	if call, ok := ci.in.(*ssa.Call); ok {
		return o.fr.doCall(&c2, &call.Call)
	}
	return o.fr.eval(&c2)
}

func (x *Exec) iteVal(g *Term, a, b value, k intKind) (value, bool) {
	if g.op == OConst {
		if g.c != 0 {
			return a, true
		}
		return b, true
	}
	switch av := a.(type) {
	case bool:
		switch bv := b.(type) {
		case bool:
			if av == bv {
				return a, true
			}
			return x.wrapBool(x.ctx.Ite(g, x.ctx.Bool(av), x.ctx.Bool(bv))), true
		case *Term:
			return x.wrapBool(x.ctx.Ite(g, x.ctx.Bool(av), bv)), true
		}
	case int64:
		switch bv := b.(type) {
		case int64:
			if av == bv {
				return a, true
			}
			return x.wrap(x.ctx.Ite(g, x.ctx.Const(uint64(av), k.w), x.ctx.Const(uint64(bv), k.w)), k), true
		case *Term:
			return x.wrap(x.ctx.Ite(g, x.ctx.Const(uint64(av), bv.w), bv), k), true
		}
	case *Term:
		switch bv := b.(type) {
		case bool:
			return x.wrapBool(x.ctx.Ite(g, av, x.ctx.Bool(bv))), true
		case int64:
			return x.wrap(x.ctx.Ite(g, av, x.ctx.Const(uint64(bv), av.w)), k), true
		case *Term:
			if av.w != bv.w {
				return nil, false
			}
			if av.w == 0 {
				return x.wrapBool(x.ctx.Ite(g, av, bv)), true
			}
			return x.wrap(x.ctx.Ite(g, av, bv), k), true
		}
	case string, symstr:
		switch b.(type) {
		case string, symstr:
			if strLen(a) != strLen(b) {
				return nil, false
			}
			p, q := toSym(a), toSym(b)
			out := make(symstr, len(p))
			for i := range p {
				if p[i] == q[i] {
					out[i] = p[i]
					continue
				}
				out[i] = sb(x.ctx.Ite(g, x.sbTerm(p[i]), x.sbTerm(q[i])))
			}
			return normStr(out), true
		}
	}
	return nil, false
}

// mergeVal merges two values at a join. Only booleans, bytes and runes are merged: symbolic
// lengths, counters and strings cost more downstream than the fork they avoid.
func (x *Exec) mergeVal(g *Term, a, b value, k intKind) (value, bool) {
	switch av := a.(type) {
	case int64:
		if bv, ok := b.(int64); ok && av == bv {
			return a, true
		}
		if k.w > 32 {
			return nil, false
		}
	case *Term:
		if bv, ok := b.(*Term); ok && bv == av {
			return a, true
		}
		if av.w > 32 {
			return nil, false
		}
	case string:
		if bv, ok := b.(string); ok && av == bv {
			return a, true
		}
		return nil, false
	case symstr:
		return nil, false
	}
	return x.iteVal(g, a, b, k)
}

func (fr *frame) mergePhi(blk *cblock, ci *cinstr, guard func(int) *Term, get func(ref) value) (value, bool) {
	x := fr.x
	ph := ci.in.(*ssa.Phi)
	_, k := classify(ph.Type())
	var acc value
	set := false
	for i, p := range blk.b.Preds {
		g := guard(p.Index)
		if g == nil || g == x.ctx.tFalse {
			continue
		}
		v := get(ci.args[i])
		if !set {
			acc, set = v, true
			continue
		}
		m, ok := x.mergeVal(g, v, acc, k)
		if !ok {
			return nil, false
		}
		acc = m
	}
	if !set {
		return nil, false
	}
	return acc, true
}
