package main

import (
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ref addresses an operand: >=0 environment slot, <0 constant pool entry ^ref.
type ref int32

type poolEnt struct {
	v    value
	g    *ssa.Global
	none bool
}

type cinstr struct {
	in   ssa.Instruction
	dst  int32
	a, b ref
	c, d ref
	args []ref
	cl   basicClass
	k    intKind
	cl2  basicClass
	k2   intKind
	t    types.Type
	t2   types.Type
	comm bool
}

type cblock struct {
	b      *ssa.BasicBlock
	ins    []cinstr
	nphi   int
	merge  *mergeInfo
	merged bool
}

type fnInfo struct {
	fn     *ssa.Function
	nslots int
	pool   []poolEnt
	blocks []cblock
	pdom   []int // immediate postdominator index or -1
	icept  interceptFn
	once   sync.Once
	extern bool
	name   string
}

type mergeInfo struct {
	ok    bool
	join  int
	order []int // region blocks in topological order
}

var fnInfos sync.Map

func infoOf(eng *Engine, fn *ssa.Function) *fnInfo {
	if v, ok := fnInfos.Load(fn); ok {
		fi := v.(*fnInfo)
		fi.once.Do(func() { fi.compile(eng) })
		return fi
	}
	v, _ := fnInfos.LoadOrStore(fn, &fnInfo{fn: fn})
	fi := v.(*fnInfo)
	fi.once.Do(func() { fi.compile(eng) })
	return fi
}

func (fi *fnInfo) compile(eng *Engine) {
	fn := fi.fn
	fi.name = fn.String()
	oname := fi.name
	if o := fn.Origin(); o != nil {
		oname = o.String()
	}
	if r, ok := eng.redirect[oname]; ok {
		fi.icept = redirectTo(r)
	} else if ic, ok := intercepts[oname]; ok {
		fi.icept = ic
	}
	if fn.Blocks == nil {
		fi.extern = true
		return
	}
	idx := map[ssa.Value]ref{}
	n := 0
	for _, p := range fn.Params {
		idx[p] = ref(n)
		n++
	}
	for _, p := range fn.FreeVars {
		idx[p] = ref(n)
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				idx[v] = ref(n)
				n++
			}
		}
	}
	fi.nslots = n
	getRef := func(v ssa.Value) ref {
		if v == nil {
			return -1 << 30
		}
		if r, ok := idx[v]; ok {
			return r
		}
		var pe poolEnt
		switch v := v.(type) {
		case *ssa.Const:
			pe.v = constValue(v)
		case *ssa.Global:
			pe.g = v
		case *ssa.Function:
			pe.v = v
		case *ssa.Builtin:
			pe.v = v
		default:
			panic(unsupported("operand " + v.String()))
		}
		fi.pool = append(fi.pool, pe)
		r := ^ref(len(fi.pool) - 1)
		idx[v] = r
		return r
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		cb.b = b
		for _, in := range b.Instrs {
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = int32(idx[v])
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.UnOp:
				ci.a = getRef(in.X)
				ci.cl, ci.k = classify(in.X.Type())
				ci.comm = in.CommaOk
				if in.Op == token.MUL {
					ci.t = in.Type()
				}
			case *ssa.BinOp:
				ci.a, ci.b = getRef(in.X), getRef(in.Y)
				ci.cl, ci.k = classify(in.X.Type())
				ci.cl2, ci.k2 = classify(in.Y.Type())
				ci.t = in.X.Type()
			case *ssa.Call:
				fi.callRefs(&ci, &in.Call, getRef)
			case *ssa.Defer:
				fi.callRefs(&ci, &in.Call, getRef)
			case *ssa.Go:
				fi.callRefs(&ci, &in.Call, getRef)
			case *ssa.ChangeInterface:
				ci.a = getRef(in.X)
			case *ssa.ChangeType:
				ci.a = getRef(in.X)
			case *ssa.Convert:
				ci.a = getRef(in.X)
				ci.cl, ci.k = classify(in.X.Type())
				ci.cl2, ci.k2 = classify(in.Type())
				ci.t, ci.t2 = in.X.Type(), in.Type()
			case *ssa.MultiConvert:
				ci.a = getRef(in.X)
				ci.cl, ci.k = classify(in.X.Type())
				ci.cl2, ci.k2 = classify(in.Type())
				ci.t, ci.t2 = in.X.Type(), in.Type()
			case *ssa.SliceToArrayPointer:
				ci.a = getRef(in.X)
				ci.t2 = in.Type()
			case *ssa.MakeInterface:
				ci.a = getRef(in.X)
				ci.t = in.X.Type()
			case *ssa.Extract:
				ci.a = getRef(in.Tuple)
			case *ssa.Slice:
				ci.a, ci.b, ci.c, ci.d = getRef(in.X), getRef(in.Low), getRef(in.High), getRef(in.Max)
			case *ssa.Return:
				for _, r := range in.Results {
					ci.args = append(ci.args, getRef(r))
				}
			case *ssa.RunDefers, *ssa.Jump:
			case *ssa.Panic:
				ci.a = getRef(in.X)
			case *ssa.Send:
				ci.a, ci.b = getRef(in.Chan), getRef(in.X)
			case *ssa.Store:
				ci.a, ci.b = getRef(in.Addr), getRef(in.Val)
			case *ssa.If:
				ci.a = getRef(in.Cond)
			case *ssa.MakeChan:
				ci.a = getRef(in.Size)
			case *ssa.Alloc:
				ci.t = in.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.MakeSlice:
				ci.a, ci.b = getRef(in.Len), getRef(in.Cap)
				ci.t = in.Type().Underlying().(*types.Slice).Elem()
			case *ssa.MakeMap:
				if mt, ok := in.Type().Underlying().(*types.Map); ok {
					ci.t = mt.Key()
				}
			case *ssa.Range:
				ci.a = getRef(in.X)
			case *ssa.Next:
				ci.a = getRef(in.Iter)
				tt := in.Type().(*types.Tuple)
				ci.t, ci.t2 = tt.At(1).Type(), tt.At(2).Type()
			case *ssa.FieldAddr:
				ci.a = getRef(in.X)
			case *ssa.Field:
				ci.a = getRef(in.X)
			case *ssa.IndexAddr:
				ci.a, ci.b = getRef(in.X), getRef(in.Index)
				_, ci.k2 = classify(in.Index.Type())
			case *ssa.Index:
				ci.a, ci.b = getRef(in.X), getRef(in.Index)
				_, ci.k2 = classify(in.Index.Type())
				ci.cl, ci.k = classify(in.Type())
			case *ssa.Lookup:
				ci.a, ci.b = getRef(in.X), getRef(in.Index)
				_, ci.k2 = classify(in.Index.Type())
				ci.comm = in.CommaOk
				if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
					ci.t = mt.Elem()
				}
			case *ssa.MapUpdate:
				ci.a, ci.b, ci.c = getRef(in.Map), getRef(in.Key), getRef(in.Value)
			case *ssa.TypeAssert:
				ci.a = getRef(in.X)
				ci.t = in.AssertedType
				ci.comm = in.CommaOk
			case *ssa.MakeClosure:
				ci.a = getRef(in.Fn)
				for _, bv := range in.Bindings {
					ci.args = append(ci.args, getRef(bv))
				}
			case *ssa.Phi:
				for _, e := range in.Edges {
					ci.args = append(ci.args, getRef(e))
				}
				cb.nphi = len(cb.ins) + 1
			case *ssa.Select:
				for _, s := range in.States {
					ci.args = append(ci.args, getRef(s.Chan), getRef(s.Send))
				}
			default:
				panic(unsupported("instruction " + in.String()))
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	fi.computePdom()
	for bi := range fi.blocks {
		cb := &fi.blocks[bi]
		if len(cb.ins) == 0 {
			continue
		}
		if _, ok := cb.ins[len(cb.ins)-1].in.(*ssa.If); ok {
			cb.merge = fi.mergeRegion(bi)
		}
	}
}

func (fi *fnInfo) callRefs(ci *cinstr, c *ssa.CallCommon, getRef func(ssa.Value) ref) {
	ci.a = getRef(c.Value)
	for _, a := range c.Args {
		ci.args = append(ci.args, getRef(a))
	}
}

// computePdom computes immediate postdominators (simple iterative algorithm).
func (fi *fnInfo) computePdom() {
	n := len(fi.blocks)
	// postorder on reverse graph via sets; functions are small enough for bitsets
	exit := n
	words := (n + 1 + 63) / 64
	pd := make([][]uint64, n+1)
	full := make([]uint64, words)
	for i := 0; i <= n; i++ {
		full[i>>6] |= 1 << (uint(i) & 63)
	}
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[exit] = make([]uint64, words)
	pd[exit][exit>>6] |= 1 << (uint(exit) & 63)
	if n > 1500 {
		fi.pdom = make([]int, n)
		for i := range fi.pdom {
			fi.pdom[i] = -1
		}
		return
	}
	changed := true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			cur := append([]uint64(nil), full...)
			succs := fi.blocks[i].b.Succs
			if len(succs) == 0 {
				copy(cur, pd[exit])
			} else {
				for _, s := range succs {
					for w := range cur {
						cur[w] &= pd[s.Index][w]
					}
				}
			}
			cur[i>>6] |= 1 << (uint(i) & 63)
			for w := range cur {
				if cur[w] != pd[i][w] {
					changed = true
				}
			}
			pd[i] = cur
		}
	}
	fi.pdom = make([]int, n)
	cnt := func(b []uint64) int {
		c := 0
		for i := 0; i <= n; i++ {
			if b[i>>6]>>(uint(i)&63)&1 != 0 {
				c++
			}
		}
		return c
	}
	sizes := make([]int, n+1)
	for i := 0; i <= n; i++ {
		sizes[i] = cnt(pd[i])
	}
	for i := 0; i < n; i++ {
		fi.pdom[i] = -1
		for j := 0; j <= n; j++ {
			if j != i && pd[i][j>>6]>>(uint(j)&63)&1 != 0 && sizes[j] == sizes[i]-1 {
				if j < n {
					fi.pdom[i] = j
				}
				break
			}
		}
	}
}

// mergeRegion finds a side-effect free acyclic region between block bi's If and its postdominator.
func (fi *fnInfo) mergeRegion(bi int) *mergeInfo {
	j := fi.pdom[bi]
	if j < 0 {
		// all paths must end in scalar returns
		res := fi.fn.Signature.Results()
		if res.Len() != 1 || fi.fn.Recover != nil {
			return nil
		}
		if c, _ := classify(res.At(0).Type()); c != bcBool && c != bcInt {
			return nil
		}
	}
	state := map[int]int{}
	var post []int
	ok := true
	var dfs func(b int)
	dfs = func(b int) {
		if !ok || b == j {
			return
		}
		if b == bi || state[b] == 1 {
			ok = false
			return
		}
		if state[b] == 2 {
			return
		}
		if len(state) > 40 {
			ok = false
			return
		}
		state[b] = 1
		if !fi.pureBlock(b, j < 0) {
			ok = false
			return
		}
		for _, s := range fi.blocks[b].b.Succs {
			dfs(s.Index)
		}
		state[b] = 2
		post = append(post, b)
	}
	for _, s := range fi.blocks[bi].b.Succs {
		dfs(s.Index)
	}
	if !ok {
		return nil
	}
	m := &mergeInfo{ok: true, join: j}
	for i := len(post) - 1; i >= 0; i-- {
		m.order = append(m.order, post[i])
	}
	if j < 0 {
		return m
	}
	// join phis must be scalars
	for i := 0; i < fi.blocks[j].nphi; i++ {
		ph, isPhi := fi.blocks[j].ins[i].in.(*ssa.Phi)
		if !isPhi {
			return nil
		}
		c, _ := classify(ph.Type())
		if c != bcBool && c != bcInt {
			return nil
		}
	}
	return m
}

func (fi *fnInfo) pureBlock(b int, allowRet bool) bool {
	for i := range fi.blocks[b].ins {
		ci := &fi.blocks[b].ins[i]
		switch in := ci.in.(type) {
		case *ssa.BinOp:
			switch in.Op {
			case token.QUO, token.REM, token.SHL, token.SHR:
				return false
			}
			if ci.cl != bcInt && ci.cl != bcBool && ci.cl != bcString {
				return false
			}
			if ci.cl == bcString && in.Op == token.ADD {
				return false
			}
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				return false
			}
			if in.Op == token.MUL {
				c, _ := classify(in.Type())
				if _, isPtr := in.Type().Underlying().(*types.Pointer); !isPtr && c != bcBool && c != bcInt && c != bcString {
					if _, isSl := in.Type().Underlying().(*types.Slice); !isSl {
						return false
					}
				}
			}
		case *ssa.Return:
			if !allowRet {
				return false
			}
		case *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Jump, *ssa.If, *ssa.ChangeType:
		case *ssa.Lookup:
			if _, isMap := in.X.Type().Underlying().(*types.Map); isMap {
				return false
			}
		case *ssa.Convert:
			if (ci.cl != bcInt && ci.cl != bcBool) || ci.cl2 != bcInt {
				return false
			}
		case *ssa.Phi:
			c, _ := classify(in.Type())
			if c != bcBool && c != bcInt {
				return false
			}
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				continue
			}
			return false
		default:
			return false
		}
	}
	return true
}
