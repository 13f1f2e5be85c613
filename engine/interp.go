package main

// A symbolic interpreter for go/ssa. Structure (heap, slices, lengths, types)
// is concrete; scalars are terms.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Structure []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Str struct {
	s   string
	sym []*Term // non-nil: symbolic bytes
}

type Iface struct {
	t types.Type
	v Value
}

type SymPtr struct {
	base []Value
	idx  *Term
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type Native struct {
	kind string
	data interface{}
}

type MapV struct {
	keys []Value
	vals []Value
	del  []bool
	n    int
}

type mapIter struct {
	m     *MapV
	order []int // remaining entries
	init  bool
}

type strIter struct {
	s Str
	i int
}

type targetPanic struct {
	v   Value
	msg string
}

type mergeAbort struct{ why string }
type pathEnd struct{ why string }

// ---- static information about functions

type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	ipdom []*ssa.BasicBlock
	dom   map[ssa.Value]*ssa.BasicBlock
	vals  []ssa.Value
	intr  intrinsic
	name  string
}

var (
	fnMu    sync.RWMutex
	fnCache = map[*ssa.Function]*fnInfo{}
)

func infoOf(fn *ssa.Function) *fnInfo {
	fnMu.RLock()
	fi := fnCache[fn]
	fnMu.RUnlock()
	if fi != nil {
		return fi
	}
	fi = &fnInfo{idx: map[ssa.Value]int{}, name: fn.String()}
	put := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.vals = append(fi.vals, v)
		fi.n++
	}
	for _, p := range fn.Params {
		put(p)
	}
	for _, p := range fn.FreeVars {
		put(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				put(v)
			}
		}
	}
	fi.ipdom = postdoms(fn)
	fi.intr = findIntrinsic(fi.name, fn)
	fnMu.Lock()
	fnCache[fn] = fi
	fnMu.Unlock()
	return fi
}

// postdoms computes immediate postdominators (nil = function exit).
func postdoms(fn *ssa.Function) []*ssa.BasicBlock {
	n := len(fn.Blocks)
	if n == 0 {
		return nil
	}
	// sets as bitsets; block n is the virtual exit
	W := (n + 64) / 64
	full := make([]uint64, W)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << (i % 64)
	}
	pd := make([][]uint64, n+1)
	for i := range pd {
		pd[i] = append([]uint64{}, full...)
	}
	pd[n] = make([]uint64, W)
	pd[n][n/64] |= 1 << (n % 64)
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			nw := append([]uint64{}, full...)
			and := func(s []uint64) {
				for k := range nw {
					nw[k] &= s[k]
				}
			}
			cnt := 0
			for _, s := range b.Succs {
				and(pd[s.Index])
				cnt++
			}
			if cnt == 0 {
				and(pd[n])
			}
			nw[i/64] |= 1 << (i % 64)
			for k := range nw {
				if nw[k] != pd[i][k] {
					ch = true
				}
			}
			pd[i] = nw
		}
	}
	count := func(s []uint64) int {
		c := 0
		for i := 0; i <= n; i++ {
			if s[i/64]>>(i%64)&1 == 1 {
				c++
			}
		}
		return c
	}
	out := make([]*ssa.BasicBlock, n)
	for i := 0; i < n; i++ {
		// the immediate one has the largest postdominator set among the strict ones
		best, bc := -1, -1
		for j := 0; j < n; j++ {
			if j != i && pd[i][j/64]>>(j%64)&1 == 1 {
				if c := count(pd[j]); c > bc {
					best, bc = j, c
				}
			}
		}
		if best >= 0 {
			out[i] = fn.Blocks[best]
		}
	}
	return out
}

// ---- frames

type deferred struct {
	fn   Value
	args []Value
	call *ssa.Defer
}

type frame struct {
	p         *Path
	fn        *ssa.Function
	fi        *fnInfo
	caller    *frame
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	env       []Value
	defers    []deferred
	result    Value
	done      bool
	phis      bool // phis of block already evaluated
	panicking bool
	pv        *targetPanic
	recovered bool
	depth     int
}

func (fr *frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return fr.p.constVal(v)
	case *ssa.Global:
		return fr.p.global(v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	}
	i, ok := fr.fi.idx[v]
	if !ok {
		unsupported("no register for %s", v.Name())
	}
	return fr.env[i]
}

func (fr *frame) set(v ssa.Value, x Value) { fr.env[fr.fi.idx[v]] = x }

func (p *Path) constVal(c *ssa.Const) Value {
	t := c.Type().Underlying()
	if c.Value == nil {
		return p.zero(c.Type())
	}
	if bt, ok := t.(*types.Basic); ok {
		switch {
		case bt.Info()&types.IsBoolean != 0:
			return p.b.Bool(constant.BoolVal(c.Value))
		case bt.Info()&types.IsInteger != 0:
			w := width(bt)
			if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return p.b.BV(uint64(v), w)
			}
			v, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return p.b.BV(v, w)
		case bt.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if p.b.mode == R && (math.IsInf(f, 0)) {
				unsupported("infinite constant")
			}
			return p.b.Float(f)
		case bt.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return Str{s: constant.StringVal(c.Value)}
			}
			v, _ := constant.Int64Val(c.Value)
			return Str{s: string(rune(v))}
		}
	}
	unsupported("constant %s of type %s", c, c.Type())
	return nil
}

func width(bt *types.Basic) uint8 {
	switch bt.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSignedT(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsUnsigned == 0
}

func isFloatT(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsFloat != 0
}

func (p *Path) zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return p.b.False
		case t.Info()&types.IsInteger != 0:
			return p.b.BV(0, width(t))
		case t.Info()&types.IsFloat != 0:
			return p.b.Float(0)
		case t.Info()&types.IsString != 0:
			return Str{}
		case t.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case t.Kind() == types.UntypedNil:
			return nil
		case t.Info()&types.IsComplex != 0:
			return Tuple{p.b.Float(0), p.b.Float(0)}
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Array:
		a := make(Array, t.Len())
		for i := range a {
			a[i] = p.zero(t.Elem())
		}
		return a
	case *types.Struct:
		s := make(Structure, t.NumFields())
		for i := range s {
			s[i] = p.zero(t.Field(i).Type())
		}
		return s
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Chan:
		return (*Native)(nil)
	case *types.Tuple:
		r := make(Tuple, t.Len())
		for i := range r {
			r[i] = p.zero(t.At(i).Type())
		}
		return r
	}
	unsupported("zero of %s", t)
	return nil
}

func sizeOf(t types.Type) int64 {
	defer func() { recover() }()
	return types.SizesFor("gc", "amd64").Sizeof(t)
}

// copyVal copies aggregates.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Structure:
		c := make(Structure, len(v))
		for i := range v {
			c[i] = copyVal(v[i])
		}
		return c
	case Array:
		c := make(Array, len(v))
		for i := range v {
			c[i] = copyVal(v[i])
		}
		return c
	}
	return v
}

// ---- memory

type logEnt struct {
	ptr *Value
	old Value
}

func (p *Path) write(ptr *Value, v Value) {
	if n := len(p.logs); n > 0 {
		p.logs[n-1] = append(p.logs[n-1], logEnt{ptr, *ptr})
	}
	*ptr = v
}

func (p *Path) store(addr Value, v Value) {
	switch a := addr.(type) {
	case *Value:
		if a == nil {
			p.nilDeref()
		}
		p.storeCell(a, v)
	case *SymPtr:
		t := v.(*Term)
		for i := range a.base {
			c := p.b.Eq(a.idx, p.b.BV(uint64(i), a.idx.s.W))
			if c.isFalse() {
				continue
			}
			p.write(&a.base[i], p.b.Ite(c, t, a.base[i].(*Term)))
		}
	default:
		unsupported("store through %T", addr)
	}
}

func (p *Path) storeCell(a *Value, v Value) {
	switch v := v.(type) {
	case Structure:
		if old, ok := (*a).(Structure); ok && len(old) == len(v) {
			tmp := copyVal(v).(Structure)
			for i := range tmp {
				p.storeCell(&old[i], tmp[i])
			}
			return
		}
	case Array:
		if old, ok := (*a).(Array); ok && len(old) == len(v) {
			tmp := copyVal(v).(Array)
			for i := range tmp {
				p.storeCell(&old[i], tmp[i])
			}
			return
		}
	}
	p.write(a, copyVal(v))
}

func (p *Path) load(addr Value) Value {
	switch a := addr.(type) {
	case *Value:
		if a == nil {
			p.nilDeref()
		}
		if n, ok := (*a).(*Native); ok && n != nil && n.kind == "uninit" {
			unsupported("global %v of a package whose initialiser is not modelled", n.data)
		}
		return copyVal(*a)
	case *SymPtr:
		var r *Term
		for i := len(a.base) - 1; i >= 0; i-- {
			c := p.b.Eq(a.idx, p.b.BV(uint64(i), a.idx.s.W))
			if c.isFalse() {
				continue
			}
			if r == nil {
				r = a.base[i].(*Term)
			} else {
				r = p.b.Ite(c, a.base[i].(*Term), r)
			}
		}
		return r
	}
	unsupported("load through %T", addr)
	return nil
}

func (p *Path) nilDeref() { p.rtPanic("invalid memory address or nil pointer dereference") }

func (p *Path) rtPanic(msg string) {
	panic(targetPanic{v: p.errorIface("runtime error: " + msg), msg: "runtime error: " + msg})
}

// ---- calls

func (p *Path) callValue(caller *frame, fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			p.nilDeref()
		}
		return p.callFn(caller, f, args, nil)
	case *Closure:
		return p.callFn(caller, f.fn, args, f.env)
	case *Native:
		if f == nil {
			p.nilDeref()
		}
		if fn, ok := f.data.(func([]Value) Value); ok {
			return fn(args)
		}
	case *ssa.Builtin:
		return p.builtin(caller, f, args, nil)
	}
	unsupported("call of %T", fv)
	return nil
}

func (p *Path) callFn(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := infoOf(fn)
	if fi.intr != nil {
		return fi.intr(p, caller, fn, args)
	}
	return p.callBody(caller, fn, args, env)
}

// callBody interprets the body of fn, whether or not it has a model.
func (p *Path) callBody(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := infoOf(fn)
	if fn.Blocks == nil {
		unsupported("function without body: %s", fi.name)
	}
	if fn.Pkg != nil {
		p.note(fn)
	}
	fr := &frame{p: p, fn: fn, fi: fi, caller: caller, env: make([]Value, fi.n)}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > 400 {
			panic(pathEnd{"call depth"})
		}
	}
	for i, prm := range fn.Params {
		fr.env[fi.idx[prm]] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fi.idx[fv]] = env[i]
	}
	fr.block = fn.Blocks[0]
	if fn.Recover != nil {
		fr.runProtected()
	} else {
		fr.runUntil(nil)
	}
	return fr.result
}

// runProtected runs a function that has defers.
func (fr *frame) runProtected() {
	ok := false
	func() {
		defer func() {
			if ok {
				return
			}
			e := recover()
			if tp, is := e.(targetPanic); is {
				fr.panicking = true
				fr.pv = &tp
				return
			}
			panic(e)
		}()
		fr.runUntil(nil)
		ok = true
	}()
	if ok {
		return
	}
	// panicking: run the deferred calls
	fr.runDefers()
	if fr.panicking {
		panic(*fr.pv)
	}
	// recovered
	fr.done = false
	fr.block = fr.fn.Recover
	fr.prev = nil
	fr.runUntil(nil)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				e := recover()
				if tp, is := e.(targetPanic); is {
					fr.panicking = true
					fr.pv = &tp
					return
				}
				panic(e)
			}()
			fr.p.callValueD(fr, d.fn, d.args)
			ok = true
		}()
	}
}

// callValueD calls a deferred function; its frame's caller is fr.
func (p *Path) callValueD(fr *frame, fv Value, args []Value) {
	p.callValue(fr, fv, args)
}

// runUntil executes blocks until control is about to enter stop, or the function returns.
func (fr *frame) runUntil(stop *ssa.BasicBlock) {
	p := fr.p
	for !fr.done && (fr.block != stop || stop == nil) {
		b := fr.block
		i := 0
		// phis
		n := 0
		for n < len(b.Instrs) {
			if _, ok := b.Instrs[n].(*ssa.Phi); !ok {
				break
			}
			n++
		}
		if n > 0 && !fr.phis {
			vals := fr.phiVals(b, n)
			for k := 0; k < n; k++ {
				fr.set(b.Instrs[k].(*ssa.Phi), vals[k])
			}
		}
		fr.phis = false
		i = n
		jumped := false
		for ; i < len(b.Instrs) && !jumped; i++ {
			p.steps++
			if p.steps > p.maxSteps {
				if len(p.logs) > 0 {
					panic(mergeAbort{"steps"})
				}
				panic(pathEnd{"steps"})
			}
			jumped = fr.exec(b.Instrs[i])
		}
		if !jumped {
			unsupported("block without terminator")
		}
	}
}

func (fr *frame) phiVals(b *ssa.BasicBlock, n int) []Value {
	k := -1
	for j, pr := range b.Preds {
		if pr == fr.prev {
			k = j
			break
		}
	}
	if k < 0 {
		unsupported("phi without predecessor in %s", fr.fn)
	}
	vals := make([]Value, n)
	for i := 0; i < n; i++ {
		vals[i] = fr.get(b.Instrs[i].(*ssa.Phi).Edges[k])
	}
	return vals
}

func (fr *frame) jump(to *ssa.BasicBlock) {
	fr.prev, fr.block = fr.block, to
}

// exec executes one instruction; true when control left the block.
func (fr *frame) exec(in ssa.Instruction) bool {
	p := fr.p
	b := p.b
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		v := new(Value)
		*v = p.zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.set(in, v)
	case *ssa.UnOp:
		fr.set(in, fr.unop(in))
	case *ssa.BinOp:
		fr.set(in, p.binop(in.Op, in.X.Type(), fr.get(in.X), fr.get(in.Y), in.Y.Type()))
	case *ssa.Call:
		fv, args := fr.prepCall(&in.Call)
		if bi, ok := fv.(*ssa.Builtin); ok {
			fr.set(in, p.builtin(fr, bi, args, &in.Call))
		} else {
			fr.set(in, p.callValue(fr, fv, args))
		}
	case *ssa.ChangeInterface:
		fr.set(in, fr.get(in.X))
	case *ssa.ChangeType:
		fr.set(in, fr.get(in.X))
	case *ssa.Convert:
		fr.set(in, p.convert(in.X.Type(), in.Type(), fr.get(in.X)))
	case *ssa.MakeInterface:
		fr.set(in, Iface{t: in.X.Type(), v: fr.get(in.X)})
	case *ssa.Extract:
		fr.set(in, fr.get(in.Tuple).(Tuple)[in.Index])
	case *ssa.Slice:
		fr.set(in, fr.slice(in))
	case *ssa.SliceToArrayPointer:
		unsupported("slice to array pointer")
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
		case 1:
			fr.result = fr.get(in.Results[0])
		default:
			r := make(Tuple, len(in.Results))
			for i, x := range in.Results {
				r[i] = fr.get(x)
			}
			fr.result = r
		}
		fr.done = true
		return true
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			p.effect("defer")
		}
		fr.runDefers()
		if fr.panicking {
			panic(*fr.pv)
		}
	case *ssa.Panic:
		v := fr.get(in.X)
		panic(targetPanic{v: v, msg: p.showPanic(v)})
	case *ssa.Store:
		p.store(fr.get(in.Addr), fr.get(in.Val))
	case *ssa.If:
		return fr.doIf(in)
	case *ssa.Jump:
		fr.jump(fr.block.Succs[0])
		return true
	case *ssa.Defer:
		p.effect("defer")
		fv, args := fr.prepCall(&in.Call)
		fr.defers = append(fr.defers, deferred{fn: fv, args: args, call: in})
	case *ssa.Go:
		unsupported("go statement")
	case *ssa.MakeClosure:
		var env []Value
		for _, x := range in.Bindings {
			env = append(env, fr.get(x))
		}
		fr.set(in, &Closure{in.Fn.(*ssa.Function), env})
	case *ssa.MakeMap:
		fr.set(in, p.newMap())
	case *ssa.MakeSlice:
		fr.set(in, p.makeSlice(in.Type(), fr.get(in.Len), fr.get(in.Cap), in.Len.Type()))
	case *ssa.MakeChan:
		fr.set(in, &Native{kind: "chan"})
	case *ssa.FieldAddr:
		a, ok := fr.get(in.X).(*Value)
		if !ok {
			unsupported("field of %T", fr.get(in.X))
		}
		if a == nil {
			p.nilDeref()
		}
		s, ok := (*a).(Structure)
		if !ok {
			unsupported("field of opaque value in %s: %s (%T)", fr.fn, in, *a)
		}
		fr.set(in, &s[in.Field])
	case *ssa.Field:
		s, ok := fr.get(in.X).(Structure)
		if !ok {
			unsupported("field of opaque value in %s: %s", fr.fn, in)
		}
		fr.set(in, copyVal(s[in.Field]))
	case *ssa.IndexAddr:
		x := fr.get(in.X)
		var arr []Value
		switch x := x.(type) {
		case Slice:
			arr = x
		case *Value:
			if x == nil {
				p.nilDeref()
			}
			arr = (*x).(Array)
		default:
			unsupported("index of %T", x)
		}
		idx := p.toInt(fr.get(in.Index), in.Index.Type())
		i := p.index(idx, len(arr), arr)
		if i < 0 {
			fr.set(in, &SymPtr{arr, idx})
		} else {
			fr.set(in, &arr[i])
		}
	case *ssa.Index:
		idx := p.toInt(fr.get(in.Index), in.Index.Type())
		switch x := fr.get(in.X).(type) {
		case Array:
			i := p.index(idx, len(x), x)
			if i < 0 {
				fr.set(in, p.load(&SymPtr{x, idx}))
			} else {
				fr.set(in, copyVal(x[i]))
			}
		case Str:
			fr.set(in, p.strIndex(x, idx))
		default:
			unsupported("index of %T", x)
		}
	case *ssa.Lookup:
		switch x := fr.get(in.X).(type) {
		case *MapV:
			v, ok := p.mapGet(x, fr.get(in.Index))
			if !ok {
				v = p.zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			v = copyVal(v)
			if in.CommaOk {
				fr.set(in, Tuple{v, b.Bool(ok)})
			} else {
				fr.set(in, v)
			}
		case Str:
			fr.set(in, p.strIndex(x, p.toInt(fr.get(in.Index), in.Index.Type())))
		default:
			unsupported("lookup in %T", x)
		}
	case *ssa.MapUpdate:
		p.mapSet(fr.get(in.Map).(*MapV), fr.get(in.Key), fr.get(in.Value))
	case *ssa.TypeAssert:
		fr.set(in, fr.typeAssert(in))
	case *ssa.Range:
		switch x := fr.get(in.X).(type) {
		case *MapV:
			it := &mapIter{m: x}
			if x != nil {
				for i := range x.keys {
					if !x.del[i] {
						it.order = append(it.order, i)
					}
				}
			}
			fr.set(in, it)
		case Str:
			fr.set(in, &strIter{s: x})
		default:
			unsupported("range over %T", x)
		}
	case *ssa.Next:
		fr.set(in, p.next(fr.get(in.Iter), in))
	case *ssa.Send, *ssa.Select:
		unsupported("channel operation")
	default:
		unsupported("instruction %T", in)
	}
	return false
}

func (p *Path) showPanic(v Value) string {
	if i, ok := v.(Iface); ok {
		switch x := i.v.(type) {
		case Str:
			return p.strText(x)
		}
		if i.t != nil {
			return "value of type " + i.t.String()
		}
	}
	return fmt.Sprintf("%T", v)
}

func (fr *frame) prepCall(c *ssa.CallCommon) (Value, []Value) {
	p := fr.p
	var args []Value
	if c.Method == nil {
		fv := fr.get(c.Value)
		for _, a := range c.Args {
			args = append(args, fr.get(a))
		}
		return fv, args
	}
	recv, ok := fr.get(c.Value).(Iface)
	if !ok {
		unsupported("invoke on %T", fr.get(c.Value))
	}
	if recv.t == nil {
		p.nilDeref()
	}
	fn := p.method(recv.t, c.Method)
	args = append(args, recv.v)
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return fn, args
}

var methMu sync.Mutex

func (p *Path) method(t types.Type, m *types.Func) *ssa.Function {
	methMu.Lock()
	defer methMu.Unlock()
	fn := p.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		unsupported("no method %s on %s", m.Name(), t)
	}
	return fn
}

// callMethod calls a method of an interface value by name.
func (p *Path) callMethod(fr *frame, recv Iface, name string, args ...Value) Value {
	if recv.t == nil {
		p.nilDeref()
	}
	methMu.Lock()
	fn := p.prog.LookupMethod(recv.t, nil, name)
	methMu.Unlock()
	if fn == nil {
		unsupported("no method %s on %s", name, recv.t)
	}
	return p.callFn(fr, fn, append([]Value{recv.v}, args...), nil)
}

func (p *Path) toInt(v Value, t types.Type) *Term {
	x, ok := v.(*Term)
	if !ok {
		unsupported("index of type %T", v)
	}
	if x.s.W == 64 {
		return x
	}
	if isSignedT(t) {
		return p.b.Sext(x, 64)
	}
	return p.b.Zext(x, 64)
}

// index checks bounds; returns a concrete index, or -1 when it stays symbolic.
func (p *Path) index(idx *Term, n int, arr []Value) int {
	b := p.b
	if idx.isConst() {
		i := int64(idx.c)
		if i < 0 || i >= int64(n) {
			p.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	ok := b.cmp(OUlt, idx, b.BV(uint64(n), 64))
	if !p.decide(ok) {
		p.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	if n <= 64 && n > 0 {
		scalar := true
		for i := range arr {
			if _, is := arr[i].(*Term); !is {
				scalar = false
				break
			}
		}
		if scalar {
			return -1
		}
	}
	return int(p.concretize(idx))
}

func (p *Path) strBytes(s Str) []*Term {
	if s.sym != nil {
		return s.sym
	}
	out := make([]*Term, len(s.s))
	for i := range out {
		out[i] = p.b.BV(uint64(s.s[i]), 8)
	}
	return out
}

func (s Str) length() int {
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}

func mkStr(bs []*Term) Str {
	buf := make([]byte, len(bs))
	for i, t := range bs {
		if !t.isConst() {
			return Str{sym: append([]*Term{}, bs...)}
		}
		buf[i] = byte(t.c)
	}
	return Str{s: string(buf)}
}

func (p *Path) strText(s Str) string {
	if s.sym == nil {
		return s.s
	}
	out := ""
	for _, t := range s.sym {
		if t.isConst() {
			out += string(rune(t.c))
		} else {
			out += "?"
		}
	}
	return out
}

func (p *Path) strIndex(s Str, idx *Term) Value {
	bs := p.strBytes(s)
	arr := make([]Value, len(bs))
	for i := range bs {
		arr[i] = bs[i]
	}
	i := p.index(idx, len(arr), arr)
	if i < 0 {
		return p.load(&SymPtr{arr, idx})
	}
	return arr[i]
}

func (p *Path) strEq(a, b Str) *Term {
	if a.sym == nil && b.sym == nil {
		return p.b.Bool(a.s == b.s)
	}
	x, y := p.strBytes(a), p.strBytes(b)
	if len(x) != len(y) {
		return p.b.False
	}
	r := p.b.True
	for i := range x {
		r = p.b.And(r, p.b.Eq(x[i], y[i]))
	}
	return r
}

func (p *Path) strLess(a, b Str) *Term {
	if a.sym == nil && b.sym == nil {
		return p.b.Bool(a.s < b.s)
	}
	x, y := p.strBytes(a), p.strBytes(b)
	var rec func(i int) *Term
	rec = func(i int) *Term {
		if i == len(y) {
			return p.b.False
		}
		if i == len(x) {
			return p.b.True
		}
		return p.b.Or(p.b.cmp(OUlt, x[i], y[i]), p.b.And(p.b.Eq(x[i], y[i]), rec(i+1)))
	}
	return rec(0)
}

// ---- maps

func (p *Path) newMap() *MapV {
	p.mapSerial++
	return &MapV{n: p.mapSerial - 1}
}

func (p *Path) keyEq(a, b Value) *Term { return p.equal(a, b) }

func (p *Path) mapFind(m *MapV, k Value) int {
	if m == nil {
		return -1
	}
	for i := range m.keys {
		if m.del[i] {
			continue
		}
		c := p.keyEq(m.keys[i], k)
		if c.isFalse() {
			continue
		}
		if c.isTrue() || p.decide(c) {
			return i
		}
	}
	return -1
}

func (p *Path) mapGet(m *MapV, k Value) (Value, bool) {
	i := p.mapFind(m, k)
	if i < 0 {
		return nil, false
	}
	return m.vals[i], true
}

func (p *Path) mapSet(m *MapV, k, v Value) {
	if m == nil {
		panic(targetPanic{v: p.errorIface("assignment to entry in nil map"), msg: "assignment to entry in nil map"})
	}
	if len(p.logs) > 0 && m.n < p.specMaps[len(p.specMaps)-1] {
		p.effect("map update")
	}
	i := p.mapFind(m, k)
	if i >= 0 {
		m.vals[i] = copyVal(v)
		return
	}
	m.keys = append(m.keys, copyVal(k))
	m.vals = append(m.vals, copyVal(v))
	m.del = append(m.del, false)
}

func (m *MapV) length() int {
	if m == nil {
		return 0
	}
	n := 0
	for _, d := range m.del {
		if !d {
			n++
		}
	}
	return n
}

func (p *Path) next(it Value, in *ssa.Next) Value {
	switch it := it.(type) {
	case *mapIter:
		p.effect("map iteration")
		for len(it.order) > 0 {
			// entries deleted meanwhile are skipped
			k := 0
			if p.mapOrder == "all" && len(it.order) > 1 {
				k = p.choose(len(it.order))
			} else if p.mapOrder == "ends" && !it.init && len(it.order) > 1 {
				it.init = true
				if p.choose(2) == 1 {
					for i, j := 0, len(it.order)-1; i < j; i, j = i+1, j-1 {
						it.order[i], it.order[j] = it.order[j], it.order[i]
					}
				}
			}
			e := it.order[k]
			it.order = append(append([]int{}, it.order[:k]...), it.order[k+1:]...)
			if it.m.del[e] {
				continue
			}
			return Tuple{p.b.True, copyVal(it.m.keys[e]), copyVal(it.m.vals[e])}
		}
		mt := in.Type().(*types.Tuple)
		z := func(i int) Value {
			if bt, ok := mt.At(i).Type().(*types.Basic); ok && bt.Kind() == types.Invalid {
				return nil
			}
			return p.zero(mt.At(i).Type())
		}
		return Tuple{p.b.False, z(1), z(2)}
	case *strIter:
		if it.s.sym != nil {
			unsupported("range over a symbolic string")
		}
		if it.i >= len(it.s.s) {
			return Tuple{p.b.False, p.b.BV(0, 64), p.b.BV(0, 32)}
		}
		i := it.i
		for j, r := range it.s.s[i:] {
			if j > 0 {
				it.i = i + j
				break
			}
			_ = r
			it.i = len(it.s.s)
		}
		r := []rune(it.s.s[i:it.i])
		return Tuple{p.b.True, p.b.BV(uint64(i), 64), p.b.BV(uint64(r[0]), 32)}
	}
	unsupported("next on %T", it)
	return nil
}

// ---- equality of values (Go ==)

func (p *Path) equal(x, y Value) *Term {
	b := p.b
	switch a := x.(type) {
	case *Term:
		c, ok := y.(*Term)
		if !ok {
			unsupported("compare %T and %T", x, y)
		}
		if a.s.K == SF {
			return b.FEq(a, c)
		}
		return b.Eq(a, c)
	case Str:
		return p.strEq(a, y.(Str))
	case *Value:
		c, ok := y.(*Value)
		if !ok {
			return b.False
		}
		return b.Bool(a == c)
	case Iface:
		c := y.(Iface)
		if a.t == nil || c.t == nil {
			return b.Bool(a.t == nil && c.t == nil)
		}
		if !types.Identical(a.t, c.t) {
			return b.False
		}
		if !types.Comparable(a.t) {
			p.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return p.equal(a.v, c.v)
	case Structure:
		c := y.(Structure)
		r := b.True
		for i := range a {
			r = b.And(r, p.equal(a[i], c[i]))
		}
		return r
	case Array:
		c := y.(Array)
		r := b.True
		for i := range a {
			r = b.And(r, p.equal(a[i], c[i]))
		}
		return r
	case Slice:
		c, ok := y.(Slice)
		if ok && c == nil {
			return b.Bool(a == nil)
		}
		if ok && a == nil {
			return b.Bool(c == nil)
		}
	case *MapV:
		c, ok := y.(*MapV)
		if ok {
			return b.Bool(a == c)
		}
	case *ssa.Function:
		switch c := y.(type) {
		case *ssa.Function:
			return b.Bool(a == c)
		}
		return b.False
	case *Closure:
		return b.Bool(x == y)
	case *Native:
		c, ok := y.(*Native)
		return b.Bool(ok && a == c)
	}
	unsupported("compare %T and %T", x, y)
	return nil
}

// ---- operators

func (fr *frame) unop(in *ssa.UnOp) Value {
	p := fr.p
	x := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		return p.load(x)
	case token.NOT:
		return p.b.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if t.s.K == SF {
			return p.b.FNeg(t)
		}
		return p.b.Neg(t)
	case token.XOR:
		return p.b.BNot(x.(*Term))
	}
	unsupported("unary %s", in.Op)
	return nil
}

func (p *Path) binop(op token.Token, xt types.Type, x, y Value, yt types.Type) Value {
	b := p.b
	switch op {
	case token.EQL:
		return p.equal(x, y)
	case token.NEQ:
		return b.Not(p.equal(x, y))
	}
	if s, ok := x.(Str); ok {
		t := y.(Str)
		switch op {
		case token.ADD:
			if s.sym == nil && t.sym == nil {
				return Str{s: s.s + t.s}
			}
			return mkStr(append(append([]*Term{}, p.strBytes(s)...), p.strBytes(t)...))
		case token.LSS:
			return p.strLess(s, t)
		case token.GTR:
			return p.strLess(t, s)
		case token.LEQ:
			return b.Not(p.strLess(t, s))
		case token.GEQ:
			return b.Not(p.strLess(s, t))
		}
	}
	u, ok1 := x.(*Term)
	v, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		unsupported("binary %s on %T", op, x)
	}
	if u.s.K == SF {
		// single precision: double rounding is harmless for these
		round := func(t *Term) *Term { return t }
		if xt.Underlying().(*types.Basic).Kind() == types.Float32 {
			round = p.toF32
		}
		switch op {
		case token.ADD:
			return round(b.FAdd(u, v))
		case token.SUB:
			return round(b.FSub(u, v))
		case token.MUL:
			return round(b.FMul(u, v))
		case token.QUO:
			return round(b.FDiv(u, v))
		case token.LSS:
			return b.FLt(u, v)
		case token.LEQ:
			return b.FLe(u, v)
		case token.GTR:
			return b.FLt(v, u)
		case token.GEQ:
			return b.FLe(v, u)
		}
		unsupported("float %s", op)
	}
	if u.s.K == SBool {
		switch op {
		case token.AND, token.LAND:
			return b.And(u, v)
		case token.OR, token.LOR:
			return b.Or(u, v)
		}
	}
	sg := isSignedT(xt)
	pick := func(s, un Op) Op {
		if sg {
			return s
		}
		return un
	}
	switch op {
	case token.ADD:
		return b.bin(OAdd, u, v)
	case token.SUB:
		return b.bin(OSub, u, v)
	case token.MUL:
		return b.bin(OMul, u, v)
	case token.QUO, token.REM:
		if !p.decide(b.Not(b.Eq(v, b.BV(0, v.s.W)))) {
			p.rtPanic("integer divide by zero")
		}
		if op == token.QUO {
			return b.bin(pick(OSDiv, OUDiv), u, v)
		}
		return b.bin(pick(OSRem, OURem), u, v)
	case token.AND:
		return b.bin(OBAnd, u, v)
	case token.OR:
		return b.bin(OBOr, u, v)
	case token.XOR:
		return b.bin(OBXor, u, v)
	case token.AND_NOT:
		return b.bin(OBAnd, u, b.BNot(v))
	case token.SHL, token.SHR:
		if isSignedT(yt) {
			if !p.decide(b.cmp(OSle, b.BV(0, v.s.W), v)) {
				p.rtPanic("negative shift amount")
			}
		}
		// bring the amount to the width of the value, saturating
		var amt *Term
		if v.s.W <= u.s.W {
			amt = b.Zext(v, u.s.W)
		} else {
			big := b.cmp(OUle, b.BV(uint64(u.s.W), v.s.W), v)
			amt = b.Ite(big, b.BV(uint64(u.s.W), u.s.W), b.Extract(v, u.s.W-1, 0))
		}
		if op == token.SHL {
			return b.bin(OShl, u, amt)
		}
		return b.bin(pick(OAshr, OLshr), u, amt)
	case token.LSS:
		return b.cmp(pick(OSlt, OUlt), u, v)
	case token.LEQ:
		return b.cmp(pick(OSle, OUle), u, v)
	case token.GTR:
		return b.cmp(pick(OSlt, OUlt), v, u)
	case token.GEQ:
		return b.cmp(pick(OSle, OUle), v, u)
	}
	unsupported("binary %s", op)
	return nil
}

func (p *Path) convert(from, to types.Type, x Value) Value {
	b := p.b
	ft, tt := from.Underlying(), to.Underlying()
	switch t := tt.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			switch s := x.(type) {
			case Str:
				return s
			case Slice:
				el := ft.(*types.Slice).Elem().Underlying().(*types.Basic)
				if el.Kind() == types.Uint8 {
					bs := make([]*Term, len(s))
					for i := range s {
						bs[i] = s[i].(*Term)
					}
					return mkStr(bs)
				}
				rs := make([]rune, len(s))
				for i := range s {
					tm := s[i].(*Term)
					if !tm.isConst() {
						unsupported("symbolic runes to string")
					}
					rs[i] = rune(signed(tm.c, 32))
				}
				return Str{s: string(rs)}
			case *Term:
				return Str{s: string(rune(p.concretize(s)))}
			}
		case t.Kind() == types.UnsafePointer:
			return x
		case t.Info()&types.IsInteger != 0:
			u, ok := x.(*Term)
			if !ok {
				unsupported("convert %T to %s", x, to)
			}
			w := width(t)
			if u.s.K == SF {
				r := b.F2I(u)
				if t.Info()&types.IsUnsigned != 0 && w == 64 {
					if u.isConst() && b.mode != R && u.fconst() >= 9223372036854775808.0 {
						return b.BV(uint64(u.fconst()), 64)
					}
				}
				return b.Extract(r, w-1, 0)
			}
			if w <= u.s.W {
				return b.Extract(u, w-1, 0)
			}
			if isSignedT(from) {
				return b.Sext(u, w)
			}
			return b.Zext(u, w)
		case t.Info()&types.IsFloat != 0:
			u := x.(*Term)
			if u.s.K == SF {
				if t.Kind() == types.Float32 && ft.(*types.Basic).Kind() != types.Float32 {
					return p.toF32(u)
				}
				return u
			}
			r := u
			if isSignedT(from) {
				r = b.I2F(u)
			} else {
				r = b.U2F(u)
			}
			if t.Kind() == types.Float32 {
				r = p.toF32(r)
			}
			return r
		}
	case *types.Slice:
		if s, ok := x.(Str); ok {
			el := t.Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Uint8 {
				bs := p.strBytes(s)
				out := make(Slice, len(bs))
				for i := range bs {
					out[i] = bs[i]
				}
				return out
			}
			out := Slice{}
			for _, r := range p.strText(s) {
				out = append(out, b.BV(uint64(r), 32))
			}
			return out
		}
		return x
	case *types.Pointer:
		return x
	}
	unsupported("convert %s to %s", from, to)
	return nil
}

// toF32 rounds to single precision.
func (p *Path) toF32(u *Term) *Term {
	if u.op == OFUF && u.name == "round32" || u.op == OB32F {
		return u
	}
	if p.b.mode == R {
		if u.isConst() {
			f, _ := u.rat.Float64()
			return p.b.Float(float64(float32(f)))
		}
		// an arbitrary nearby value: model as an uninterpreted function
		return p.b.UF("round32", u)
	}
	if u.isConst() {
		return p.b.Float(float64(float32(u.fconst())))
	}
	return p.b.UF("round32", u)
}

func (fr *frame) slice(in *ssa.Slice) Value {
	p := fr.p
	x := fr.get(in.X)
	var n, c int
	var arr []Value
	isStr := false
	var str Str
	switch x := x.(type) {
	case Slice:
		n, c, arr = len(x), cap(x), x
	case Str:
		isStr, str = true, x
		n = x.length()
		c = n
	case *Value:
		if x == nil {
			p.nilDeref()
		}
		a := (*x).(Array)
		n, c, arr = len(a), len(a), a
	default:
		unsupported("slice of %T", x)
	}
	// bounds: 0 <= lo <= hi <= max <= cap
	b := p.b
	get := func(v ssa.Value, def int) *Term {
		if v == nil {
			return b.BV(uint64(def), 64)
		}
		return p.toInt(fr.get(v), v.Type())
	}
	mxT := get(in.Max, c)
	hiT := get(in.High, n)
	loT := get(in.Low, 0)
	lim := c
	if isStr {
		lim = n
	}
	ok := b.And(b.cmp(OUle, mxT, b.BV(uint64(lim), 64)), b.And(b.cmp(OUle, hiT, mxT), b.cmp(OUle, loT, hiT)))
	if !p.decide(ok) {
		p.rtPanic("slice bounds out of range")
	}
	mx, hi, lo := int(p.concretize(mxT)), int(p.concretize(hiT)), int(p.concretize(loT))
	if isStr {
		if str.sym != nil {
			return mkStr(str.sym[lo:hi])
		}
		return Str{s: str.s[lo:hi]}
	}
	if s, is := x.(Slice); is && s == nil {
		return Slice(nil)
	}
	return Slice(arr[:c][lo:hi:mx])
}

func (p *Path) makeSlice(t types.Type, ln, cp Value, lt types.Type) Value {
	b := p.b
	l, c := p.toInt(ln, lt), p.toInt(cp, lt)
	el := t.Underlying().(*types.Slice).Elem()
	es := sizeOf(el)
	max := int64(1) << 46
	if es > 0 {
		max /= es
	}
	ok := b.And(b.cmp(OSle, b.BV(0, 64), l), b.And(b.cmp(OSle, l, c), b.cmp(OSle, c, b.BV(uint64(max), 64))))
	if !p.decide(ok) {
		p.rtPanic("makeslice: len out of range")
	}
	p.account(c, es)
	n, m := int(p.concretize(l)), int(p.concretize(c))
	s := make(Slice, n, m)
	z := p.zero(el)
	full := s[:m]
	for i := range full {
		full[i] = copyVal(z)
	}
	return s
}

// account books an allocation of n elements of the given size.
func (p *Path) account(n *Term, es int64) {
	b := p.b
	if p.allocBudget >= 0 {
		left := p.allocBudget - p.alloc
		if left < 0 {
			left = 0
		}
		if es < 1 {
			es = 1
		}
		ok := b.cmp(OSle, n, b.BV(uint64(left/es), 64))
		if !ok.isTrue() {
			if !p.decide(ok) {
				p.effect("alloc")
				p.violation("alloc", fmt.Sprintf("allocation beyond the budget of %d bytes", p.allocBudget), nil)
				panic(pathEnd{"alloc"})
			}
		}
	}
	if n.isConst() {
		p.alloc += int64(n.c) * es
		if p.alloc > 1<<28 {
			panic(pathEnd{"memory"})
		}
	} else if p.allocBudget < 0 {
		if !p.decide(b.cmp(OSle, n, b.BV(1<<22, 64))) {
			p.hugeAlloc()
		}
	}
}

func (p *Path) hugeAlloc() { panic(pathEnd{"memory"}) }

func (fr *frame) typeAssert(in *ssa.TypeAssert) Value {
	p := fr.p
	x, ok := fr.get(in.X).(Iface)
	if !ok {
		unsupported("type assertion on %T", fr.get(in.X))
	}
	match := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil {
			match = types.Implements(x.t, it)
			v = x
		}
	} else {
		match = x.t != nil && types.Identical(x.t, in.AssertedType)
		v = x.v
	}
	if !match {
		if !in.CommaOk {
			p.rtPanic(fmt.Sprintf("interface conversion: interface is %v, not %v", x.t, in.AssertedType))
		}
		return Tuple{p.zero(in.AssertedType), p.b.False}
	}
	if in.CommaOk {
		return Tuple{copyVal(v), p.b.True}
	}
	return copyVal(v)
}

func (p *Path) builtin(fr *frame, bi *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	b := p.b
	switch bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return b.BV(uint64(len(x)), 64)
		case Str:
			return b.BV(uint64(x.length()), 64)
		case *MapV:
			return b.BV(uint64(x.length()), 64)
		case Array:
			return b.BV(uint64(len(x)), 64)
		case *Value:
			return b.BV(uint64(len((*x).(Array))), 64)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return b.BV(uint64(cap(x)), 64)
		case Array:
			return b.BV(uint64(len(x)), 64)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		case Str:
			for _, t := range p.strBytes(y) {
				add = append(add, t)
			}
		}
		if len(add) == 0 {
			return s
		}
		n := len(s)
		if n+len(add) <= cap(s) {
			tmp := make([]Value, len(add))
			for i := range add {
				tmp[i] = copyVal(add[i])
			}
			r := s[:n+len(add)]
			for i := range tmp {
				p.storeCell(&r[n+i], tmp[i])
			}
			return r
		}
		es := int64(8)
		if call != nil {
			if st, ok := call.Args[0].Type().Underlying().(*types.Slice); ok {
				es = sizeOf(st.Elem())
			}
		}
		nc := cap(s) * 2
		if nc < n+len(add) {
			nc = n + len(add)
		}
		p.account(b.BV(uint64(nc), 64), es)
		r := make(Slice, n+len(add), nc)
		for i := 0; i < n; i++ {
			r[i] = copyVal(s[i])
		}
		for i := range add {
			r[n+i] = copyVal(add[i])
		}
		if nc > n+len(add) && call != nil {
			if st, ok := call.Args[0].Type().Underlying().(*types.Slice); ok {
				z := p.zero(st.Elem())
				full := r[:nc]
				for i := n + len(add); i < nc; i++ {
					full[i] = copyVal(z)
				}
			}
		}
		return r
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
		case Str:
			for _, t := range p.strBytes(y) {
				src = append(src, t)
			}
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			p.storeCell(&d[i], tmp[i])
		}
		return b.BV(uint64(n), 64)
	case "delete":
		m := args[0].(*MapV)
		if m == nil {
			return nil
		}
		p.effect("map delete")
		if i := p.mapFind(m, args[1]); i >= 0 {
			m.del[i] = true
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			m.vals = append(m.vals[:i:i], m.vals[i+1:]...)
			m.del = append(m.del[:i:i], m.del[i+1:]...)
		}
		return nil
	case "panic":
		panic(targetPanic{v: args[0], msg: p.showPanic(args[0])})
	case "recover":
		// called from a deferred function: its caller frame is the panicking one
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			v := fr.caller.pv.v
			fr.caller.panicking = false
			if i, ok := v.(Iface); ok {
				return i
			}
			return p.errorIface(fr.caller.pv.msg)
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			u, ok := r.(*Term)
			v := y.(*Term)
			if !ok {
				unsupported("min/max on %T", r)
			}
			if u.s.K == SF {
				op := OFMax
				if bi.Name() == "min" {
					op = OFMin
				}
				if b.mode != R {
					// like math.Max except for NaN with infinities
					r = b.Ite(b.Or(b.FIsNaN(u), b.FIsNaN(v)), b.Float(math.NaN()), b.FMinMax(op, u, v))
				} else {
					r = b.FMinMax(op, u, v)
				}
				continue
			}
			lt := OSlt
			if call != nil && !isSignedT(call.Args[0].Type()) {
				lt = OUlt
			}
			if bi.Name() == "min" {
				r = b.Ite(b.cmp(lt, v, u), v, u)
			} else {
				r = b.Ite(b.cmp(lt, u, v), v, u)
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				p.effect("map clear")
				x.keys, x.vals, x.del = nil, nil, nil
			}
			return nil
		case Slice:
			if call != nil {
				z := p.zero(call.Args[0].Type().Underlying().(*types.Slice).Elem())
				for i := range x {
					p.storeCell(&x[i], z)
				}
				return nil
			}
		}
	case "ssa:wrapnilchk":
		if a, ok := args[0].(*Value); ok && a == nil {
			p.nilDeref()
		}
		return args[0]
	}
	unsupported("builtin %s", bi.Name())
	return nil
}

// ---- branching and merging

func (fr *frame) doIf(in *ssa.If) bool {
	p := fr.p
	c, ok := fr.get(in.Cond).(*Term)
	if !ok {
		unsupported("condition %T", fr.get(in.Cond))
	}
	blk := fr.block
	c = p.known(c)
	if !c.isConst() && fr.tryMerge(in, c) {
		return true
	}
	p.curIf = in
	v := p.decide(c)
	p.curIf = nil
	if v {
		fr.jump(blk.Succs[0])
	} else {
		fr.jump(blk.Succs[1])
	}
	return true
}

type outcome struct {
	writes map[*Value]Value
	order  []*Value
	env    []Value
	phis   []Value
	result Value
	done   bool
	asm    []*Term
	bad    string
}

func (fr *frame) tryMerge(in *ssa.If, c *Term) bool {
	p := fr.p
	if p.noMerge {
		return false
	}
	live := p.pos >= len(p.prefix)
	if !live {
		d := p.prefix[p.pos]
		if d.K != 'M' {
			unsupported("replay mismatch: expected merge decision, have %c", d.K)
		}
		p.pos++
		p.trace = append(p.trace, d)
		if d.V == 0 {
			return false
		}
	} else {
		if p.h.memoNo(in) || fr.onStack(in) || len(p.logs) > 6 {
			p.trace = append(p.trace, Dec{K: 'M', V: 0})
			return false
		}
	}
	mark := len(p.trace)
	if live {
		p.trace = append(p.trace, Dec{K: 'M', V: 1})
	}
	ok, why := fr.merge(in, c)
	if ok {
		return true
	}
	if !live {
		unsupported("replay mismatch: merge failed (%s)", why)
	}
	p.trace = append(p.trace[:mark], Dec{K: 'M', V: 0})
	p.h.noteNo(in)
	return false
}

func (fr *frame) onStack(in *ssa.If) bool {
	for _, x := range fr.p.mergeStack {
		if x == in {
			return true
		}
	}
	return false
}

func (fr *frame) merge(in *ssa.If, c *Term) (good bool, why string) {
	p := fr.p
	blk := fr.block
	stop := fr.fi.ipdom[blk.Index]
	nphi := 0
	if stop != nil {
		for nphi < len(stop.Instrs) {
			if _, ok := stop.Instrs[nphi].(*ssa.Phi); !ok {
				break
			}
			nphi++
		}
	}
	env0 := append([]Value{}, fr.env...)
	prev0, def0 := fr.prev, len(fr.defers)
	alloc0, pc0, in0, dr0 := p.alloc, len(p.pc), len(p.inputs), len(p.draws)
	stepsLim := p.maxSteps
	if p.steps+60000 < p.maxSteps {
		p.maxSteps = p.steps + 60000
	}
	logs0, ms0 := len(p.logs), len(p.mergeStack)
	p.mergeStack = append(p.mergeStack, in)
	restore := func() {
		p.maxSteps = stepsLim
		p.mergeStack = p.mergeStack[:ms0]
	}
	run := func(g *Term, succ *ssa.BasicBlock) (o outcome) {
		p.logs = append(p.logs, nil)
		p.specMaps = append(p.specMaps[:len(p.logs)-1], p.mapSerial)
		p.pc = append(p.pc, g)
		finish := func() {
			// undo deeper logs as well
			for len(p.logs) > logs0 {
				lg := p.logs[len(p.logs)-1]
				for i := len(lg) - 1; i >= 0; i-- {
					*lg[i].ptr = lg[i].old
				}
				p.logs = p.logs[:len(p.logs)-1]
			}
			copy(fr.env, env0)
			fr.prev, fr.block, fr.done, fr.result, fr.phis = prev0, blk, false, nil, false
			fr.defers = fr.defers[:def0]
			p.pc = p.pc[:pc0]
		p.pcGen++
			p.mergeStack = p.mergeStack[:ms0+1]
		}
		defer func() {
			if e := recover(); e != nil {
				finish()
				switch e := e.(type) {
				case mergeAbort:
					o.bad = e.why
				case targetPanic:
					o.bad = "panic: " + e.msg
				case engErr:
					o.bad = e.msg
				case pathEnd:
					// the arm may not be feasible at all
					o.bad = e.why
					if e.why == "deadline" {
						restore()
						panic(e)
					}
				default:
					restore()
					panic(e)
				}
			}
		}()
		fr.prev, fr.block = blk, succ
		fr.runUntil(stop)
		o.done, o.result = fr.done, fr.result
		if stop != nil {
			if fr.done {
				panic(mergeAbort{"return inside region"})
			}
			o.phis = fr.phiVals(stop, nphi)
		}
		lg := p.logs[len(p.logs)-1]
		o.writes = map[*Value]Value{}
		for _, e := range lg {
			if _, ok := o.writes[e.ptr]; !ok {
				o.order = append(o.order, e.ptr)
			}
			o.writes[e.ptr] = *e.ptr
		}
		o.env = append([]Value{}, fr.env...)
		o.asm = append(o.asm, p.pc[pc0+1:]...)
		finish()
		return
	}
	defer restore()
	b := p.b
	fail := func(s string) (bool, string) {
		p.alloc = alloc0
		p.pc = p.pc[:pc0]
		p.pcGen++
		p.inputs, p.draws = p.inputs[:in0], p.draws[:dr0]
		return false, s
	}
	o1 := run(c, blk.Succs[0])
	if o1.bad != "" {
		return fail(o1.bad)
	}
	p.alloc = alloc0
	o2 := run(b.Not(c), blk.Succs[1])
	if o2.bad != "" {
		return fail(o2.bad)
	}
	// compute the merged state before applying any of it
	type wr struct {
		ptr *Value
		v   Value
	}
	var ws []wr
	for _, ptr := range append(append([]*Value{}, o1.order...), o2.order...) {
		v1, k1 := o1.writes[ptr]
		v2, k2 := o2.writes[ptr]
		if !k1 {
			v1 = *ptr
		}
		if !k2 {
			v2 = *ptr
		}
		v, ok := p.mergeVal(c, v1, v2)
		if !ok {
			return fail("heap values differ in shape")
		}
		ws = append(ws, wr{ptr, v})
	}
	var phis []Value
	for i := range o1.phis {
		v, ok := p.mergeVal(c, o1.phis[i], o2.phis[i])
		if !ok {
			return fail("phi values differ in shape")
		}
		phis = append(phis, v)
	}
	env := append([]Value{}, env0...)
	for i := range env {
		if same(o1.env[i], o2.env[i]) {
			env[i] = o1.env[i]
			continue
		}
		v := fr.fi.vals[i]
		inst, ok := v.(ssa.Instruction)
		if stop != nil && ok && !inst.Block().Dominates(stop) {
			env[i] = nil
			continue
		}
		if stop == nil {
			continue
		}
		m, ok := p.mergeVal(c, o1.env[i], o2.env[i])
		if !ok {
			return fail("registers differ in shape")
		}
		env[i] = m
	}
	var res Value
	if stop == nil {
		if !o1.done || !o2.done {
			return fail("no common exit")
		}
		m, ok := p.mergeVal(c, o1.result, o2.result)
		if !ok {
			return fail("results differ in shape")
		}
		res = m
	}
	// apply
	for _, w := range ws {
		p.write(w.ptr, w.v)
	}
	copy(fr.env, env)
	for _, a := range o1.asm {
		p.pc = append(p.pc, b.Or(b.Not(c), a))
	}
	for _, a := range o2.asm {
		p.pc = append(p.pc, b.Or(c, a))
	}
	if stop == nil {
		fr.done, fr.result = true, res
	} else {
		fr.prev, fr.block, fr.phis = blk, stop, true
		for i := range phis {
			fr.set(stop.Instrs[i].(*ssa.Phi), phis[i])
		}
		if nphi == 0 {
			fr.phis = false
		}
	}
	p.merges++
	return true, ""
}

func same(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Value:
		y, ok := b.(*Value)
		return ok && x == y
	case Slice:
		y, ok := b.(Slice)
		if !ok || len(x) != len(y) || cap(x) != cap(y) || (x == nil) != (y == nil) {
			return false
		}
		return cap(x) == 0 || &x[:1][0] == &y[:1][0]
	case Str:
		y, ok := b.(Str)
		if !ok || x.s != y.s || len(x.sym) != len(y.sym) {
			return false
		}
		for i := range x.sym {
			if x.sym[i] != y.sym[i] {
				return false
			}
		}
		return true
	case Structure:
		y, ok := b.(Structure)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case Array:
		y, ok := b.(Array)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return false
		}
		return x.t == nil || (types.Identical(x.t, y.t) && same(x.v, y.v))
	case *SymPtr:
		y, ok := b.(*SymPtr)
		return ok && x == y
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return ok && x == y
	case *Native:
		y, ok := b.(*Native)
		return ok && x == y
	}
	return false
}

func (p *Path) mergeVal(c *Term, x, y Value) (Value, bool) {
	if same(x, y) {
		return x, true
	}
	switch a := x.(type) {
	case *Term:
		if d, ok := y.(*Term); ok && a.s == d.s {
			return p.b.Ite(c, a, d), true
		}
	case Structure:
		d, ok := y.(Structure)
		if !ok || len(a) != len(d) {
			return nil, false
		}
		out := make(Structure, len(a))
		for i := range a {
			if out[i], ok = p.mergeVal(c, a[i], d[i]); !ok {
				return nil, false
			}
		}
		return out, true
	case Array:
		d, ok := y.(Array)
		if !ok || len(a) != len(d) {
			return nil, false
		}
		out := make(Array, len(a))
		for i := range a {
			if out[i], ok = p.mergeVal(c, a[i], d[i]); !ok {
				return nil, false
			}
		}
		return out, true
	case Tuple:
		d, ok := y.(Tuple)
		if !ok || len(a) != len(d) {
			return nil, false
		}
		out := make(Tuple, len(a))
		for i := range a {
			if out[i], ok = p.mergeVal(c, a[i], d[i]); !ok {
				return nil, false
			}
		}
		return out, true
	case Iface:
		d, ok := y.(Iface)
		if ok && a.t != nil && d.t != nil && types.Identical(a.t, d.t) {
			if v, ok := p.mergeVal(c, a.v, d.v); ok {
				return Iface{a.t, v}, true
			}
		}
	case Str:
		d, ok := y.(Str)
		if ok && a.length() == d.length() {
			p1, p2 := p.strBytes(a), p.strBytes(d)
			out := make([]*Term, len(p1))
			for i := range p1 {
				out[i] = p.b.Ite(c, p1[i], p2[i])
			}
			return mkStr(out), true
		}
	}
	return nil, false
}

// effect marks an action that cannot be undone inside a merged region.
func (p *Path) effect(why string) {
	if len(p.logs) > 0 {
		panic(mergeAbort{"effect: " + why})
	}
}
