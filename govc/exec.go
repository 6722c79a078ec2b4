package main

// Symbolic executor over go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnInfo struct {
	idx     map[ssa.Value]int
	n       int
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // loop header -> body blocks
}

type Alt struct {
	st    *State
	v     Value
	panic string // non-empty: the call panics
}

type Handler func(x *Exec, st *State, args []Value, call *ssa.CallCommon) []Alt

type Outcome struct {
	kind string // ret, panic
	st   *State
	v    Value
	msg  string
}

type LoopCut interface {
	// AtHeader is called when control reaches the header (phis assigned).
	// It returns the states to continue with (none: path ends here).
	AtHeader(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock, back bool) ([]*State, bool)
}

type symBranch struct {
	hdr *ssa.BasicBlock
	fn  *ssa.Function
}

type Exec struct {
	C         *Ctx
	P         *Prog
	szCache   map[types.Type]int64
	foCache   map[*types.Struct][]int64
	infos     map[*ssa.Function]*FnInfo
	H         map[string]Handler // by function string
	invokeH   func(x *Exec, st *State, recv Value, m *types.Func, args []Value) ([]Alt, bool)
	base      *State // state after package initialisation
	globals   map[*ssa.Global]*Obj
	solver    *Solver
	nosolver  bool
	never     func(*T) bool // conditions that cannot hold
	foldM     *T            // the number of blocks folds are stated over
	maxSteps  int
	cutAll    LoopCut // consulted at every loop header
	visits    map[string]int
	fnHits    map[string]int // functions executed (evidence)
	nprove    int
	pre       func(x *Exec, st *State, fn *ssa.Function, args []Value) // optional hook at calls
	cpuFlags  map[string]bool
	feats     map[string]bool // CPU features used by executed assembly
	morePaths int
	illegal   []string
	deadline  time.Time
}

func (x *Exec) checkTime() {
	if time.Now().After(x.deadline) {
		unsup("time budget of the symbolic execution exceeded")
	}
}

func NewExec(p *Prog) *Exec {
	x := &Exec{C: NewCtx(), P: p, szCache: map[types.Type]int64{}, foCache: map[*types.Struct][]int64{}, infos: map[*ssa.Function]*FnInfo{}, H: map[string]Handler{}, globals: map[*ssa.Global]*Obj{}, maxSteps: 50000000, visits: map[string]int{}, fnHits: map[string]int{}, feats: map[string]bool{}}
	x.deadline = time.Now().Add(obLimit - 15*time.Second)
	for k, v := range stdHandlers {
		x.H[k] = v
	}
	return x
}

func (x *Exec) info(f *ssa.Function) *FnInfo {
	if i, ok := x.infos[f]; ok {
		return i
	}
	i := &FnInfo{idx: map[ssa.Value]int{}, headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	add := func(v ssa.Value) { i.idx[v] = i.n; i.n++ }
	for _, p := range f.Params {
		add(p)
	}
	for _, p := range f.FreeVars {
		add(p)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				body := i.headers[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					i.headers[s] = body
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					q := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range q.Preds {
						if !body[p] {
							body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	x.infos[f] = i
	return i
}

func (x *Exec) push(st *State, fn *ssa.Function, args []Value, bind []Value, call ssa.Instruction) {
	if len(fn.Blocks) == 0 {
		unsup("call of function without body: %s", fn)
	}
	if len(st.frames) > 200 {
		unsup("call depth")
	}
	inf := x.info(fn)
	x.fnHits[fn.String()]++
	fr := &Frame{fn: fn, info: inf, regs: make([]Value, inf.n), block: fn.Blocks[0], call: call}
	if len(args) != len(fn.Params) {
		unsup("argument count for %s", fn)
	}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], bind)
	st.frames = append(st.frames, fr)
}

// NewState returns a copy of the initialised state.
func (x *Exec) NewState() *State {
	if x.base == nil {
		x.initGlobals()
	}
	return x.base.Clone()
}

// Call runs fn to completion from st and returns all outcomes.
func (x *Exec) Call(st *State, fn *ssa.Function, args ...Value) (outs []*Outcome, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(execErr); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	base := len(st.frames)
	// handlers apply to the top-level function only through calls
	if len(fn.Blocks) == 0 {
		h := x.handlerFor(fn)
		if h == nil {
			unsup("no body for %s", fn)
		}
		for _, a := range h(x, st, args, nil) {
			if a.panic != "" {
				outs = append(outs, &Outcome{kind: "panic", st: a.st, msg: a.panic})
			} else {
				outs = append(outs, &Outcome{kind: "ret", st: a.st, v: a.v})
			}
		}
		return
	}
	x.push(st, fn, args, nil, nil)
	return x.runFrom([]*State{st}, base)
}

func (x *Exec) runFrom(work []*State, base int) (outs []*Outcome, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(execErr); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	mc, _ := x.cutAll.(*mergeCut)
	for {
		if len(work) == 0 && mc != nil {
			work = mc.release()
		}
		if len(work) == 0 {
			break
		}
		s := work[len(work)-1]
		work = work[:len(work)-1]
		more, out := x.run(s, base)
		work = append(work, more...)
		if out != nil {
			outs = append(outs, out)
		}
		if len(outs)+len(work) > 4000+x.morePaths {
			unsup("too many paths")
		}
	}
	return
}

// run executes one state until it finishes or forks.
func (x *Exec) run(st *State, base int) (fork []*State, out *Outcome) {
	for {
		fr := st.frames[len(st.frames)-1]
		st.steps++
		if st.steps > x.maxSteps {
			unsup("step limit in %s", fr.fn)
		}
		if st.steps&1023 == 0 {
			x.checkTime()
		}
		if st.ghost != nil {
			if m, ok := st.ghost["$panic"]; ok {
				return nil, &Outcome{kind: "panic", st: st, msg: m.(string)}
			}
		}
		in := fr.block.Instrs[fr.pc]
		switch i := in.(type) {
		case *ssa.Jump:
			alts := x.enter(st, fr, fr.block.Succs[0])
			if alts != nil {
				return *alts, nil
			}
			continue
		case *ssa.If:
			cv, ok := x.val(st, fr, i.Cond).(*T)
			if !ok {
				unsup("condition is %T", x.val(st, fr, i.Cond))
			}
			if !cv.isC() {
				// decided by the path condition?
				if st.pcset[cv] {
					cv = x.C.Bool(true)
				} else if st.pcset[x.C.Not(cv)] {
					cv = x.C.Bool(false)
				}
			}
			if cv.isC() {
				k := 1
				if cv.k == 1 {
					k = 0
				}
				alts := x.enter(st, fr, fr.block.Succs[k])
				if alts != nil {
					return *alts, nil
				}
				continue
			}
			ft := x.Feasible(st, cv)
			ff := x.Feasible(st, x.C.Not(cv))
			var res []*State
			if ft {
				s2 := st
				if ff {
					s2 = st.Clone()
				}
				s2.Assume(cv)
				f2 := s2.frames[len(s2.frames)-1]
				if alts := x.enter(s2, f2, f2.block.Succs[0]); alts != nil {
					res = append(res, *alts...)
				} else {
					res = append(res, s2)
				}
			}
			if ff {
				st.Assume(x.C.Not(cv))
				if alts := x.enter(st, fr, fr.block.Succs[1]); alts != nil {
					res = append(res, *alts...)
				} else {
					res = append(res, st)
				}
			}
			return res, nil
		case *ssa.Return:
			var v Value
			switch len(i.Results) {
			case 0:
			case 1:
				v = x.val(st, fr, i.Results[0])
			default:
				var tp Tuple
				for _, r := range i.Results {
					tp = append(tp, x.val(st, fr, r))
				}
				v = tp
			}
			st.frames = st.frames[:len(st.frames)-1]
			if len(st.frames) == base {
				return nil, &Outcome{kind: "ret", st: st, v: v}
			}
			cf := st.frames[len(st.frames)-1]
			x.setCall(cf, fr.call, v)
			cf.pc++
			continue
		case *ssa.Panic:
			return nil, &Outcome{kind: "panic", st: st, msg: x.panicMsg(x.val(st, fr, i.X))}
		case *ssa.Call:
			alts := x.doCall(st, fr, i)
			if alts == nil {
				continue // frame pushed
			}
			var res []*State
			for _, a := range *alts {
				if a.panic != "" {
					res = append(res, x.panicState(a.st, a.panic))
					continue
				}
				f2 := a.st.frames[len(a.st.frames)-1]
				x.setCall(f2, i, a.v)
				f2.pc++
				res = append(res, a.st)
			}
			if len(res) == 1 && res[0] == st && st.ghost["$panic"] == nil {
				continue
			}
			// panicking alternatives are finished states
			var live []*State
			for _, r := range res {
				live = append(live, r)
			}
			return live, nil
		case *ssa.Defer:
			fr.defs = append(fr.defs, i)
			unsup("defer in %s", fr.fn)
		case *ssa.RunDefers:
			fr.pc++
			continue
		}
		if forks := x.step(st, fr, in); forks != nil {
			return forks, nil
		}
		fr.pc++
	}
}

func (x *Exec) panicState(st *State, msg string) *State {
	st.SetG("$panic", msg)
	// make the next instruction a no-op by parking: run() checks $panic first
	return st
}

func (x *Exec) panicMsg(v Value) string {
	if i, ok := v.(Iface); ok {
		if s, ok := i.v.(Str); ok {
			return s.s
		}
		return fmt.Sprintf("%v", i.typ)
	}
	return "?"
}

func (x *Exec) setCall(fr *Frame, call ssa.Instruction, v Value) {
	if cv, ok := call.(ssa.Value); ok {
		fr.regs[fr.info.idx[cv]] = v
	}
}

// enter moves control to block b (from fr.block), assigning phis.
func (x *Exec) enter(st *State, fr *Frame, b *ssa.BasicBlock) *[]*State {
	prev := fr.block
	var pi int
	for k, p := range b.Preds {
		if p == prev {
			pi = k
			break
		}
	}
	// if both edges of an If go to b the phi edges coincide in value choice; ssa splits those
	n := 0
	var vals [16]Value
	vs := vals[:0]
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, x.val(st, fr, ph.Edges[pi]))
		n++
	}
	for k := 0; k < n; k++ {
		fr.regs[fr.info.idx[b.Instrs[k].(*ssa.Phi)]] = vs[k]
	}
	fr.prev, fr.block, fr.pc = prev, b, n
	if x.cutAll != nil {
		if body := fr.info.headers[b]; body != nil {
			if r, handled := x.cutAll.AtHeader(x, st, fr, b, body[prev]); handled {
				return &r
			}
		}
	}
	return nil
}

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return Ptr{x.global(st, c), x.C.I(0)}
	case *ssa.Function:
		return &Clos{fn: c}
	case *ssa.Builtin:
		return nil
	}
	i, ok := fr.info.idx[v]
	if !ok {
		unsup("no register for %s", v)
	}
	if _, ok := fr.regs[i].(poison); ok {
		unsup("%s = %s in %s has no value on some of the merged paths", v.Name(), v, fr.fn)
	}
	return fr.regs[i]
}

func (x *Exec) global(st *State, g *ssa.Global) *Obj {
	if o, ok := x.globals[g]; ok {
		return o
	}
	if x.base != nil {
		unsup("global %s not initialised", g)
	}
	o := x.NewTyped(st, g.String(), g.Type().Underlying().(*types.Pointer).Elem())
	o.glob = true
	x.globals[g] = o
	return o
}

func (x *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	if w := x.intWidth(t); w > 0 {
		if w == 1 {
			return x.C.Bool(constant.BoolVal(c.Value))
		}
		if u, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
			return x.C.Const(w, u)
		}
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return x.C.Const(w, uint64(i))
		}
		unsup("constant %v", c)
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return Str{constant.StringVal(c.Value)}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		return Opaque{name: "float"}
	}
	unsup("constant %v of %v", c, t)
	return nil
}

func (x *Exec) set(fr *Frame, v ssa.Value, val Value) { fr.regs[fr.info.idx[v]] = val }

// check a runtime condition; on possible failure returns states to continue with.
func (x *Exec) guard(st *State, ok *T, msg string) []*State {
	if ok.isCV(1) || st.pcset[ok] {
		return nil
	}
	if !ok.isC() && x.Prove(st, ok) {
		return nil
	}
	if ok.isCV(0) || !x.Feasible(st, ok) {
		return []*State{x.panicState(st, msg)}
	}
	bad := st.Clone()
	bad.Assume(x.C.Not(ok))
	x.panicState(bad, msg)
	st.Assume(ok)
	return []*State{bad, st} // instruction is re-executed with ok assumed
}

func (x *Exec) step(st *State, fr *Frame, in ssa.Instruction) []*State {
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		o := x.NewTyped(st, i.Comment, t)
		if m, ok := x.cutAll.(*mergeCut); ok {
			o = m.alloc(o, i)
		}
		x.set(fr, i, Ptr{o, x.C.I(0)})
	case *ssa.BinOp:
		if i.Op == token.QUO || i.Op == token.REM {
			if d, ok := x.val(st, fr, i.Y).(*T); ok && !d.isC() {
				if r := x.guard(st, x.C.Not(x.C.Eq(d, x.C.Const(d.w, 0))), "integer divide by zero"); r != nil {
					return r
				}
			} else if ok && d.k == 0 {
				return []*State{x.panicState(st, "integer divide by zero")}
			}
		}
		x.set(fr, i, x.binop(st, i.Op, x.val(st, fr, i.X), x.val(st, fr, i.Y), i.X.Type(), i.Y.Type()))
	case *ssa.UnOp:
		v := x.val(st, fr, i.X)
		switch i.Op {
		case token.MUL:
			p, ok := v.(Ptr)
			if !ok {
				unsup("deref of %T", v)
			}
			if p.obj == nil {
				return []*State{x.panicState(st, "nil dereference")}
			}
			x.set(fr, i, x.load(st, p, i.Type()))
		case token.SUB:
			x.set(fr, i, x.C.Neg(v.(*T)))
		case token.XOR, token.NOT:
			x.set(fr, i, x.C.Not(v.(*T)))
		default:
			unsup("unop %v", i.Op)
		}
	case *ssa.Store:
		p, ok := x.val(st, fr, i.Addr).(Ptr)
		if !ok {
			unsup("store to %T", x.val(st, fr, i.Addr))
		}
		if p.obj == nil {
			return []*State{x.panicState(st, "nil dereference")}
		}
		x.store(st, p, i.Val.Type(), x.val(st, fr, i.Val))
	case *ssa.FieldAddr:
		p := x.val(st, fr, i.X).(Ptr)
		if p.obj == nil {
			return []*State{x.panicState(st, "nil dereference")}
		}
		u := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		x.set(fr, i, Ptr{p.obj, x.C.Add(p.off, x.C.I(x.fieldOffs(u)[i.Field]))})
	case *ssa.Field:
		a, ok := x.val(st, fr, i.X).(*Agg)
		if !ok {
			unsup("field of %T", x.val(st, fr, i.X))
		}
		u := i.X.Type().Underlying().(*types.Struct)
		x.set(fr, i, x.aggGet(a, x.fieldOffs(u)[i.Field], i.Type()))
	case *ssa.IndexAddr:
		return x.indexAddr(st, fr, i)
	case *ssa.Index:
		v := x.val(st, fr, i.X)
		ix := x.toInt(x.val(st, fr, i.Index), i.Index.Type())
		switch a := v.(type) {
		case *Agg:
			at := i.X.Type().Underlying().(*types.Array)
			if r := x.guard(st, x.C.Ult(ix, x.C.I(at.Len())), "index out of range"); r != nil {
				return r
			}
			if !ix.isC() {
				tmp := x.NewObj(st, "tmp", a.size)
				copy(st.os(tmp).cells, a.cells)
				x.set(fr, i, x.load(st, Ptr{tmp, x.C.Mul(ix, x.C.I(x.sizeof(at.Elem())))}, i.Type()))
				return nil
			}
			x.set(fr, i, x.aggGet(a, int64(ix.k)*x.sizeof(at.Elem()), i.Type()))
		case Str:
			if !ix.isC() {
				unsup("symbolic string index")
			}
			if ix.k >= uint64(len(a.s)) {
				return []*State{x.panicState(st, "index out of range")}
			}
			x.set(fr, i, x.C.Const(8, uint64(a.s[ix.k])))
		default:
			unsup("index of %T", v)
		}
	case *ssa.Slice:
		return x.slice(st, fr, i)
	case *ssa.Extract:
		tp, ok := x.val(st, fr, i.Tuple).(Tuple)
		if !ok {
			unsup("extract of %T", x.val(st, fr, i.Tuple))
		}
		x.set(fr, i, tp[i.Index])
	case *ssa.ChangeType:
		x.set(fr, i, x.val(st, fr, i.X))
	case *ssa.Convert:
		x.set(fr, i, x.convert(st, x.val(st, fr, i.X), i.X.Type(), i.Type()))
	case *ssa.ChangeInterface:
		x.set(fr, i, x.val(st, fr, i.X))
	case *ssa.MakeInterface:
		x.set(fr, i, Iface{i.X.Type(), x.val(st, fr, i.X)})
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range i.Bindings {
			b = append(b, x.val(st, fr, v))
		}
		x.set(fr, i, &Clos{i.Fn.(*ssa.Function), b})
	case *ssa.MakeSlice:
		n := x.toInt(x.val(st, fr, i.Len), i.Len.Type())
		cp := x.toInt(x.val(st, fr, i.Cap), i.Cap.Type())
		if r := x.guard(st, x.C.Not(x.C.Slt(n, x.C.I(0))), "makeslice: len out of range"); r != nil {
			return r
		}
		if r := x.guard(st, x.C.Not(x.C.Slt(cp, n)), "makeslice: cap out of range"); r != nil {
			return r
		}
		et := i.Type().Underlying().(*types.Slice).Elem()
		x.set(fr, i, x.makeSlice(st, et, n, cp))
	case *ssa.SliceToArrayPointer:
		s := x.val(st, fr, i.X).(Slice)
		at := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if r := x.guard(st, x.C.Not(x.C.Slt(s.len, x.C.I(at.Len()))), "slice to array: too short"); r != nil {
			return r
		}
		x.set(fr, i, s.p)
	case *ssa.TypeAssert:
		v, ok := x.val(st, fr, i.X).(Iface)
		if !ok {
			unsup("type assertion on %T", x.val(st, fr, i.X))
		}
		match := false
		if v.typ != nil {
			if it, ok := i.AssertedType.Underlying().(*types.Interface); ok {
				match = types.Implements(v.typ, it)
			} else {
				match = types.Identical(v.typ, i.AssertedType)
			}
		}
		var r Value
		if _, isI := i.AssertedType.Underlying().(*types.Interface); isI {
			r = v
		} else {
			r = v.v
		}
		if i.CommaOk {
			if !match {
				r = x.zero(i.AssertedType)
			}
			x.set(fr, i, Tuple{r, x.C.Bool(match)})
		} else {
			if !match {
				return []*State{x.panicState(st, "interface conversion")}
			}
			x.set(fr, i, r)
		}
	case *ssa.MakeMap:
		o := x.NewObj(st, "map", 0)
		x.set(fr, i, MapV{o})
	case *ssa.MapUpdate:
		m := x.val(st, fr, i.Map).(MapV)
		if m.obj == nil {
			return []*State{x.panicState(st, "assignment to nil map")}
		}
		k := x.val(st, fr, i.Key)
		q := st.wos(m.obj)
		for n := range q.mp {
			if x.sameKey(q.mp[n].k, k) {
				q.mp[n].v = x.val(st, fr, i.Value)
				return nil
			}
		}
		q.mp = append(q.mp, mapEnt{k, x.val(st, fr, i.Value)})
	case *ssa.Lookup:
		m, ok := x.val(st, fr, i.X).(MapV)
		if !ok {
			unsup("lookup in %T", x.val(st, fr, i.X))
		}
		k := x.val(st, fr, i.Index)
		et := i.X.Type().Underlying().(*types.Map).Elem()
		var r Value
		found := false
		if m.obj != nil {
			for _, e := range st.os(m.obj).mp {
				if x.sameKey(e.k, k) {
					r, found = e.v, true
				}
			}
		}
		if !found {
			r = x.zero(et)
		}
		if i.CommaOk {
			x.set(fr, i, Tuple{r, x.C.Bool(found)})
		} else {
			x.set(fr, i, r)
		}
	default:
		unsup("instruction %T (%s) in %s", in, in, fr.fn)
	}
	return nil
}

func (x *Exec) sameKey(a, b Value) bool {
	switch p := a.(type) {
	case *T:
		q := b.(*T)
		if p == q {
			return true
		}
		if p.isC() && q.isC() {
			return false
		}
		unsup("symbolic map key")
	case Str:
		return p.s == b.(Str).s
	}
	unsup("map key %T", a)
	return false
}

func (x *Exec) makeSlice(st *State, et types.Type, n, cp *T) Slice {
	if n.isC() && cp.isC() {
		o := x.NewArr(st, "make", et, int64(cp.k))
		return Slice{Ptr{o, x.C.I(0)}, n, cp}
	}
	if isByteLike(et) {
		o := x.NewObj(st, "makesym", -1)
		o.lenT = cp
		o.init = func(x *Exec, st *State, off *T, sz int64, t types.Type) Value {
			return x.C.Const(uint8(sz*8), 0)
		}
		return Slice{Ptr{o, x.C.I(0)}, n, cp}
	}
	o := x.NewObj(st, "makesym", -1)
	o.lenT = x.C.Mul(cp, x.C.I(x.sizeof(et)))
	o.init = func(x *Exec, st *State, off *T, sz int64, t types.Type) Value { return x.zero(t) }
	return Slice{Ptr{o, x.C.I(0)}, n, cp}
}

func (x *Exec) aggGet(a *Agg, off int64, t types.Type) Value {
	n := x.sizeof(t)
	if isAgg(t) {
		r := &Agg{size: n, cells: append([]Cell(nil), a.cells[off:off+n]...)}
		return r
	}
	if n == 0 {
		return x.zero(t)
	}
	c := a.cells[off]
	if int64(c.n) == n {
		if tv, ok := c.v.(*T); ok {
			if w := x.intWidth(t); w == 1 && tv.w == 8 {
				return x.C.Extract(tv, 0, 1)
			}
		}
		return c.v
	}
	// compose through a scratch state
	if x.intWidth(t) > 0 {
		tmp := &State{}
		o := x.NewObj(tmp, "agg", a.size)
		copy(tmp.os(o).cells, a.cells)
		return x.load(tmp, Ptr{o, x.C.I(off)}, t)
	}
	unsup("aggregate field read of %v", t)
	return nil
}

// toInt widens an index to 64 bits.
func (x *Exec) toInt(v Value, t types.Type) *T {
	tv, ok := v.(*T)
	if !ok {
		unsup("index is %T", v)
	}
	if tv.w == 64 {
		return tv
	}
	if isSigned(t) {
		return x.C.Sext(tv, 64)
	}
	return x.C.Zext(tv, 64)
}

func (x *Exec) indexAddr(st *State, fr *Frame, i *ssa.IndexAddr) []*State {
	v := x.val(st, fr, i.X)
	ix := x.toInt(x.val(st, fr, i.Index), i.Index.Type())
	switch a := v.(type) {
	case Slice:
		et := i.X.Type().Underlying().(*types.Slice).Elem()
		if r := x.guard(st, x.C.Ult(ix, a.len), "index out of range"); r != nil {
			return r
		}
		x.set(fr, i, Ptr{a.p.obj, x.C.Add(a.p.off, x.C.Mul(ix, x.C.I(x.sizeof(et))))})
	case Ptr:
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if a.obj == nil {
			return []*State{x.panicState(st, "nil dereference")}
		}
		if r := x.guard(st, x.C.Ult(ix, x.C.I(at.Len())), "index out of range"); r != nil {
			return r
		}
		x.set(fr, i, Ptr{a.obj, x.C.Add(a.off, x.C.Mul(ix, x.C.I(x.sizeof(at.Elem()))))})
	default:
		unsup("indexaddr of %T", v)
	}
	return nil
}

func (x *Exec) slice(st *State, fr *Frame, i *ssa.Slice) []*State {
	v := x.val(st, fr, i.X)
	var lo, hi, mx *T
	get := func(e ssa.Value) *T {
		if e == nil {
			return nil
		}
		return x.toInt(x.val(st, fr, e), e.Type())
	}
	lo, hi, mx = get(i.Low), get(i.High), get(i.Max)
	if lo == nil {
		lo = x.C.I(0)
	}
	var p Ptr
	var ln, cp *T
	var et types.Type
	switch a := v.(type) {
	case Str:
		if hi == nil {
			hi = x.C.I(int64(len(a.s)))
		}
		if !lo.isC() || !hi.isC() || hi.k > uint64(len(a.s)) || lo.k > hi.k {
			unsup("string slice")
		}
		x.set(fr, i, Str{a.s[lo.k:hi.k]})
		return nil
	case Slice:
		p, ln, cp = a.p, a.len, a.cap
		et = i.X.Type().Underlying().(*types.Slice).Elem()
	case Ptr:
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if a.obj == nil {
			return []*State{x.panicState(st, "nil dereference")}
		}
		p = a
		ln = x.C.I(at.Len())
		cp = ln
		et = at.Elem()
	default:
		unsup("slice of %T", v)
	}
	if hi == nil {
		hi = ln
	}
	top := cp
	if mx != nil {
		if r := x.guard(st, x.C.Ule(mx, cp), "slice bounds out of range"); r != nil {
			return r
		}
		top = mx
	}
	if r := x.guard(st, x.C.Ule(hi, top), "slice bounds out of range"); r != nil {
		return r
	}
	if r := x.guard(st, x.C.Ule(lo, hi), "slice bounds out of range"); r != nil {
		return r
	}
	np := p
	if p.obj != nil {
		np = Ptr{p.obj, x.C.Add(p.off, x.C.Mul(lo, x.C.I(x.sizeof(et))))}
	}
	x.set(fr, i, Slice{np, x.C.Sub(hi, lo), x.C.Sub(top, lo)})
	return nil
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	wf, wt := x.intWidth(from), x.intWidth(to)
	if tv, ok := v.(*T); ok && wf > 0 && wt > 0 {
		if wt <= tv.w {
			return x.C.Extract(tv, 0, wt)
		}
		if isSigned(from) {
			return x.C.Sext(tv, wt)
		}
		return x.C.Zext(tv, wt)
	}
	switch v.(type) {
	case Ptr: // unsafe.Pointer / uintptr round trips
		return v
	case Opaque:
		return v
	}
	if s, ok := v.(Str); ok {
		if sl, ok := to.Underlying().(*types.Slice); ok && isByteLike(sl.Elem()) {
			b := make([]*T, len(s.s))
			for i := range b {
				b[i] = x.C.Const(8, uint64(s.s[i]))
			}
			o := x.NewBytes(st, "str", b)
			return Slice{Ptr{o, x.C.I(0)}, x.C.I(int64(len(b))), x.C.I(int64(len(b)))}
		}
		return s
	}
	if wf > 0 && wt == 0 {
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Opaque{name: "float"}
		}
	}
	unsup("conversion %v -> %v", from, to)
	return nil
}

func (x *Exec) ptrEq(a, b Ptr) *T {
	if a.obj == nil || b.obj == nil {
		return x.C.Bool(a.obj == b.obj)
	}
	if a.obj != b.obj {
		return x.C.Bool(false)
	}
	return x.C.Eq(a.off, b.off)
}

func (x *Exec) binop(st *State, op token.Token, a, b Value, ta, tb types.Type) Value {
	C := x.C
	if op == token.EQL || op == token.NEQ {
		r := x.equal(st, a, b)
		if op == token.NEQ {
			return C.Not(r)
		}
		return r
	}
	if sa, ok := a.(Str); ok {
		sb, ok := b.(Str)
		if ok && op == token.ADD {
			return Str{sa.s + sb.s}
		}
		return Opaque{name: "string"}
	}
	if _, ok := a.(Opaque); ok {
		return Opaque{name: "opaque"}
	}
	if pa, ok := a.(Ptr); ok {
		return x.ptrArith(op, pa, b)
	}
	if pb, ok := b.(Ptr); ok && op == token.ADD {
		return x.ptrArith(op, pb, a)
	}
	p, ok1 := a.(*T)
	q, ok2 := b.(*T)
	if !ok1 || !ok2 {
		unsup("binop %v on %T,%T", op, a, b)
	}
	sg := isSigned(ta)
	switch op {
	case token.ADD:
		return C.Add(p, q)
	case token.SUB:
		return C.Sub(p, q)
	case token.MUL:
		return C.Mul(p, q)
	case token.AND:
		return C.And(p, q)
	case token.OR:
		return C.Or(p, q)
	case token.XOR:
		return C.Xor(p, q)
	case token.AND_NOT:
		return C.And(p, C.Not(q))
	case token.SHL, token.SHR:
		if isSigned(tb) && !q.isC() {
			// negative shift counts panic; require a provably non-negative count
			if !x.Prove(st, C.Not(C.Slt(q, C.Const(q.w, 0)))) {
				unsup("shift by possibly negative count")
			}
		}
		if op == token.SHL {
			return C.Shift(OShlV, p, q)
		}
		if sg {
			return C.Shift(OAshrV, p, q)
		}
		return C.Shift(OLshrV, p, q)
	case token.LSS:
		if sg {
			return C.Slt(p, q)
		}
		return C.Ult(p, q)
	case token.GTR:
		if sg {
			return C.Slt(q, p)
		}
		return C.Ult(q, p)
	case token.LEQ:
		if sg {
			return C.Not(C.Slt(q, p))
		}
		return C.Not(C.Ult(q, p))
	case token.GEQ:
		if sg {
			return C.Not(C.Slt(p, q))
		}
		return C.Not(C.Ult(p, q))
	case token.QUO, token.REM:
		if sg {
			half := mask(p.w) >> 1
			if p.isC() && q.isC() {
				sp, sq := sgn(p.k, p.w), sgn(q.k, q.w)
				if sq == 0 {
					unsup("division by zero")
				}
				if op == token.QUO {
					return C.Const(p.w, uint64(sp/sq))
				}
				return C.Const(p.w, uint64(sp%sq))
			}
			nonneg := func(t *T) bool {
				return C.ubound(t) <= half || x.Prove(st, C.Not(C.Slt(t, C.Const(t.w, 0))))
			}
			if !nonneg(p) || !nonneg(q) {
				unsup("signed division of possibly negative value")
			}
		}
		if op == token.QUO {
			return C.Udiv(p, q)
		}
		return C.Urem(p, q)
	}
	unsup("binop %v", op)
	return nil
}

// pointers as integers: objects are laid out in order of allocation, disjointly.
func (x *Exec) ptrArith(op token.Token, a Ptr, b Value) Value {
	if t, ok := b.(*T); ok {
		switch op {
		case token.ADD:
			return Ptr{a.obj, x.C.Add(a.off, t)}
		case token.SUB:
			return Ptr{a.obj, x.C.Sub(a.off, t)}
		}
	}
	if q, ok := b.(Ptr); ok && a.obj != nil && q.obj != nil {
		if a.obj == q.obj {
			switch op {
			case token.LSS:
				return x.C.Slt(a.off, q.off)
			case token.LEQ:
				return x.C.Not(x.C.Slt(q.off, a.off))
			case token.GTR:
				return x.C.Slt(q.off, a.off)
			case token.GEQ:
				return x.C.Not(x.C.Slt(a.off, q.off))
			case token.SUB:
				return x.C.Sub(a.off, q.off)
			}
		} else {
			lt := a.obj.id < q.obj.id
			switch op {
			case token.LSS, token.LEQ:
				return x.C.Bool(lt)
			case token.GTR, token.GEQ:
				return x.C.Bool(!lt)
			}
		}
	}
	unsup("pointer arithmetic %v", op)
	return nil
}

func (x *Exec) equal(st *State, a, b Value) *T {
	switch p := a.(type) {
	case *T:
		if q, ok := b.(*T); ok {
			return x.C.Eq(p, q)
		}
	case Ptr:
		if q, ok := b.(Ptr); ok {
			return x.ptrEq(p, q)
		}
	case Slice:
		if q, ok := b.(Slice); ok {
			if q.p.obj == nil {
				return x.C.Bool(p.p.obj == nil)
			}
			if p.p.obj == nil {
				return x.C.Bool(q.p.obj == nil)
			}
		}
	case Iface:
		if q, ok := b.(Iface); ok {
			if p.typ == nil || q.typ == nil {
				return x.C.Bool(p.typ == nil && q.typ == nil)
			}
			if !types.Identical(p.typ, q.typ) {
				return x.C.Bool(false)
			}
			return x.equal(st, p.v, q.v)
		}
	case *Clos:
		if q, ok := b.(*Clos); ok && (p == nil || q == nil) {
			return x.C.Bool(p == nil && q == nil)
		}
	case MapV:
		if q, ok := b.(MapV); ok {
			return x.C.Bool(p.obj == q.obj)
		}
	case Str:
		if q, ok := b.(Str); ok {
			return x.C.Bool(p.s == q.s)
		}
	case *Agg:
		if q, ok := b.(*Agg); ok && p.size == q.size {
			r := x.C.Bool(true)
			tmp := &State{}
			oa, ob := x.NewObj(tmp, "a", p.size), x.NewObj(tmp, "b", q.size)
			copy(tmp.os(oa).cells, p.cells)
			copy(tmp.os(ob).cells, q.cells)
			for i := int64(0); i < p.size; {
				n := int64(p.cells[i].n)
				if n == 0 {
					i++
					continue
				}
				if m := int64(q.cells[i].n); m == 0 || m > n {
					n = 1
				} else {
					n = m
				}
				r = x.C.And(r, x.C.Eq(x.loadBits(tmp, oa, i, n), x.loadBits(tmp, ob, i, n)))
				i += n
			}
			return r
		}
	case Opaque:
		if q, ok := b.(Opaque); ok {
			return x.C.Bool(p.name == q.name)
		}
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

// ---- calls

func (x *Exec) handlerFor(fn *ssa.Function) Handler {
	if h, ok := x.H[fn.String()]; ok {
		return h
	}
	if len(fn.Blocks) == 0 {
		if h := x.P.asmHandler(fn); h != nil {
			return h
		}
	}
	return nil
}

// doCall: nil result means a frame was pushed.
func (x *Exec) doCall(st *State, fr *Frame, i *ssa.Call) *[]Alt {
	c := &i.Call
	one := func(v Value) *[]Alt { return &[]Alt{{st: st, v: v}} }
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(st, fr, b, c, i)
	}
	var args []Value
	var fn *ssa.Function
	var bind []Value
	if c.IsInvoke() {
		recv := x.val(st, fr, c.Value)
		for _, a := range c.Args {
			args = append(args, x.val(st, fr, a))
		}
		ifc, ok := recv.(Iface)
		if !ok {
			unsup("invoke on %T", recv)
		}
		if ifc.typ == nil {
			return &[]Alt{{st: st, panic: "nil interface call"}}
		}
		if _, ok := ifc.v.(Opaque); ok {
			if x.invokeH != nil {
				if alts, ok := x.invokeH(x, st, ifc.v, c.Method, args); ok {
					return &alts
				}
			}
			unsup("call of %s on opaque %v", c.Method, ifc.v)
		}
		fn = x.P.ssa.LookupMethod(ifc.typ, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			unsup("no method %s on %v", c.Method, ifc.typ)
		}
		args = append([]Value{ifc.v}, args...)
	} else {
		for _, a := range c.Args {
			args = append(args, x.val(st, fr, a))
		}
		switch f := c.Value.(type) {
		case *ssa.Function:
			fn = f
		default:
			cl, ok := x.val(st, fr, c.Value).(*Clos)
			if !ok {
				unsup("call through %T", x.val(st, fr, c.Value))
			}
			if cl == nil {
				return &[]Alt{{st: st, panic: "nil func call"}}
			}
			fn, bind = cl.fn, cl.bind
		}
	}
	_ = one
	if x.pre != nil {
		x.pre(x, st, fn, args)
	}
	if h := x.handlerFor(fn); h != nil {
		x.fnHits["[contract] "+fn.String()]++
		alts := h(x, st, args, c)
		if alts != nil {
			return &alts
		}
	}
	x.push(st, fn, args, bind, i)
	return nil
}

func (x *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, call ssa.Instruction) *[]Alt {
	one := func(v Value) *[]Alt { return &[]Alt{{st: st, v: v}} }
	arg := func(k int) Value { return x.val(st, fr, c.Args[k]) }
	switch b.Name() {
	case "len":
		switch v := arg(0).(type) {
		case Slice:
			return one(v.len)
		case Str:
			return one(x.C.I(int64(len(v.s))))
		case Ptr:
			return one(x.C.I(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		case *Agg:
			return one(x.C.I(c.Args[0].Type().Underlying().(*types.Array).Len()))
		case MapV:
			if v.obj == nil {
				return one(x.C.I(0))
			}
			return one(x.C.I(int64(len(st.os(v.obj).mp))))
		}
	case "cap":
		switch v := arg(0).(type) {
		case Slice:
			return one(v.cap)
		case Ptr:
			return one(x.C.I(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		}
	case "copy":
		d, ok := arg(0).(Slice)
		if !ok {
			unsup("copy to %T", arg(0))
		}
		s, ok := arg(1).(Slice)
		if !ok {
			if str, ok := arg(1).(Str); ok {
				s = x.convert(st, str, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])).(Slice)
			} else {
				unsup("copy from %T", arg(1))
			}
		}
		es := x.sizeof(c.Args[0].Type().Underlying().(*types.Slice).Elem())
		lt := x.C.Slt(s.len, d.len)
		if !lt.isC() {
			if x.Prove(st, lt) {
				lt = x.C.Bool(true)
			} else if x.Prove(st, x.C.Not(lt)) {
				lt = x.C.Bool(false)
			}
		}
		if !lt.isC() {
			// fork
			s2 := st.Clone()
			s2.Assume(lt)
			x.copyMem(s2, d.p, s.p, s.len, es)
			st.Assume(x.C.Not(lt))
			x.copyMem(st, d.p, s.p, d.len, es)
			return &[]Alt{{st: s2, v: s.len}, {st: st, v: d.len}}
		}
		n := d.len
		if lt.k == 1 {
			n = s.len
		}
		x.copyMem(st, d.p, s.p, n, es)
		return one(n)
	case "append":
		return x.appendB(st, fr, c, arg(0), arg(1))
	case "min", "max":
		t := c.Args[0].Type()
		r := arg(0).(*T)
		for k := 1; k < len(c.Args); k++ {
			q := arg(k).(*T)
			var lt *T
			if isSigned(t) {
				lt = x.C.Slt(q, r)
			} else {
				lt = x.C.Ult(q, r)
			}
			if b.Name() == "max" {
				lt = x.C.Not(lt)
			}
			if !lt.isC() && r.idx && q.idx {
				if x.Prove(st, lt) {
					lt = x.C.Bool(true)
				} else if x.Prove(st, x.C.Not(lt)) {
					lt = x.C.Bool(false)
				} else if len(c.Args) == 2 {
					s2 := st.Clone()
					s2.Assume(lt)
					st.Assume(x.C.Not(lt))
					return &[]Alt{{st: s2, v: q}, {st: st, v: r}}
				}
			}
			r = x.C.Ite(lt, q, r)
		}
		return one(r)
	case "clear":
		if s, ok := arg(0).(Slice); ok && s.len.isC() && s.p.obj != nil && s.p.off.isC() && s.p.obj.size >= 0 {
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			a := x.zero(types.NewArray(et, int64(s.len.k))).(*Agg)
			x.storeAt(st, s.p.obj, int64(s.p.off.k), a.size, a)
			return one(nil)
		}
	case "print", "println":
		return one(nil)
	case "ssa:wrapnilchk":
		return one(arg(0))
	case "String": // unsafe.String etc. unsupported
	case "SliceData", "StringData":
		if s, ok := arg(0).(Slice); ok {
			return one(s.p)
		}
	case "Slice":
		p := arg(0).(Ptr)
		n := x.toInt(arg(1), c.Args[1].Type())
		return one(Slice{p, n, n})
	case "Add":
		p := arg(0).(Ptr)
		return one(Ptr{p.obj, x.C.Add(p.off, x.toInt(arg(1), c.Args[1].Type()))})
	}
	unsup("builtin %s on %T in %s", b.Name(), arg(0), fr.fn)
	return nil
}

func (x *Exec) appendB(st *State, fr *Frame, c *ssa.CallCommon, a0, a1 Value) *[]Alt {
	d := a0.(Slice)
	if str, ok := a1.(Str); ok {
		a1 = x.convert(st, str, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]))
	}
	s := a1.(Slice)
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	es := x.sizeof(et)
	n := x.C.Add(d.len, s.len)
	fits := x.C.Not(x.C.Slt(d.cap, n))
	if !fits.isC() {
		if x.Prove(st, fits) {
			fits = x.C.Bool(true)
		} else if x.Prove(st, x.C.Not(fits)) {
			fits = x.C.Bool(false)
		}
	}
	grow := func(st *State) Value {
		// new array; capacity is some value >= n, taken as exactly n
		var r Slice
		if n.isC() {
			r = x.makeSlice(st, et, n, n)
		} else {
			r = x.makeSlice(st, et, n, n)
		}
		if d.p.obj != nil {
			x.copyMem(st, r.p, d.p, d.len, es)
		}
		if s.p.obj != nil {
			x.copyMem(st, Ptr{r.p.obj, x.C.Add(r.p.off, x.C.Mul(d.len, x.C.I(es)))}, s.p, s.len, es)
		}
		return r
	}
	inpl := func(st *State) Value {
		if d.p.obj == nil {
			return d
		}
		if s.p.obj != nil {
			x.copyMem(st, Ptr{d.p.obj, x.C.Add(d.p.off, x.C.Mul(d.len, x.C.I(es)))}, s.p, s.len, es)
		}
		return Slice{d.p, n, d.cap}
	}
	if fits.isCV(1) {
		return &[]Alt{{st: st, v: inpl(st)}}
	}
	if fits.isCV(0) {
		return &[]Alt{{st: st, v: grow(st)}}
	}
	s2 := st.Clone()
	s2.Assume(fits)
	v2 := inpl(s2)
	st.Assume(x.C.Not(fits))
	return &[]Alt{{st: s2, v: v2}, {st: st, v: grow(st)}}
}

// ---- decisions

// Prove reports whether the path condition implies c.
func (x *Exec) Prove(st *State, c *T) bool {
	if c.isC() {
		return c.k == 1
	}
	if st.pcset[c] {
		return true
	}
	if x.nosolver {
		return false
	}
	x.nprove++
	if sat, ok := x.C.enumSat(st.pc, x.C.Not(c)); ok {
		return !sat
	}
	if x.C.liaProves(st.pc, c) {
		return true
	}
	if x.C.witness(append(append([]*T(nil), st.pc...), x.C.Not(c))) {
		return false
	}
	if os.Getenv("GOVC_Q") != "" {
		fmt.Println("PROVE?", c, "PC", st.pc)
	}
	x.checkTime()
	r := x.Solver().Check(append(append([]*T(nil), st.pc...), x.C.Not(c)))
	return r == "unsat"
}

// Feasible reports whether c may hold together with the path condition.
func (x *Exec) Feasible(st *State, c *T) bool {
	if c.isC() {
		return c.k == 1
	}
	if st.pcset[c] {
		return true
	}
	if st.pcset[x.C.Not(c)] {
		return false
	}
	if x.never != nil && x.never(c) {
		return false
	}
	if x.nosolver {
		return true
	}
	if sat, ok := x.C.enumSat(st.pc, c); ok {
		return sat
	}
	if x.C.liaProves(st.pc, x.C.Not(c)) {
		return false
	}
	if all := append(append([]*T(nil), st.pc...), c); x.C.witness(all) {
		return true
	}
	if os.Getenv("GOVC_Q") != "" {
		fmt.Println("FEASIBLE?", c, "PC", st.pc)
	}
	x.checkTime()
	return x.Solver().Check(append(append([]*T(nil), st.pc...), c)) != "unsat"
}

func (x *Exec) Solver() *Solver {
	if x.solver == nil {
		x.solver = NewSolver()
	}
	return x.solver
}
func (x *Exec) Close() {
	if x.solver != nil {
		x.solver.Close()
		x.solver = nil
	}
}

// ---- library functions

type H1 func(x *Exec, st *State, a []Value) Value

func lift(f H1) Handler {
	return func(x *Exec, st *State, a []Value, c *ssa.CallCommon) []Alt {
		return []Alt{{st: st, v: f(x, st, a)}}
	}
}

var stdHandlers = map[string]Handler{}

func init() {
	s := stdHandlers
	s["math/bits.Add64"] = lift(func(x *Exec, st *State, a []Value) Value {
		sm, co := x.C.Adc(a[0].(*T), a[1].(*T), x.C.carryBit(a[2].(*T)))
		return Tuple{sm, x.C.Zext(co, 64)}
	})
	s["math/bits.Sub64"] = lift(func(x *Exec, st *State, a []Value) Value {
		d, bo := x.C.Sbb(a[0].(*T), a[1].(*T), x.C.carryBit(a[2].(*T)))
		return Tuple{d, x.C.Zext(bo, 64)}
	})
	s["math/bits.Mul64"] = lift(func(x *Exec, st *State, a []Value) Value {
		return Tuple{x.C.MulHi(a[0].(*T), a[1].(*T)), x.C.Mul(a[0].(*T), a[1].(*T))}
	})
	rot := func(w uint8) Handler {
		return lift(func(x *Exec, st *State, a []Value) Value {
			k := a[1].(*T)
			if !k.isC() {
				unsup("variable rotate")
			}
			return x.C.Rotl(a[0].(*T), k.k&uint64(w-1))
		})
	}
	s["math/bits.RotateLeft64"] = rot(64)
	s["math/bits.RotateLeft32"] = rot(32)
	s["math/bits.RotateLeft8"] = rot(8)
	s["math/bits.ReverseBytes64"] = lift(func(x *Exec, st *State, a []Value) Value { return bswap(x.C, a[0].(*T)) })
	s["math/bits.ReverseBytes32"] = lift(func(x *Exec, st *State, a []Value) Value { return bswap(x.C, a[0].(*T)) })
	s["math/bits.Len64"] = lift(func(x *Exec, st *State, a []Value) Value {
		t := a[0].(*T)
		n := x.C.topBit(t)
		if n < 0 {
			unsup("symbolic bits.Len64")
		}
		return x.C.I(int64(n))
	})
	s["math/bits.LeadingZeros64"] = lift(func(x *Exec, st *State, a []Value) Value {
		t := a[0].(*T)
		n := x.C.topBit(t)
		if n < 0 {
			unsup("symbolic bits.LeadingZeros64")
		}
		return x.C.I(int64(64 - n))
	})
	for _, e := range []string{"littleEndian", "bigEndian"} {
		e := e
		for _, n := range []int64{2, 4, 8} {
			n := n
			get := func(x *Exec, st *State, a []Value, c *ssa.CallCommon) []Alt {
				sl := a[1].(Slice)
				if g := x.guard(st, x.C.Not(x.C.Slt(sl.len, x.C.I(n))), "index out of range"); g != nil {
					return []Alt{{st: st, panic: "index out of range"}}
				}
				b := x.readBytes(st, sl.p, n)
				if e == "littleEndian" {
					for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
						b[i], b[j] = b[j], b[i]
					}
				}
				return []Alt{{st: st, v: x.C.Concat(b...)}}
			}
			put := func(x *Exec, st *State, a []Value, c *ssa.CallCommon) []Alt {
				sl := a[1].(Slice)
				if g := x.guard(st, x.C.Not(x.C.Slt(sl.len, x.C.I(n))), "index out of range"); g != nil {
					return []Alt{{st: st, panic: "index out of range"}}
				}
				v := a[2].(*T)
				if e == "littleEndian" && sl.p.obj.size >= 0 && sl.p.off.isC() {
					x.storeAt(st, sl.p.obj, int64(sl.p.off.k), n, v)
					return []Alt{{st: st}}
				}
				b := make([]*T, n)
				for i := int64(0); i < n; i++ {
					if e == "littleEndian" {
						b[i] = x.C.Extract(v, uint8(8*i), 8)
					} else {
						b[i] = x.C.Extract(v, uint8(8*(n-1-i)), 8)
					}
				}
				x.writeBytes(st, sl.p, b)
				return []Alt{{st: st}}
			}
			s[fmt.Sprintf("(encoding/binary.%s).Uint%d", e, n*8)] = get
			s[fmt.Sprintf("(encoding/binary.%s).PutUint%d", e, n*8)] = put
			app := func(x *Exec, st *State, a []Value, c *ssa.CallCommon) []Alt {
				unsup("binary.Append")
				return nil
			}
			s[fmt.Sprintf("(encoding/binary.%s).AppendUint%d", e, n*8)] = app
		}
	}
	nextErr := 0
	s["errors.New"] = lift(func(x *Exec, st *State, a []Value) Value {
		nextErr++
		m := ""
		if s, ok := a[0].(Str); ok {
			m = s.s
		}
		return Iface{types.NewPointer(types.Typ[types.String]), Opaque{name: "error:" + m}}
	})
	opq := func(n string) Handler {
		return lift(func(x *Exec, st *State, a []Value) Value { return Str{n} })
	}
	s["fmt.Sprintf"] = opq("sprintf")
	s["fmt.Sprint"] = opq("sprint")
	s["strconv.Itoa"] = opq("itoa")
	s["strconv.FormatInt"] = opq("itoa")
	s["fmt.Errorf"] = lift(func(x *Exec, st *State, a []Value) Value {
		return Iface{types.NewPointer(types.Typ[types.String]), Opaque{name: "error:fmt"}}
	})
	s["crypto/subtle.ConstantTimeCompare"] = func(x *Exec, st *State, a []Value, c *ssa.CallCommon) []Alt {
		p, q := a[0].(Slice), a[1].(Slice)
		if !p.len.isC() || !q.len.isC() {
			unsup("ConstantTimeCompare of symbolic lengths")
		}
		if p.len.k != q.len.k {
			return []Alt{{st: st, v: x.C.I(0)}}
		}
		return []Alt{{st: st, v: x.C.Zext(x.bytesEq(x.readBytes(st, p.p, int64(p.len.k)), x.readBytes(st, q.p, int64(q.len.k))), 64)}}
	}
	s["bytes.Equal"] = func(x *Exec, st *State, a []Value, c *ssa.CallCommon) []Alt {
		p, q := a[0].(Slice), a[1].(Slice)
		if !p.len.isC() || !q.len.isC() {
			unsup("bytes.Equal of symbolic lengths")
		}
		if p.len.k != q.len.k {
			return []Alt{{st: st, v: x.C.Bool(false)}}
		}
		return []Alt{{st: st, v: x.bytesEq(x.readBytes(st, p.p, int64(p.len.k)), x.readBytes(st, q.p, int64(q.len.k)))}}
	}
	s["crypto/subtle.ConstantTimeByteEq"] = lift(func(x *Exec, st *State, a []Value) Value {
		return x.C.Zext(x.C.Eq(a[0].(*T), a[1].(*T)), 64)
	})
	s["crypto/subtle.ConstantTimeEq"] = s["crypto/subtle.ConstantTimeByteEq"]
	s["runtime.KeepAlive"] = lift(func(x *Exec, st *State, a []Value) Value { return nil })
}

func bswap(c *Ctx, t *T) *T {
	var ps []*T
	for i := uint8(0); i < t.w; i += 8 {
		ps = append(ps, c.Extract(t, i, 8))
	}
	return c.Concat(ps...)
}

// bytesEq is a canonical equality of byte strings (one atom when symbolic).
func (x *Exec) bytesEq(p, q []*T) *T {
	r := x.C.Bool(true)
	for i := range p {
		e := x.C.Eq(p[i], q[i])
		if e.isCV(0) {
			return e
		}
		r = x.C.And(r, e)
	}
	return r
}

func (c *Ctx) carryBit(t *T) *T {
	if t.w == 1 {
		return t
	}
	// the carry argument must be 0 or 1
	if t.op == OConcat && len(t.a) == 2 && t.a[0].isCV(0) && t.a[1].w == 1 {
		return t.a[1]
	}
	if t.isC() && t.k <= 1 {
		return c.Const(1, t.k)
	}
	if c.ubound(t) <= 1 {
		return c.Extract(t, 0, 1)
	}
	unsup("carry argument not a bit: %v", t)
	return nil
}

func shortFn(s string) string {
	return strings.ReplaceAll(s, "github.com/henrydcase/nobs/", "")
}

// topBit: the bit length of t if its topmost one bit is at a known position, -1 otherwise.
func (c *Ctx) topBit(t *T) int {
	for i := int(t.w) - 1; i >= 0; i-- {
		b := c.Extract(t, uint8(i), 1)
		switch {
		case b.isCV(1):
			return i + 1
		case !b.isCV(0):
			return -1
		}
	}
	return 0
}
