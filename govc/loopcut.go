package main

// Loop invariants for streaming loops: a loop that handles one block of a byte
// stream per iteration. The invariant at the header after j iterations is
//   - the designated state cells hold fold_i(j), where fold(0) is their value on
//     entry and fold(j+1) = step(fold(j), j),
//   - every integer, pointer or slice that changes is linear in j,
//   - the output object has received exactly the stream bytes of the blocks before j,
//   - anything else that changes is arbitrary.
// The linear parts are inferred from the first iteration and then proved inductive.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type StreamCut struct {
	N     *T                                      // number of iterations the contract expects, >= 1
	Cells func(st *State) (*Obj, []int64, int64)  // object, offsets and byte size of the designated cells
	Init  []*T                                    // their expected values on entry (nil: arbitrary)
	Step  func(st *State, vals []*T, j *T) [][]*T // stages; the last gives the values after iteration j
	Out   *Obj                                    // output object (symbolic size), may be nil
	OutB  func(j *T, vals, next []*T) []*T        // bytes iteration j writes
	Fold  func(i int, w uint8, j *T) *T
	Seed  int64
	// results
	Cut       int    // times the induction step was proved
	Structure string // the loop does not have the expected form
	Refuted   string // the induction step fails
	tag       int
}

type cutInfo struct {
	hdr   *ssa.BasicBlock
	depth int
	phase int
	phis  []Value
	heap  snapshot
	npc   int
	hist  [][]*T // designated cells at each visit so far
	it    int64  // iterations before the snapshot
	extra int    // iterations executed after the last whole block
	// generalisation
	gen func(j *T) *genState
	j   *T
}

type genState struct {
	phis  []Value
	cells map[cellKey]Value
	wr    []SymWrite
}
type cellKey struct {
	obj, off int
}

func (s *StreamCut) getCells(x *Exec, st *State) []*T {
	o, offs, n := s.Cells(st)
	r := make([]*T, len(offs))
	for i, f := range offs {
		r[i] = x.loadBits(st, o, f, n)
	}
	return r
}

func phisOf(fr *Frame, b *ssa.BasicBlock) []Value {
	var r []Value
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, fr.regs[fr.info.idx[ph]])
	}
	return r
}

type structErr struct{ m string }

func (s *StreamCut) AtHeader(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock, back bool) (res []*State, handled bool) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(structErr); ok {
				if s.Structure == "" {
					s.Structure = e.m
				}
				res, handled = nil, true
				return
			}
			panic(r)
		}
	}()
	key := fmt.Sprintf("cut:%d:%p", len(st.frames), h)
	ci, _ := st.G(key).(*cutInfo)
	if !back || ci == nil {
		st.SetG(key, &cutInfo{hdr: h, phase: 0, phis: phisOf(fr, h), heap: snap(st), npc: len(st.pc), hist: [][]*T{s.getCells(x, st)}})
		return nil, false
	}
	switch ci.phase {
	case 0:
		// an iteration that leads to the contract's initial values comes before the stream
		if s.Init != nil && len(ci.hist) == 1 && st.G("rebased") == nil && st.G("cutdone") == nil {
			if cur := s.getCells(x, st); eqAll(x.C, s.Seed, "", ci.hist[0], s.Init) != nil && eqAll(x.C, s.Seed, "", cur, s.Init) == nil {
				st.SetG("rebased", true)
				st.SetG(key, &cutInfo{hdr: h, phase: 0, phis: phisOf(fr, h), heap: snap(st), npc: len(st.pc), hist: [][]*T{cur}})
				return nil, false
			}
		}
		grown := false
		for _, c := range st.pc[ci.npc:] {
			if dependsOn(c, s.N) {
				grown = true
			}
		}
		if !grown {
			// an iteration that is exactly one step of the fold is the stream loop's
			cur, prev := s.getCells(x, st), ci.hist[len(ci.hist)-1]
			changed := false
			for i := range cur {
				changed = changed || cur[i] != prev[i]
			}
			if s.Out != nil && st.heap[s.Out.id] == ci.heap.os[s.Out.id] || st.G("cutdone") != nil {
				changed = false // another loop that happens to make the same step
			}
			if changed && s.equal(x, s.Step(st, prev, x.C.I(ci.it)), cur) == nil {
				grown = true
			}
		}
		if !grown {
			st.SetG(key, &cutInfo{hdr: h, phase: 0, phis: phisOf(fr, h), heap: snap(st), npc: len(st.pc), it: ci.it + 1, hist: append(append([][]*T(nil), ci.hist...), s.getCells(x, st))})
			return nil, false
		}
		return s.generalise(x, st, fr, h, ci, key), true
	case 1:
		s.checkStep(x, st, fr, h, ci)
		return nil, true
	}
	if ci.extra < 2 { // an incomplete block may be left to the loop
		n := *ci
		n.extra++
		st.SetG(key, &n)
		return nil, false
	}
	if x.Feasible(st, x.C.Bool(true)) {
		s.Refuted = "the loop iterates more often than the contract's block count"
	}
	return nil, true
}

func dependsOn(t, n *T) bool {
	vs := map[*T]bool{}
	for _, v := range reach(n) {
		if v.op == OVar {
			vs[v] = true
		}
	}
	for _, v := range reach(t) {
		if vs[v] {
			return true
		}
	}
	return false
}

func (s *StreamCut) generalise(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock, ci *cutInfo, key string) []*State {
	c := x.C
	die := func(f string, a ...interface{}) { panic(structErr{fmt.Sprintf(f, a...)}) }
	// base: entry values and the iterations so far
	if s.Init != nil {
		if e := eqAll(c, s.Seed, "state on loop entry", ci.hist[0], s.Init); e != nil {
			die("%s", e.Detail)
		}
	}
	got := s.getCells(x, st)
	hist := append(append([][]*T(nil), ci.hist...), got)
	var wantOut []*T
	blk := 0
	for k := 0; k+1 < len(hist); k++ {
		if e := s.equal(x, s.Step(st, hist[k], c.I(int64(k))), hist[k+1]); e != nil {
			die("iteration %d: %s", k, e.Detail)
		}
		if s.Out != nil {
			b := s.OutB(c.I(int64(k)), hist[k], hist[k+1])
			wantOut = append(wantOut, b...)
			blk = len(b)
		}
	}
	prev := ci.hist[len(ci.hist)-1]
	it := c.I(ci.it)
	fold := func(i int, j *T) *T { return s.Fold(i, got[i].w, j) }
	group := map[[2]*T]int{}
	for i := range got {
		group[[2]*T{prev[i], got[i]}] = i
	}
	fresh := map[[2]*T]*T{}
	var lin func(a, b Value) func(j *T) Value
	lin = func(a, b Value) func(j *T) Value {
		if sameVal(a, b) {
			return func(*T) Value { return a }
		}
		switch p := a.(type) {
		case *T:
			q, ok := b.(*T)
			if !ok || q.w != p.w {
				die("loop variable changes its type")
			}
			if i, ok := group[[2]*T{p, q}]; ok {
				return func(j *T) Value { return fold(i, j) }
			}
			if d := c.Sub(q, p); d.isC() && p.w == 64 {
				return func(j *T) Value { return c.Add(p, c.Mul(c.Sub(j, it), d)) }
			}
			if d := c.Sub(q, p); d.isC() && p.w > 1 && p.w < 64 {
				return func(j *T) Value {
					return c.Add(p, c.Mul(c.Extract(c.Sub(j, it), 0, p.w), d))
				}
			}
			k := [2]*T{p, q}
			f, ok := fresh[k]
			if !ok {
				f = c.Fresh(p.w, "havoc")
				fresh[k] = f
			}
			return func(*T) Value { return f }
		case Ptr:
			q, ok := b.(Ptr)
			if !ok || p.obj != q.obj || p.obj == nil {
				die("pointer changes its object in the loop")
			}
			f := lin(p.off, q.off)
			return func(j *T) Value { return Ptr{p.obj, f(j).(*T)} }
		case Slice:
			q, ok := b.(Slice)
			if !ok || p.p.obj != q.p.obj {
				die("slice changes its object in the loop")
			}
			fo, fl, fc := lin(p.p.off, q.p.off), lin(p.len, q.len), lin(p.cap, q.cap)
			return func(j *T) Value { return Slice{Ptr{p.p.obj, fo(j).(*T)}, fl(j).(*T), fc(j).(*T)} }
		}
		die("loop variable of kind %T", a)
		return nil
	}
	var pf []func(*T) Value
	for i, v := range phisOf(fr, h) {
		pf = append(pf, lin(ci.phis[i], v))
	}
	cf := map[cellKey]func(*T) Value{}
	var wrOff, wrLen *T
	for i := 0; i < ci.heap.n; i++ {
		a, b := ci.heap.os[i], st.heap[i]
		if a == b || a == nil || b == nil {
			continue
		}
		if len(a.cells) != len(b.cells) {
			die("object %d changes size", i)
		}
		for k := range a.cells {
			ca, cb := a.cells[k], b.cells[k]
			if ca.n == cb.n {
				if ca.n > 0 && !sameVal(ca.v, cb.v) {
					cf[cellKey{i, k}] = lin(ca.v, cb.v)
				}
				continue
			}
			// differently cut cells: compare bytewise when both are integers
			die("object %d is accessed with different widths in the loop", i)
		}
		if len(a.wr) != len(b.wr) {
			if s.Out == nil || s.Out.id != i {
				die("object %d is written at symbolic positions in the loop", i)
			}
		}
	}
	var wrPre []SymWrite
	if s.Out != nil {
		w := st.heap[s.Out.id].wr
		if len(w) == 0 {
			die("the first iterations write no output")
		}
		l := w[len(w)-1]
		if len(l.bytes) < len(wantOut) {
			die("the first iterations do not write whole blocks")
		}
		k := len(l.bytes) - len(wantOut)
		if e := eqAll(c, s.Seed, "output", l.bytes[k:], wantOut); e != nil {
			die("first iterations: %s", e.Detail)
		}
		wrPre = append([]SymWrite(nil), w[:len(w)-1]...)
		if k > 0 {
			wrPre = append(wrPre, SymWrite{off: l.off, n: c.I(int64(k)), bytes: l.bytes[:k]})
		}
		wrOff, wrLen = c.Add(l.off, c.I(int64(k))), c.I(int64(blk))
	}
	mk := func(j *T) *State {
		n := st.Clone()
		f := n.frames[len(n.frames)-1]
		for i, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			f.regs[f.info.idx[ph]] = pf[i](j)
		}
		for k, g := range cf {
			o := n.heap[k.obj]
			q := *o
			q.owner = n
			q.cells = append([]Cell(nil), o.cells...)
			v := g(j)
			q.cells[k.off] = Cell{v, o.cells[k.off].n}
			n.heap[k.obj] = &q
		}
		if wrOff != nil {
			q := *n.heap[s.Out.id]
			q.owner = n
			q.wr = append([]SymWrite(nil), wrPre...)
			q.wr = append(q.wr, SymWrite{off: wrOff, n: c.Mul(j, wrLen), tag: "stream"})
			n.heap[s.Out.id] = &q
		}
		return n
	}
	j := c.IdxVar(fmt.Sprintf("j!%d", s.tag), uint64(ci.it)+1, 1<<41)
	s.tag++
	g1 := mk(j)
	g1.pc, g1.pcset = append([]*T(nil), g1.pc[:ci.npc]...), nil
	rebuildPC(g1)
	g1.Assume(c.Ult(j, s.N))
	ng := *ci
	ng.phase, ng.j = 1, j
	ng.gen = func(k *T) *genState {
		z := &genState{cells: map[cellKey]Value{}}
		for _, p := range pf {
			z.phis = append(z.phis, p(k))
		}
		for kk, g := range cf {
			z.cells[kk] = g(k)
		}
		if wrOff != nil {
			z.wr = []SymWrite{{off: wrOff, n: c.Mul(k, wrLen)}}
		}
		return z
	}
	ng.heap = snap(g1)
	g1.SetG(key, &ng)
	g1.SetG("cutdone", true)
	// all iterations done
	g2 := mk(s.N)
	g2.pc, g2.pcset = append([]*T(nil), g2.pc[:ci.npc]...), nil
	rebuildPC(g2)
	n2 := *ci
	n2.phase = 2
	g2.SetG(key, &n2)
	g2.SetG("cutdone", true)
	var r []*State
	if x.Feasible(g1, c.Bool(true)) {
		r = append(r, g1)
	}
	return append(r, g2)
}

func rebuildPC(st *State) {
	old := st.pc
	st.pc, st.pcset = nil, nil
	for _, c := range old {
		st.Assume(c)
	}
}

func (s *StreamCut) equal(x *Exec, stages [][]*T, got []*T) *Res {
	if len(stages) == 1 {
		return eqAll(x.C, s.Seed, "state", got, stages[0])
	}
	r := proveByCuts(x.C, uint64(s.Seed), stages, got)
	if !r.OK {
		return &r
	}
	return nil
}

func (s *StreamCut) checkStep(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock, ci *cutInfo) {
	c := x.C
	fail := func(f string, a ...interface{}) {
		if s.Refuted == "" {
			s.Refuted = "induction step: " + fmt.Sprintf(f, a...)
		}
	}
	if !x.Feasible(st, c.Bool(true)) {
		return
	}
	o, offs, _ := s.Cells(st)
	cur := make([]*T, len(offs))
	got := s.getCells(x, st)
	for i := range offs {
		cur[i] = s.Fold(i, got[i].w, ci.j)
	}
	next := s.Step(st, cur, ci.j)
	if e := s.equal(x, next, got); e != nil {
		fail("%s", e.Detail)
		return
	}
	j1 := c.Add(ci.j, c.I(1))
	want := ci.gen(j1)
	last := next[len(next)-1]
	same := func(w, g Value) bool {
		if sameVal(w, g) {
			return true
		}
		wt, ok1 := w.(*T)
		gt, ok2 := g.(*T)
		if ok1 && ok2 {
			// havocked values may be anything; folds are equal by the step just shown
			if wt.op == OVar && strings.HasPrefix(wt.name, "havoc") {
				return true
			}
			for i := range last {
				if wt == s.Fold(i, wt.w, j1) {
					return gt == got[i]
				}
			}
			if wt.w != gt.w {
				return false
			}
			return c.Sub(wt, gt).isCV(0) || wt.w < 64 && x.Prove(st, c.Eq(wt, gt))
		}
		switch p := w.(type) {
		case Ptr:
			q, ok := g.(Ptr)
			return ok && p.obj == q.obj && c.Sub(p.off, q.off).isCV(0)
		case Slice:
			q, ok := g.(Slice)
			return ok && p.p.obj == q.p.obj && c.Sub(p.p.off, q.p.off).isCV(0) && c.Sub(p.len, q.len).isCV(0) && c.Sub(p.cap, q.cap).isCV(0)
		}
		return false
	}
	for i, v := range phisOf(fr, h) {
		if !same(want.phis[i], v) {
			fail("loop variable %d: %v, invariant wants %v", i, v, want.phis[i])
			return
		}
	}
	for i := 0; i < ci.heap.n; i++ {
		a, b := ci.heap.os[i], st.heap[i]
		if a == b || a == nil || b == nil {
			continue
		}
		for k := range b.cells {
			cb := b.cells[k]
			if w, ok := want.cells[cellKey{i, k}]; ok {
				if !same(w, cb.v) {
					fail("object %d+%d: %v, invariant wants %v", i, k, cb.v, w)
					return
				}
				continue
			}
			if a.cells[k].n != cb.n || cb.n > 0 && !sameVal(a.cells[k].v, cb.v) {
				fail("object %d+%d changes in a later iteration only", i, k)
				return
			}
		}
		if len(a.wr) != len(b.wr) {
			if s.Out == nil || s.Out.id != i || len(b.wr) != len(a.wr)+1 {
				fail("object %d written", i)
				return
			}
			w := b.wr[len(b.wr)-1]
			seg := a.wr[len(a.wr)-1]
			if !c.Sub(w.off, c.Add(seg.off, seg.n)).isCV(0) {
				fail("output block not written behind the previous one")
				return
			}
			if e := eqAll(c, s.Seed, "output", w.bytes, s.OutB(ci.j, cur, got)); e != nil {
				fail("%s", e.Detail)
				return
			}
		}
	}
	_ = o
	s.Cut++
}
