package main

// Induction over a list of recipients of symbolic length: the first iteration of the loop is checked
// against the specification of element 0, then the state is generalised to "the first j elements are
// done" for a symbolic j, one iteration from there is checked against the specification of element j,
// and on leaving the loop j equals the length.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type recipCut struct {
	x     *Exec
	n     *T   // number of recipients
	out   *Obj // symbolic-size output array
	es    int64
	check func(st *State, idx *T, w SymWrite) *Res // the element written in this iteration
	keep  func(o *Obj) bool                        // objects excluded from havoc (never: they must not change)
	fail  *Res
	strct string
	steps int
}

// recipGhost lives in the state.
type recipGhost struct {
	fr     *ssa.Function
	entry  map[string]recipEntry
	j      *T // symbolic number of elements done
	hdr    *ssa.BasicBlock
	snap   []*OState
	phis   []Value
	base   []Value
	hav    map[[2]int]bool
	npc    int
	nframe int
}

type recipEntry struct {
	npc  int
	snap []*OState
	phis []Value
	pc   []*T
}

func mentions(ts []*T, n *T) bool {
	for _, t := range ts {
		for _, v := range reach(t) {
			if v == n {
				return true
			}
		}
	}
	return false
}

// done: the index up to which the loop of st has been generalised (nil: not at all).
func (s *recipCut) done(st *State) *T {
	if g, ok := st.G("recip").(*recipGhost); ok && g.j != nil {
		return g.j
	}
	return nil
}

func (s *recipCut) AtHeader(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock, back bool) ([]*State, bool) {
	if s.fail != nil || s.strct != "" {
		return nil, true
	}
	c := x.C
	key := fmt.Sprintf("%s:%d:%d", fr.fn.String(), h.Index, len(st.frames))
	if g, ok := st.G("recip").(*recipGhost); ok && g.j != nil {
		if !back || g.hdr != h || g.nframe != len(st.frames) {
			return nil, false
		}
		// one iteration from the generalised state
		s.steps++
		for i, v := range phisOf(fr, h) {
			want := g.phis[i]
			if _, isT := want.(*T); isT && g.base[i] != nil {
				want = c.Add(want.(*T), g.base[i].(*T))
			}
			if !sameVal(v, want) {
				s.strct = "a loop variable does not step regularly"
				return nil, true
			}
		}
		if !x.Prove(st, c.Ult(g.j, s.n)) {
			s.strct = "an iteration beyond the number of recipients"
			return nil, true
		}
		bad := s.changed(st, g.snap, func(o, off int) { _ = off })
		for k := range bad {
			if !g.hav[k] {
				s.strct = fmt.Sprintf("object %d+%d changes only in later iterations", k[0], k[1])
				return nil, true
			}
		}
		s.elem(st, g.j)
		return nil, true
	}
	g, _ := st.G("recip").(*recipGhost)
	if g == nil {
		g = &recipGhost{}
	}
	if !back {
		n := &recipGhost{entry: map[string]recipEntry{}}
		for k, v := range g.entry {
			n.entry[k] = v
		}
		n.entry[key] = recipEntry{npc: len(st.pc), snap: snap(st).os, phis: append([]Value(nil), phisOf(fr, h)...), pc: append([]*T(nil), st.pc...)}
		st.SetG("recip", n)
		return nil, false
	}
	e, ok := g.entry[key]
	if !ok || len(st.pc) == e.npc || !mentions(st.pc[e.npc:], s.n) {
		return nil, false // a loop that does not depend on the number of recipients
	}
	// first iteration of the recipients' loop
	for _, p := range st.pc[e.npc:] {
		if mentions([]*T{p}, s.n) && !x.Prove(&State{pc: append(append([]*T(nil), e.pc...), c.Ult(c.I(0), s.n))}, p) {
			s.strct = "the first iteration assumes more than a recipient"
			return nil, true
		}
	}
	if len(st.os(s.out).wr) == 0 {
		s.strct = "the loop over the recipients writes no output in its first iteration"
		return nil, true
	}
	s.elem(st, c.I(0))
	if s.fail != nil || s.strct != "" {
		return nil, true
	}
	ng := &recipGhost{hdr: h, nframe: len(st.frames), hav: map[[2]int]bool{}}
	j := c.IdxVar("recipients done", 1, 1<<32)
	ng.j = j
	ph := phisOf(fr, h)
	var idx []int
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		idx = append(idx, fr.info.idx[p])
	}
	for i, v := range ph {
		if sameVal(v, e.phis[i]) {
			ng.phis, ng.base = append(ng.phis, v), append(ng.base, nil)
			continue
		}
		a, ok1 := e.phis[i].(*T)
		b, ok2 := v.(*T)
		if !ok1 || !ok2 || !a.isC() || !b.isC() || a.w != b.w || a.w != 64 {
			s.strct = "a loop variable of the recipients' loop is not a counter"
			return nil, true
		}
		d := c.Sub(b, a)
		nv := c.Add(a, c.Mul(j, d))
		fr.regs[idx[i]] = nv
		ng.phis, ng.base = append(ng.phis, nv), append(ng.base, d)
	}
	// cells that changed are unknown from now on
	for k := range s.changed(st, e.snap, nil) {
		ng.hav[k] = true
	}
	for id, q := range st.heap {
		if q == nil {
			continue
		}
		var o *Obj
		for k := range ng.hav {
			if k[0] == id {
				o = &Obj{id: id}
			}
		}
		if o == nil {
			continue
		}
		w := st.wos(o)
		for k := range ng.hav {
			if k[0] != id {
				continue
			}
			t, ok := w.cells[k[1]].v.(*T)
			if !ok {
				s.strct = "a loop changes something that is not a number"
				return nil, true
			}
			w.cells[k[1]].v = c.Fresh(t.w, "loop")
		}
	}
	w := st.wos(s.out)
	w.wr = nil
	x.shakeForget(st)
	st.pc, st.pcset = nil, map[*T]bool{}
	for _, p := range e.pc {
		st.Assume(p)
	}
	st.Assume(c.Ult(c.I(0), s.n))
	st.Assume(c.Not(c.Ult(s.n, j)))
	ng.snap = snap(st).os
	st.SetG("recip", ng)
	return []*State{st}, true
}

// changed lists the cells of concrete objects that differ from before.
func (s *recipCut) changed(st *State, before []*OState, _ func(o, off int)) map[[2]int]bool {
	r := map[[2]int]bool{}
	for id := range before {
		a, b := before[id], st.heap[id]
		if a == b || a == nil || b == nil || id == s.out.id {
			continue
		}
		if len(a.wr) != len(b.wr) {
			s.strct = "the loop writes another list"
			return r
		}
		for i := range b.cells {
			if a.cells[i].n != b.cells[i].n || a.cells[i].n > 0 && !sameVal(a.cells[i].v, b.cells[i].v) {
				if a.cells[i].n != b.cells[i].n {
					// a cell was split or joined: every new cell counts
					if b.cells[i].n == 0 {
						continue
					}
				}
				r[[2]int{id, i}] = true
			}
		}
	}
	return r
}

// elem checks that exactly element idx was written.
func (s *recipCut) elem(st *State, idx *T) {
	c := s.x.C
	lo := c.Mul(idx, c.I(s.es))
	wr := st.os(s.out).wr
	if len(wr) != 1 || wr[0].bytes == nil {
		s.strct = fmt.Sprintf("%d separate writes of one recipient's output", len(wr))
		return
	}
	if d, ok := s.x.cdiff(wr[0].off, lo); !ok || d < 0 || d+int64(len(wr[0].bytes)) > s.es {
		z := refuted("iteration for recipient %v writes at offset %v, the recipient's output is at %v", idx, wr[0].off, lo)
		s.fail = &z
		return
	}
	if z := s.check(st, idx, wr[0]); z != nil {
		z.Detail = "recipient " + strings.TrimSpace(fmt.Sprint(idx)) + ": " + z.Detail
		s.fail = z
	}
}
