package main

// Path merging at loop headers: states that reach the same header in the same iteration become one, values that
// differ become conditionals. Deeper loops go first, so that the iterations of a loop run in lockstep.

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// poison stands for a value that only one of the merged paths has.
type poison struct{}

// ghostMerger: ghost state that can be merged; c is the condition under which the state is the first.
type ghostMerger interface {
	Merge(c *T, o interface{}) interface{}
}

type mergeCut struct {
	x      *Exec
	parked []*parkedState
	n      int
	// joinWords merges what a and b hold at off of an object; it returns the number of bytes it settled (0: none)
	joinWords func(c *T, a, b *State, dst *State, id int, off int64) int64
	// inv is consulted for the headers isInv accepts, with the merged state. nil: the path ends here.
	isInv func(fr *Frame, h *ssa.BasicBlock) bool
	inv   func(st *State, fr *Frame, h *ssa.BasicBlock, back bool) *State
	err   *execErr
	// objects by number and allocation site: paths that allocated alike share them, so their pointers merge
	objs map[allocSite]*Obj
}

type allocSite struct {
	id int
	at *ssa.Alloc
}

func (m *mergeCut) alloc(o *Obj, at *ssa.Alloc) *Obj {
	k := allocSite{o.id, at}
	if u := m.objs[k]; u != nil && u.size == o.size {
		return u
	}
	if m.objs == nil {
		m.objs = map[allocSite]*Obj{}
	}
	m.objs[k] = o
	return o
}

type parkedState struct {
	st         *State
	h          *ssa.BasicBlock
	back       bool
	depth, nst int
	key        string
	ints       []uint64
}

func (m *mergeCut) AtHeader(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock, back bool) ([]*State, bool) {
	p := &parkedState{st: st, h: h, back: back, depth: len(st.frames)}
	for _, body := range fr.info.headers {
		if body[h] {
			p.nst++
		}
	}
	for _, f := range st.frames[:len(st.frames)-1] {
		p.key += fmt.Sprintf("%p.%d.%d|", f.fn, f.block.Index, f.pc)
	}
	p.key += fmt.Sprintf("%p.%d|%v|", fr.fn, h.Index, back && m.isInv != nil && m.isInv(fr, h))
	for _, v := range phisOf(fr, h) {
		if t, ok := v.(*T); ok && t.isC() && t.w == 64 {
			p.ints = append(p.ints, t.k)
		}
	}
	p.key += fmt.Sprint(p.ints)
	// integers computed before the loop are not merged either (indices, mostly)
	for _, b := range fr.fn.Blocks {
		if b == h || !b.Dominates(h) {
			continue
		}
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if t, ok := fr.regs[fr.info.idx[v]].(*T); ok && t.isC() && t.w == 64 {
					p.key += fmt.Sprintf(",%d", t.k)
				}
			}
		}
	}
	m.parked = append(m.parked, p)
	return nil, true
}

// release gives the next merged state to continue with.
func (m *mergeCut) release() []*State {
	for len(m.parked) > 0 {
		best := m.parked[0]
		for _, p := range m.parked[1:] {
			switch {
			case p.depth != best.depth:
				if p.depth > best.depth {
					best = p
				}
			case p.nst != best.nst:
				if p.nst > best.nst {
					best = p
				}
			case p.h == best.h && p.key != best.key && len(p.ints) == len(best.ints):
				for i := range p.ints {
					if p.ints[i] != best.ints[i] {
						if p.ints[i] < best.ints[i] {
							best = p
						}
						break
					}
				}
			}
		}
		var grp []*State
		var rest []*parkedState
		for _, p := range m.parked {
			if p.key == best.key {
				grp = append(grp, p.st)
			} else {
				rest = append(rest, p)
			}
		}
		m.parked = rest
		st := m.tree(grp, 0)
		m.n++
		fr := st.frames[len(st.frames)-1]
		if m.isInv != nil && m.isInv(fr, best.h) {
			if st = m.inv(st, fr, best.h, best.back); st == nil {
				continue
			}
		}
		return []*State{st}
	}
	return nil
}

// tree merges states whose path conditions agree up to pos.
func (m *mergeCut) tree(ss []*State, pos int) *State {
	if len(ss) == 1 {
		return ss[0]
	}
	for {
		if pos >= len(ss[0].pc) {
			unsup("paths that are not alternatives of a branch meet at a loop")
		}
		l := ss[0].pc[pos]
		same := true
		for _, s := range ss[1:] {
			if pos >= len(s.pc) {
				unsup("paths that are not alternatives of a branch meet at a loop")
			}
			same = same && s.pc[pos] == l
		}
		if !same {
			break
		}
		pos++
	}
	c := m.x.C
	l := ss[0].pc[pos]
	nl := c.Not(l)
	var a, b []*State
	for _, s := range ss {
		switch s.pc[pos] {
		case l:
			a = append(a, s)
		case nl:
			b = append(b, s)
		default:
			return m.two(ss[0], m.tree(ss[1:], pos), pos)
		}
	}
	return m.join(l, m.tree(a, pos+1), m.tree(b, pos+1), pos)
}

// two merges states that are not the two sides of one branch; they must exclude each other.
func (m *mergeCut) two(a, b *State, pos int) *State {
	c := m.x.C
	ra, rb := c.Bool(true), c.Bool(true)
	for _, p := range a.pc[pos:] {
		ra = c.And(ra, p)
	}
	for _, p := range b.pc[min(pos, len(b.pc)):] {
		rb = c.And(rb, p)
	}
	ns := m.x.nosolver
	m.x.nosolver = false
	q := &State{pcset: map[*T]bool{}}
	q.Assume(ra)
	ok := m.x.Prove(q, c.Not(rb))
	m.x.nosolver = ns
	if !ok {
		unsup("paths that are not alternatives of a branch meet at a loop")
	}
	d := m.join(ra, a, b, len(a.pc))
	var pc []*T
	pc = append(pc, a.pc[:pos]...)
	d.pc, d.pcset = nil, map[*T]bool{}
	for _, p := range append(pc, c.Or(ra, rb)) {
		d.Assume(p)
	}
	return d
}

// join: the state that is a where l holds and b where it does not; a.pc[pos] == l, b.pc[pos] == not l.
func (m *mergeCut) join(l *T, a, b *State, pos int) *State {
	c := m.x.C
	d := a.Clone()
	d.pc, d.pcset = nil, map[*T]bool{}
	for _, p := range a.pc[:min(pos, len(a.pc))] {
		d.Assume(p)
	}
	inB := map[*T]bool{}
	for _, p := range b.pc[min(pos+1, len(b.pc)):] {
		inB[p] = true
	}
	ra, rb := c.Bool(true), c.Bool(true)
	com := map[*T]bool{}
	for _, p := range a.pc[min(pos+1, len(a.pc)):] {
		if inB[p] {
			com[p] = true
			d.Assume(p)
		} else {
			ra = c.And(ra, p)
		}
	}
	for _, p := range b.pc[min(pos+1, len(b.pc)):] {
		if !com[p] {
			rb = c.And(rb, p)
		}
	}
	if !ra.isCV(1) || !rb.isCV(1) {
		d.Assume(c.Ite(l, ra, rb))
	}
	if len(a.frames) != len(b.frames) {
		unsup("merge of different call depths")
	}
	for i, f := range d.frames {
		g := b.frames[i]
		if f.fn != g.fn || f.block != g.block || f.pc != g.pc || f.call != g.call {
			unsup("merge of different positions")
		}
		for k := range f.regs {
			f.regs[k] = m.val(l, f.regs[k], g.regs[k])
		}
		f.prev = nil
	}
	// the heap
	for id := range d.heap {
		if id >= len(b.heap) || b.heap[id] == nil {
			d.heap[id] = nil
			continue
		}
		if d.heap[id] == nil || d.heap[id] == b.heap[id] {
			continue
		}
		m.obj(l, a, b, d, id)
	}
	for len(d.heap) < len(b.heap) {
		d.heap = append(d.heap, nil)
	}
	if b.nobj > d.nobj {
		d.nobj = b.nobj
	}
	if b.steps > d.steps {
		d.steps = b.steps
	}
	var ks []string
	for k := range d.ghost {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		u, w := a.ghost[k], b.ghost[k]
		if g, ok := u.(ghostMerger); ok && w != nil {
			d.ghost[k] = g.Merge(l, w)
		} else if !ghostEq(u, w) {
			delete(d.ghost, k)
		}
	}
	return d
}

func ghostEq(a, b interface{}) (eq bool) {
	defer func() {
		if recover() != nil {
			eq = false
		}
	}()
	return a == b
}

func (m *mergeCut) val(l *T, a, b Value) Value {
	if a == nil || b == nil {
		return poison{}
	}
	switch u := a.(type) {
	case *T:
		w, ok := b.(*T)
		if ok && u == w {
			return u
		}
		if ok && u.w == w.w {
			return m.x.C.Ite(l, u, w)
		}
	case Ptr:
		if w, ok := b.(Ptr); ok && u.obj == w.obj {
			if u.off == w.off {
				return u
			}
			if u.off != nil && w.off != nil {
				return Ptr{u.obj, m.x.C.Ite(l, u.off, w.off)}
			}
		}
	case Slice:
		if w, ok := b.(Slice); ok {
			p, ok := m.val(l, u.p, w.p).(Ptr)
			if ok {
				return Slice{p, m.x.C.Ite(l, u.len, w.len), m.x.C.Ite(l, u.cap, w.cap)}
			}
		}
	case Tuple:
		if w, ok := b.(Tuple); ok && len(u) == len(w) {
			var r Tuple
			for i := range u {
				r = append(r, m.val(l, u[i], w[i]))
			}
			return r
		}
	case *Agg:
		if w, ok := b.(*Agg); ok {
			if u == w {
				return u
			}
			if u.size == w.size {
				r := &Agg{size: u.size, cells: append([]Cell(nil), u.cells...)}
				for i := range r.cells {
					if r.cells[i].n != w.cells[i].n {
						return poison{}
					}
					if r.cells[i].n > 0 {
						r.cells[i].v = m.val(l, u.cells[i].v, w.cells[i].v)
					}
				}
				return r
			}
		}
	default:
		if ghostEq(a, b) {
			return a
		}
	}
	return poison{}
}

// obj merges one heap object; d has a's contents.
func (m *mergeCut) obj(l *T, a, b, d *State, id int) {
	qa, qb := a.heap[id], b.heap[id]
	if len(qa.cells) != len(qb.cells) || len(qa.wr) > 0 || len(qb.wr) > 0 || len(qa.mp) > 0 || len(qb.mp) > 0 {
		d.heap[id] = nil
		return
	}
	n := &OState{owner: d, cells: append([]Cell(nil), qa.cells...)}
	d.heap[id] = n
	for off := int64(0); off < int64(len(n.cells)); {
		ca, cb := qa.cells[off], qb.cells[off]
		if ca.n == cb.n && (ca.n == 0 || sameVal(ca.v, cb.v)) {
			off++
			continue
		}
		if m.joinWords != nil {
			if k := m.joinWords(l, a, b, d, id, off); k > 0 {
				off += k
				continue
			}
		}
		if ca.n != cb.n {
			d.heap[id] = nil
			return
		}
		n.cells[off].v = m.val(l, ca.v, cb.v)
		off++
	}
}
