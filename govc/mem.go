package main

// Byte-addressed object memory and run-time values of the symbolic executor.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Ptr struct {
	obj *Obj // nil: nil pointer
	off *T
}
type Slice struct {
	p        Ptr
	len, cap *T
}
type Iface struct {
	typ types.Type // nil: nil interface
	v   Value
}
type Clos struct {
	fn   *ssa.Function
	bind []Value
}
type Str struct{ s string }
type Opaque struct {
	name string
	data interface{}
}
type Tuple []Value
type MapV struct{ obj *Obj }

// Agg is a struct or array value held in a register: leaf cells by offset.
type Agg struct {
	size  int64
	cells []Cell
}

type Cell struct {
	v Value
	n int32 // size in bytes when a cell starts here, else 0
}

type Obj struct {
	id   int
	name string
	size int64 // bytes; -1: symbolic
	lenT *T    // byte size when symbolic
	glob bool
	// initial contents of a symbolic-size object, or of untouched cells of a lazy one
	init func(x *Exec, st *State, off *T, n int64, t types.Type) Value
}

type SymWrite struct {
	off, n *T
	bytes  []*T  // concrete-length write of bytes
	val    Value // one non-byte value
	src    *Obj  // copy of src[soff:soff+n], src must be immutable from here on
	soff   *T
	tag    string // opaque segment
}

type OState struct {
	owner *State
	cells []Cell
	wr    []SymWrite // for symbolic-size objects
	mp    []mapEnt
}
type mapEnt struct{ k, v Value }

type Frame struct {
	fn    *ssa.Function
	info  *FnInfo
	regs  []Value
	block *ssa.BasicBlock
	prev  *ssa.BasicBlock
	pc    int
	call  ssa.Instruction // call instruction in the caller awaiting our result
	defs  []*ssa.Defer
}

type State struct {
	heap   []*OState
	nobj   int
	frames []*Frame
	pc     []*T
	pcset  map[*T]bool
	ghost  map[string]interface{}
	steps  int
	log    []string
}

type execErr struct{ msg string }

func unsup(f string, a ...interface{}) { panic(execErr{fmt.Sprintf(f, a...)}) }

func (s *State) Clone() *State {
	n := &State{nobj: s.nobj, steps: s.steps}
	n.heap = append([]*OState(nil), s.heap...)
	// shared object states belong to nobody from now on
	for _, o := range s.heap {
		if o != nil && o.owner != nil {
			o.owner = nil
		}
	}
	for _, f := range s.frames {
		g := *f
		g.regs = append([]Value(nil), f.regs...)
		n.frames = append(n.frames, &g)
	}
	n.pc = append([]*T(nil), s.pc...)
	if s.pcset != nil {
		n.pcset = map[*T]bool{}
		for k := range s.pcset {
			n.pcset[k] = true
		}
	}
	if s.ghost != nil {
		n.ghost = map[string]interface{}{}
		for k, v := range s.ghost {
			if c, ok := v.(interface{ CloneGhost() interface{} }); ok {
				v = c.CloneGhost()
			}
			n.ghost[k] = v
		}
	}
	n.log = append([]string(nil), s.log...)
	return n
}

func (s *State) G(k string) interface{} { return s.ghost[k] }
func (s *State) SetG(k string, v interface{}) {
	if s.ghost == nil {
		s.ghost = map[string]interface{}{}
	}
	s.ghost[k] = v
}

func (s *State) Assume(c *T) {
	if c.isCV(1) || s.pcset[c] {
		return
	}
	if s.pcset == nil {
		s.pcset = map[*T]bool{}
	}
	s.pcset[c] = true
	s.pc = append(s.pc, c)
}

func (s *State) os(o *Obj) *OState {
	q := s.heap[o.id]
	if q == nil {
		unsup("%s has no contents on some of the merged paths", o.name)
	}
	return q
}
func (s *State) wos(o *Obj) *OState {
	q := s.os(o)
	if q.owner != s {
		n := &OState{owner: s}
		n.cells = append([]Cell(nil), q.cells...)
		n.wr = append([]SymWrite(nil), q.wr...)
		n.mp = append([]mapEnt(nil), q.mp...)
		s.heap[o.id] = n
		q = n
	}
	return q
}

func (x *Exec) NewObj(s *State, name string, size int64) *Obj {
	o := &Obj{id: len(s.heap), name: name, size: size}
	q := &OState{owner: s}
	if size >= 0 {
		q.cells = make([]Cell, size)
	}
	s.heap = append(s.heap, q)
	return o
}

// NewTyped allocates a zeroed object of type t.
func (x *Exec) NewTyped(s *State, name string, t types.Type) *Obj {
	o := x.NewObj(s, name, x.sizeof(t))
	x.zeroInto(s.os(o).cells, 0, t)
	return o
}

func (x *Exec) NewArr(s *State, name string, et types.Type, n int64) *Obj {
	es := x.sizeof(et)
	o := x.NewObj(s, name, es*n)
	cs := s.os(o).cells
	for i := int64(0); i < n; i++ {
		x.zeroInto(cs, i*es, et)
	}
	return o
}

// NewBytes allocates a byte object with the given contents.
func (x *Exec) NewBytes(s *State, name string, b []*T) *Obj {
	o := x.NewObj(s, name, int64(len(b)))
	cs := s.os(o).cells
	for i, t := range b {
		cs[i] = Cell{t, 1}
	}
	return o
}

// NewSymBytes allocates an immutable-until-written byte array of symbolic length.
func (x *Exec) NewSymBytes(s *State, name string, n *T) *Obj {
	o := x.NewObj(s, name, -1)
	o.lenT = n
	o.init = func(x *Exec, st *State, off *T, sz int64, t types.Type) Value {
		var ps []*T
		for i := sz - 1; i >= 0; i-- {
			ps = append(ps, x.C.UF(8, name, x.C.Add(off, x.C.I(i))))
		}
		return x.C.Concat(ps...)
	}
	return o
}

func (x *Exec) sizeof(t types.Type) int64 {
	if n, ok := x.szCache[t]; ok {
		return n
	}
	n := x.P.sizes.Sizeof(t)
	x.szCache[t] = n
	return n
}

func (x *Exec) zeroInto(cs []Cell, off int64, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		offs := x.fieldOffs(u)
		for i := 0; i < u.NumFields(); i++ {
			x.zeroInto(cs, off+offs[i], u.Field(i).Type())
		}
	case *types.Array:
		es := x.sizeof(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			x.zeroInto(cs, off+i*es, u.Elem())
		}
	default:
		n := x.sizeof(t)
		if n > 0 {
			cs[off] = Cell{x.zero(t), int32(n)}
		}
	}
}

func (x *Exec) fieldOffs(u *types.Struct) []int64 {
	if o, ok := x.foCache[u]; ok {
		return o
	}
	var fs []*types.Var
	for i := 0; i < u.NumFields(); i++ {
		fs = append(fs, u.Field(i))
	}
	o := x.P.sizes.Offsetsof(fs)
	x.foCache[u] = o
	return o
}

// zero value of a non-aggregate type, or an Agg
func (x *Exec) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return Ptr{}
		}
		if u.Info()&types.IsString != 0 {
			return Str{""}
		}
		if u.Info()&types.IsBoolean != 0 {
			return x.C.Bool(false)
		}
		if u.Info()&types.IsInteger != 0 {
			return x.C.Const(uint8(x.sizeof(t)*8), 0)
		}
		if u.Info()&types.IsFloat != 0 {
			return Opaque{name: "float"}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{Ptr{}, x.C.I(0), x.C.I(0)}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Clos)(nil)
	case *types.Map:
		return MapV{}
	case *types.Struct, *types.Array:
		a := &Agg{size: x.sizeof(t)}
		a.cells = make([]Cell, a.size)
		x.zeroInto(a.cells, 0, t)
		return a
	case *types.Tuple:
		var tp Tuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, x.zero(u.At(i).Type()))
		}
		return tp
	case *types.Chan:
		return Ptr{}
	}
	unsup("zero value of %v", t)
	return nil
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func isByteLike(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8 || b.Kind() == types.Bool)
}

// intWidth returns the bit width for integer/bool types (1 for bool), 0 otherwise.
func (x *Exec) intWidth(t types.Type) uint8 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	if b.Info()&types.IsBoolean != 0 {
		return 1
	}
	if b.Info()&types.IsInteger != 0 {
		return uint8(x.sizeof(t) * 8)
	}
	return 0
}
func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

type Splitter interface {
	// Sub extracts n bytes at offset off of a ghost cell, as a term
	Sub(x *Exec, off, n int64) *T
}

// loadBits reads n bytes at concrete offset as a term of 8n bits.
func (x *Exec) loadBits(s *State, o *Obj, off, n int64) *T {
	q := s.os(o)
	if off < 0 || off+n > int64(len(q.cells)) {
		unsup("load out of object %s: %d+%d of %d", o.name, off, n, len(q.cells))
	}
	c := q.cells[off]
	if int64(c.n) == n {
		if t, ok := c.v.(*T); ok {
			if t.w == 1 {
				return x.C.Zext(t, 8)
			}
			return t
		}
	}
	var ps []*T // least significant first
	for i := off; i < off+n; {
		j := i
		for j >= 0 && q.cells[j].n == 0 {
			j--
		}
		if j < 0 {
			if o.init != nil {
				v := o.init(x, s, x.C.I(i), 1, types.Typ[types.Uint8])
				ps = append(ps, v.(*T))
				i++
				continue
			}
			unsup("load of uninitialised %s+%d", o.name, i)
		}
		cc := q.cells[j]
		if j+int64(cc.n) <= i {
			if o.init != nil {
				v := o.init(x, s, x.C.I(i), 1, types.Typ[types.Uint8])
				ps = append(ps, v.(*T))
				i++
				continue
			}
			unsup("load of padding %s+%d", o.name, i)
		}
		end := j + int64(cc.n)
		if end > off+n {
			end = off + n
		}
		switch v := cc.v.(type) {
		case *T:
			if v.w == 1 {
				v = x.C.Zext(v, 8)
			}
			ps = append(ps, x.C.Extract(v, uint8((i-j)*8), uint8((end-i)*8)))
		case Splitter:
			e := end
			if e > i+8-(i-j)%8 {
				e = i + 8 - (i-j)%8
			}
			ps = append(ps, v.Sub(x, i-j, e-i))
			end = e
		default:
			unsup("load of bytes of %T in %s", cc.v, o.name)
		}
		i = end
	}
	for a, b := 0, len(ps)-1; a < b; a, b = a+1, b-1 {
		ps[a], ps[b] = ps[b], ps[a]
	}
	return x.C.Concat(ps...)
}

func (x *Exec) load(s *State, p Ptr, t types.Type) Value {
	if p.obj == nil {
		unsup("load through nil")
	}
	o := p.obj
	n := x.sizeof(t)
	if o.size < 0 {
		return x.symLoad(s, p, n, t)
	}
	if !p.off.isC() {
		return x.tableLoad(s, p, n, t)
	}
	off := int64(p.off.k)
	if isAgg(t) {
		q := s.os(o)
		if off+n > int64(len(q.cells)) {
			unsup("aggregate load out of object %s", o.name)
		}
		a := &Agg{size: n, cells: append([]Cell(nil), q.cells[off:off+n]...)}
		x.fixCut(s, o, off, a)
		return a
	}
	if w := x.intWidth(t); w > 0 {
		if w == 1 {
			c := s.os(o).cells[off]
			if v, ok := c.v.(*T); ok && c.n == 1 && v.w == 1 {
				return v
			}
			return x.C.Extract(x.loadBits(s, o, off, 1), 0, 1)
		}
		return x.loadBits(s, o, off, n)
	}
	q := s.os(o)
	if off < 0 || off >= int64(len(q.cells)) {
		unsup("load out of object %s+%d", o.name, off)
	}
	c := q.cells[off]
	if int64(c.n) != n {
		if c.n == 0 && o.init != nil {
			v := o.init(x, s, p.off, n, t)
			x.wosStore(s, o, off, n, v)
			return v
		}
		unsup("load of %v at %s+%d: cell size %d", t, o.name, off, c.n)
	}
	return c.v
}

func (x *Exec) wosStore(s *State, o *Obj, off, n int64, v Value) {
	q := s.wos(o)
	x.clobber(q, o, off, n)
	q.cells[off] = Cell{v, int32(n)}
}

// fixCut makes the first cell of an aggregate copy well formed when the source cell spans the boundary.
func (x *Exec) fixCut(s *State, o *Obj, off int64, a *Agg) {
	// leading part covered by an earlier cell
	if a.size == 0 {
		return
	}
	q := s.os(o)
	if a.cells[0].n == 0 {
		j := off
		for j >= 0 && q.cells[j].n == 0 {
			j--
		}
		if j >= 0 && j+int64(q.cells[j].n) > off {
			end := j + int64(q.cells[j].n)
			for i := off; i < end && i < off+a.size; i++ {
				a.cells[i-off] = Cell{x.loadBits(s, o, i, 1), 1}
			}
		}
	}
	// trailing cell extends past the end
	for i := a.size - 1; i >= 0; i-- {
		if a.cells[i].n > 0 {
			if i+int64(a.cells[i].n) > a.size {
				for k := i; k < a.size; k++ {
					a.cells[k] = Cell{x.loadBits(s, o, off+k, 1), 1}
				}
			}
			break
		}
	}
}

// clobber removes/splits cells overlapping [off,off+n).
func (x *Exec) clobber(q *OState, o *Obj, off, n int64) {
	cs := q.cells
	if off < 0 || off+n > int64(len(cs)) {
		unsup("store out of object %s: %d+%d of %d", o.name, off, n, len(cs))
	}
	// cell covering off from before
	if cs[off].n == 0 {
		j := off
		for j >= 0 && cs[j].n == 0 {
			j--
		}
		if j >= 0 && j+int64(cs[j].n) > off {
			x.explode(q, o, j)
		}
	}
	for i := off; i < off+n; {
		if k := int64(cs[i].n); k > 0 {
			if i+k > off+n {
				x.explode(q, o, i)
				continue
			}
			cs[i] = Cell{}
			i += k
		} else {
			i++
		}
	}
}

// explode splits the cell at j into bytes.
func (x *Exec) explode(q *OState, o *Obj, j int64) {
	c := q.cells[j]
	switch v := c.v.(type) {
	case *T:
		if v.w == 1 {
			v = x.C.Zext(v, 8)
		}
		for i := int64(0); i < int64(c.n); i++ {
			q.cells[j+i] = Cell{x.C.Extract(v, uint8(i*8), 8), 1}
		}
	case Splitter:
		for i := int64(0); i < int64(c.n); i += 8 {
			m := int64(8)
			if i+m > int64(c.n) {
				m = int64(c.n) - i
			}
			for k := int64(1); k < m; k++ {
				q.cells[j+i+k] = Cell{}
			}
			q.cells[j+i] = Cell{v.Sub(x, i, m), int32(m)}
		}
	default:
		unsup("partial overwrite of %T in %s", c.v, o.name)
	}
}

func (x *Exec) store(s *State, p Ptr, t types.Type, v Value) {
	if p.obj == nil {
		unsup("store through nil")
	}
	n := x.sizeof(t)
	if n == 0 {
		return
	}
	if p.obj.size < 0 {
		x.symStore(s, p, n, t, v)
		return
	}
	if !p.off.isC() {
		x.tableStore(s, p, n, t, v)
		return
	}
	x.storeAt(s, p.obj, int64(p.off.k), n, v)
}

func (x *Exec) storeAt(s *State, o *Obj, off, n int64, v Value) {
	q := s.wos(o)
	if a, ok := v.(*Agg); ok {
		if a.size != n {
			unsup("aggregate size %d vs %d", a.size, n)
		}
		x.clobber(q, o, off, n)
		copy(q.cells[off:off+n], a.cells)
		return
	}
	if t, ok := v.(*T); ok && t.w > 1 && int64(t.w) != n*8 {
		unsup("store width %d into %d bytes", t.w, n)
	}
	if off >= 0 && off < int64(len(q.cells)) && int64(q.cells[off].n) == n {
		q.cells[off].v = v
		return
	}
	x.clobber(q, o, off, n)
	q.cells[off] = Cell{v, int32(n)}
}

// tableLoad: symbolic index into a concrete object.
func (x *Exec) tableLoad(s *State, p Ptr, n int64, t types.Type) Value {
	w := x.intWidth(t)
	if w == 0 {
		unsup("symbolic index load of %v from %s", t, p.obj.name)
	}
	// off = base + scale*idx with an 8-bit idx
	base, scale, idx := x.splitIdx(p.off)
	if idx == nil {
		unsup("symbolic offset %v into %s", p.off, p.obj.name)
	}
	q := s.os(p.obj)
	var lt LutTab
	lt.w = w
	allc := true
	var vals [256]*T
	hi := int64(mask(idx.w))
	if h := int64(x.C.ubound(idx)); h < hi {
		hi = h
	}
	if hi > 255 {
		unsup("symbolic index wider than 8 bits into %s", p.obj.name)
	}
	last := -1
	for i := int64(0); i <= hi; i++ {
		off := base + scale*i
		if off < 0 || off+n > int64(len(q.cells)) {
			break // in-bounds was checked on the index; remaining values unreachable
		}
		vals[i] = x.loadBits(s, p.obj, off, n)
		if w == 1 {
			vals[i] = x.C.Extract(vals[i], 0, 1)
		}
		last = int(i)
		if !vals[i].isC() {
			allc = false
		} else {
			lt.tab[i] = vals[i].k
		}
	}
	if last < 0 {
		unsup("symbolic index outside %s", p.obj.name)
	}
	if allc {
		for i := last + 1; i < 256; i++ {
			lt.tab[i] = lt.tab[last]
		}
		ix := idx
		if ix.w < 8 {
			ix = x.C.Zext(ix, 8)
		} else if ix.w > 8 {
			ix = x.C.Extract(ix, 0, 8)
		}
		return x.C.Lut(&lt, ix)
	}
	r := vals[last]
	for i := last - 1; i >= 0; i-- {
		r = x.C.Ite(x.C.Eq(idx, x.C.Const(idx.w, uint64(i))), vals[i], r)
	}
	return r
}

func (x *Exec) tableStore(s *State, p Ptr, n int64, t types.Type, v Value) {
	base, scale, idx := x.splitIdx(p.off)
	tv, ok := v.(*T)
	if idx == nil || !ok {
		unsup("symbolic store into %s", p.obj.name)
	}
	hi := int64(x.C.ubound(idx))
	if hi > 255 {
		unsup("symbolic store index too wide into %s", p.obj.name)
	}
	for i := int64(0); i <= hi; i++ {
		off := base + scale*i
		if off < 0 || off+n > p.obj.size {
			break
		}
		old := x.loadBits(s, p.obj, off, n)
		x.storeAt(s, p.obj, off, n, x.C.Ite(x.C.Eq(idx, x.C.Const(idx.w, uint64(i))), tv, old))
	}
}

// splitIdx decomposes off = base + scale*zext(idx).
func (x *Exec) splitIdx(off *T) (base, scale int64, idx *T) {
	scale = 1
	t := off
	for {
		if t.op == OAdd && t.a[1].isC() {
			base += scale * int64(t.a[1].k)
			t = t.a[0]
			continue
		}
		if t.op == OMul && t.a[1].isC() {
			scale *= int64(t.a[1].k)
			t = t.a[0]
			continue
		}
		if t.op == OConcat {
			// zext(..) << k
			a := t.a
			if a[0].isCV(0) {
				a = a[1:]
			}
			if n := len(a); n > 1 && a[n-1].isCV(0) {
				scale <<= a[n-1].w
				a = a[:n-1]
			}
			if len(a) == 1 {
				return base, scale, a[0]
			}
			tt := x.C.Concat(a...)
			return base, scale, tt
		}
		break
	}
	if x.C.ubound(t) <= 255 {
		return base, scale, t
	}
	return 0, 0, nil
}

// ---- symbolic-size objects

// diff returns a-b when it is a constant.
func (x *Exec) cdiff(a, b *T) (int64, bool) {
	d := x.C.Sub(a, b)
	if d.isC() {
		return int64(d.k), true
	}
	return 0, false
}

// leq decides a<=b (signed mathematical, no overflow by construction) under the path condition.
func (x *Exec) leq(s *State, a, b *T) bool {
	if d, ok := x.cdiff(b, a); ok {
		return d >= 0
	}
	return x.Prove(s, x.C.Not(x.C.Slt(b, a)))
}

func (x *Exec) symLoad(s *State, p Ptr, n int64, t types.Type) Value {
	q := s.os(p.obj)
	if isAgg(t) {
		a := &Agg{size: n, cells: make([]Cell, n)}
		u := t.Underlying()
		if at, ok := u.(*types.Array); ok && isByteLike(at.Elem()) || len(q.wr) > 0 {
			for i := int64(0); i < n; i++ {
				a.cells[i] = Cell{x.symLoad(s, Ptr{p.obj, x.C.Add(p.off, x.C.I(i))}, 1, types.Typ[types.Uint8]), 1}
			}
			return a
		}
		v := p.obj.init(x, s, p.off, n, t)
		if g, ok := v.(*Agg); ok {
			return g
		}
		a.cells[0] = Cell{v, int32(n)}
		return a
	}
	if n > 1 && x.intWidth(t) > 0 {
		anyb := false
		for _, w := range q.wr {
			if w.bytes != nil || w.src != nil {
				anyb = true
			}
		}
		if anyb {
			var ps []*T
			for i := n - 1; i >= 0; i-- {
				ps = append(ps, x.symLoad(s, Ptr{p.obj, x.C.Add(p.off, x.C.I(i))}, 1, types.Typ[types.Uint8]).(*T))
			}
			return x.C.Concat(ps...)
		}
	}
	for i := len(q.wr) - 1; i >= 0; i-- {
		w := q.wr[i]
		if w.val != nil {
			if d, ok := x.cdiff(p.off, w.off); ok {
				if d == 0 {
					return w.val
				}
				if d >= n || d <= -n {
					continue
				}
			}
			unsup("load may alias symbolic write in %s", p.obj.name)
		}
		if w.bytes != nil {
			if d, ok := x.cdiff(p.off, w.off); ok {
				if d >= 0 && d < int64(len(w.bytes)) {
					return w.bytes[d]
				}
				continue
			}
		}
		// interval reasoning
		end := x.C.Add(w.off, w.n)
		if x.leq(s, end, p.off) || x.leq(s, x.C.Add(p.off, x.C.I(1)), w.off) {
			continue
		}
		if w.src != nil && x.leq(s, w.off, p.off) && x.leq(s, x.C.Add(p.off, x.C.I(1)), end) {
			return x.load(s, Ptr{w.src, x.C.Add(w.soff, x.C.Sub(p.off, w.off))}, t)
		}
		unsup("load may alias write in %s", p.obj.name)
	}
	if p.obj.init == nil {
		unsup("load of unwritten symbolic object %s", p.obj.name)
	}
	return p.obj.init(x, s, p.off, n, t)
}

func (x *Exec) symStore(s *State, p Ptr, n int64, t types.Type, v Value) {
	q := s.wos(p.obj)
	if tv, ok := v.(*T); ok && tv.w > 1 {
		b := make([]*T, n)
		for i := range b {
			b[i] = x.C.Extract(tv, uint8(i*8), 8)
		}
		x.symWriteBytes(s, p, b)
		return
	}
	if a, ok := v.(*Agg); ok {
		b := make([]*T, 0, n)
		for i := int64(0); i < n; {
			c := a.cells[i]
			tv, ok := c.v.(*T)
			if !ok || c.n == 0 {
				unsup("symbolic store of aggregate")
			}
			for k := int32(0); k < c.n; k++ {
				b = append(b, x.C.Extract(tv, uint8(k*8), 8))
			}
			i += int64(c.n)
		}
		x.symWriteBytes(s, p, b)
		return
	}
	q.wr = append(q.wr, SymWrite{off: p.off, n: x.C.I(n), val: v})
}

func (x *Exec) symWriteBytes(s *State, p Ptr, b []*T) {
	if len(b) == 0 {
		return
	}
	q := s.wos(p.obj)
	if k := len(q.wr); k > 0 && q.wr[k-1].bytes != nil {
		w := &q.wr[k-1]
		if d, ok := x.cdiff(p.off, w.off); ok && d == int64(len(w.bytes)) {
			nb := append(append([]*T(nil), w.bytes...), b...)
			w.bytes = nb
			w.n = x.C.I(int64(len(nb)))
			return
		} else if ok && d >= 0 && d+int64(len(b)) <= int64(len(w.bytes)) {
			nb := append([]*T(nil), w.bytes...)
			copy(nb[d:], b)
			w.bytes = nb
			return
		}
	}
	q.wr = append(q.wr, SymWrite{off: p.off, n: x.C.I(int64(len(b))), bytes: b})
}

// copyBytes implements copy(dst, src) of n elements of size es (n a term).
func (x *Exec) copyMem(s *State, dst, src Ptr, n *T, es int64) {
	if n.isCV(0) {
		return
	}
	if n.isC() {
		nb := int64(n.k) * es
		if dst.obj.size >= 0 && src.obj.size >= 0 && dst.off.isC() && src.off.isC() {
			// snapshot then store (memmove semantics)
			so, do := int64(src.off.k), int64(dst.off.k)
			q := s.os(src.obj)
			if so+nb > int64(len(q.cells)) {
				unsup("copy source out of object %s", src.obj.name)
			}
			a := &Agg{size: nb, cells: append([]Cell(nil), q.cells[so:so+nb]...)}
			x.fixCut(s, src.obj, so, a)
			if src.obj.init != nil {
				for i := int64(0); i < nb; {
					if a.cells[i].n == 0 {
						a.cells[i] = Cell{x.loadBits(s, src.obj, so+i, 1), 1}
					}
					i += int64(a.cells[i].n)
				}
			}
			x.storeAt(s, dst.obj, do, nb, a)
			return
		}
		if es == 1 {
			b := make([]*T, nb)
			for i := range b {
				b[i] = x.load(s, Ptr{src.obj, x.C.Add(src.off, x.C.I(int64(i)))}, types.Typ[types.Uint8]).(*T)
			}
			x.writeBytes(s, dst, b)
			return
		}
		unsup("copy of %d-byte elements with symbolic position", es)
	}
	if dst.obj.size < 0 && es == 1 {
		if src.obj.size < 0 {
			so := x.freeze(s, src.obj)
			q := s.wos(dst.obj)
			q.wr = append(q.wr, SymWrite{off: dst.off, n: n, src: so, soff: src.off})
			return
		}
	}
	unsup("copy of symbolic length %v from %s to %s", n, src.obj.name, dst.obj.name)
}

func (x *Exec) writeBytes(s *State, p Ptr, b []*T) {
	if len(b) == 0 {
		return
	}
	if p.obj.size < 0 {
		x.symWriteBytes(s, p, b)
		return
	}
	if !p.off.isC() {
		unsup("byte write at symbolic offset of %s", p.obj.name)
	}
	a := &Agg{size: int64(len(b)), cells: make([]Cell, len(b))}
	for i, t := range b {
		a.cells[i] = Cell{t, 1}
	}
	x.storeAt(s, p.obj, int64(p.off.k), a.size, a)
}

// readBytes reads n bytes at p.
func (x *Exec) readBytes(s *State, p Ptr, n int64) []*T {
	b := make([]*T, n)
	for i := range b {
		b[i] = x.load(s, Ptr{p.obj, x.C.Add(p.off, x.C.I(int64(i)))}, types.Typ[types.Uint8]).(*T)
	}
	return b
}

// freeze returns an object with o's current contents that nothing will write to.
func (x *Exec) freeze(s *State, o *Obj) *Obj {
	q := s.os(o)
	c := &Obj{id: len(s.heap), name: o.name + "'", size: o.size, lenT: o.lenT, init: o.init}
	s.heap = append(s.heap, &OState{owner: s, wr: append([]SymWrite(nil), q.wr...)})
	return c
}
