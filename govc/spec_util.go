package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) byteVars(name string, n int) []*T {
	b := make([]*T, n)
	for i := range b {
		b[i] = x.C.Var(8, fmt.Sprintf("%s%d", name, i))
	}
	return b
}

func (x *Exec) constBytes(b []byte) []*T {
	r := make([]*T, len(b))
	for i := range b {
		r[i] = x.C.Const(8, uint64(b[i]))
	}
	return r
}

// bytesSlice allocates a byte object and returns the slice covering it.
func (x *Exec) bytesSlice(st *State, name string, b []*T) (Slice, *Obj) {
	o := x.NewBytes(st, name, b)
	n := x.C.I(int64(len(b)))
	return Slice{Ptr{o, x.C.I(0)}, n, n}, o
}

func (x *Exec) nilSlice() Slice { return Slice{Ptr{nil, x.C.I(0)}, x.C.I(0), x.C.I(0)} }

// havocObj fills the integer cells of a typed object with fresh variables.
func (x *Exec) havocAt(st *State, o *Obj, off int64, t types.Type, name string) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			x.storeAt(st, o, off, 1, x.C.Var(1, name))
			return
		}
		if u.Info()&types.IsInteger != 0 {
			x.storeAt(st, o, off, x.sizeof(t), x.C.Var(uint8(8*x.sizeof(t)), name))
		}
	case *types.Array:
		es := x.sizeof(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			x.havocAt(st, o, off+i*es, u.Elem(), fmt.Sprintf("%s[%d]", name, i))
		}
	case *types.Struct:
		offs := x.fieldOffs(u)
		for i := 0; i < u.NumFields(); i++ {
			x.havocAt(st, o, off+offs[i], u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
	}
}

// snapshot remembers the heap for frame conditions.
type snapshot struct {
	n  int
	os []*OState
}

func snap(st *State) snapshot {
	for _, o := range st.heap {
		if o != nil {
			o.owner = nil // from now on writes copy
		}
	}
	return snapshot{len(st.heap), append([]*OState(nil), st.heap...)}
}

// frame reports a change of an object that existed at the snapshot, except those listed.
func (s snapshot) frame(st *State, allowed ...*Obj) string {
	m := map[int]bool{}
	for _, o := range allowed {
		m[o.id] = true
	}
	return frameChanged(st, s.os, s.n, m)
}

// sameBytes: the bytes [lo,hi) of o are as they were at the snapshot.
func (s snapshot) same(st *State, o *Obj, lo, hi int64) bool {
	a, b := s.os[o.id], st.heap[o.id]
	if a == b {
		return true
	}
	for i := lo; i < hi; i++ {
		if a.cells[i].n != b.cells[i].n || a.cells[i].n > 0 && !sameVal(a.cells[i].v, b.cells[i].v) {
			return false
		}
	}
	return true
}

// rets keeps the returning outcomes; a panic is reported.
func onlyRets(outs []*Outcome, err error) ([]*Outcome, string) {
	if err != nil {
		unsup("%v", err)
	}
	for _, o := range outs {
		if o.kind != "ret" {
			return nil, "panics: " + o.msg
		}
	}
	return outs, ""
}

// cexOf evaluates variables under a satisfying assignment of cs.
func (x *Exec) cexOf(cs []*T) string {
	if x.Solver().CheckModel(cs, true) != "sat" {
		return ""
	}
	m := map[string]string{}
	for k, v := range x.Solver().Model {
		m[k] = fmt.Sprintf("%#x", v)
	}
	return jsonStr(m)
}

type ssaCall = ssa.CallCommon

// pinned reports that the path fixes n to one of 1..k (cases the enumerated obligations decide).
func (x *Exec) pinned(st *State, n *T, k int) bool {
	for i := 1; i <= k; i++ {
		if !x.Feasible(st, x.C.Not(x.C.Eq(n, x.C.I(int64(i))))) {
			return true
		}
	}
	return false
}

// pinnedTo returns the value in 1..k the path fixes n to, or 0.
func (x *Exec) pinnedTo(st *State, n *T, k int) int {
	for i := 1; i <= k; i++ {
		if !x.Feasible(st, x.C.Not(x.C.Eq(n, x.C.I(int64(i))))) {
			return i
		}
	}
	return 0
}
