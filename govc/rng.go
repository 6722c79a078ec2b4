package main

// Contracts of io.Reader sources of randomness: ReadFull fills the buffer with the next bytes of
// the stream or fails having written an unspecified prefix; Read may also return fewer bytes.

import (
	"fmt"
	"go/types"
)

type rngModel struct {
	x      *Exec
	name   string
	byteAt func(st *State, i int) *T // the i-th byte since the last epoch
	onRead func(st *State, n int)
	fails  bool // the source may fail
	short  bool // Read may return fewer bytes than asked for
}

var errType = types.NewPointer(types.Typ[types.String])

func (g *rngModel) iface() Iface {
	return Iface{types.NewPointer(types.Typ[types.Int]), Opaque{name: "rng:" + g.name}}
}

func (g *rngModel) is(v Value) bool {
	f, ok := v.(Iface)
	if ok {
		v = f.v
	}
	o, ok := v.(Opaque)
	return ok && o.name == "rng:"+g.name
}

func (g *rngModel) pos(st *State) int {
	n, _ := st.G("rng.pos." + g.name).(int)
	return n
}

func (g *rngModel) failed(st *State) bool { return st.G("rng.failed."+g.name) != nil }

func (g *rngModel) fill(st *State, s Slice, n int) {
	var b []*T
	p := g.pos(st)
	for i := 0; i < n; i++ {
		b = append(b, g.byteAt(st, p+i))
	}
	if n > 0 {
		g.x.writeBytes(st, s.p, b)
	}
	st.SetG("rng.pos."+g.name, p+n)
	if g.onRead != nil {
		g.onRead(st, n)
	}
}

func (g *rngModel) read(st *State, s Slice, full bool) []Alt {
	c := g.x.C
	if !s.len.isC() {
		unsup("random read of unknown length")
	}
	n := int(s.len.k)
	var r []Alt
	if g.failed(st) {
		unsup("read from a random source that has failed")
	}
	if g.fails {
		q := st.Clone()
		var b []*T
		for i := 0; i < n; i++ {
			b = append(b, c.Fresh(8, "rngpartial"))
		}
		if n > 0 {
			g.x.writeBytes(q, s.p, b)
		}
		q.SetG("rng.failed."+g.name, true)
		k := c.Fresh(64, "rngn")
		q.Assume(c.Ult(k, c.I(int64(n)+1)))
		r = append(r, Alt{st: q, v: Tuple{k, Iface{errType, Opaque{name: "rngerr"}}}})
	}
	if !full && g.short && n > 1 {
		q := st.Clone()
		g.fill(q, s, n/2)
		r = append(r, Alt{st: q, v: Tuple{c.I(int64(n / 2)), Iface{}}})
	}
	g.fill(st, s, n)
	return append(r, Alt{st: st, v: Tuple{c.I(int64(n)), Iface{}}})
}

func (x *Exec) newRng(name string, fails bool) *rngModel {
	g := &rngModel{x: x, name: name, fails: fails, short: true}
	g.byteAt = func(st *State, i int) *T { return x.C.Var(8, fmt.Sprintf("%s[%d]", name, i)) }
	h := func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		if !g.is(a[0]) {
			return nil
		}
		s := a[1].(Slice)
		if len(a) == 3 {
			if m, ok := a[2].(*T); !ok || !m.isC() || !s.len.isC() || m.k != s.len.k {
				return nil
			}
		}
		return g.read(st, s, true)
	}
	x.H["io.ReadFull"] = h
	x.H["io.ReadAtLeast"] = h
	old := x.invokeH
	x.invokeH = func(x *Exec, st *State, recv Value, m *types.Func, args []Value) ([]Alt, bool) {
		if g.is(recv) && m.Name() == "Read" && len(args) == 1 {
			return g.read(st, args[0].(Slice), false), true
		}
		if old != nil {
			return old(x, st, recv, m, args)
		}
		return nil, false
	}
	return g
}

// errNil tells a nil error from a non-nil one.
func errNil(v Value) (isNil, ok bool) {
	f, ok := v.(Iface)
	return f.typ == nil, ok
}
