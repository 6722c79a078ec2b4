package main

// Contracts used by the KEM and PKE properties: SHAKE objects (C02-C04), SIDH key operations
// (C16), comparison of byte strings.

import (
	"fmt"
	"go/types"
)

type shakeG struct {
	kind  string
	known bool // false: an unknown history
	sq    bool
	msg   []*T
	pos   int
}

type shakeModel struct{ x *Exec }

func (x *Exec) shakeGet(st *State, p Ptr) shakeG {
	m, _ := st.G("shake").(map[int]shakeG)
	g, ok := m[p.obj.id]
	if !ok || !p.off.isCV(0) {
		unsup("operation on an unknown hash object")
	}
	return g
}

func (x *Exec) shakeSet(st *State, p Ptr, g shakeG) {
	m, _ := st.G("shake").(map[int]shakeG)
	n := map[int]shakeG{}
	for k, v := range m {
		n[k] = v
	}
	n[p.obj.id] = g
	st.SetG("shake", n)
}

// packWords turns bytes into 64-bit arguments (with the length).
func packWords(c *Ctx, b []*T) []*T {
	a := []*T{c.I(int64(len(b)))}
	for i := 0; i < len(b); i += 8 {
		var p []*T
		for k := i; k < i+8; k++ {
			if k < len(b) {
				p = append(p, b[k])
			} else {
				p = append(p, c.Const(8, 0))
			}
		}
		a = append(a, c.Concat(p...))
	}
	return a
}

// xof is the output of the extendable-output function as an uninterpreted function of the message.
func xof(c *Ctx, kind string, msg []*T, from, n int) []*T {
	h := c.UF(64, "absorb."+kind, packWords(c, msg)...)
	r := make([]*T, n)
	for i := range r {
		r[i] = c.UF(8, kind, h, c.I(int64(from+i)))
	}
	return r
}

// shakeContracts replaces the methods of sha3's objects by the contracts of C02-C04.
func shakeContracts(x *Exec) {
	c := x.C
	ST := x.P.Type("hash/sha3", "state")
	for nm, kind := range map[string]string{"NewShake128": "shake128", "NewShake256": "shake256"} {
		kind := kind
		x.H[x.P.MustFn("hash/sha3", nm).String()] = func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
			p := Ptr{x.NewTyped(st, kind, ST), c.I(0)}
			x.shakeSet(st, p, shakeG{kind: kind, known: true})
			return []Alt{{st: st, v: Iface{types.NewPointer(ST), p}}}
		}
	}
	x.H[x.P.MustFn("hash/sha3", "state.Reset").String()] = func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		p := a[0].(Ptr)
		x.shakeSet(st, p, shakeG{kind: x.shakeGet(st, p).kind, known: true})
		return []Alt{{st: st}}
	}
	x.H[x.P.MustFn("hash/sha3", "state.Write").String()] = func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		p, s := a[0].(Ptr), a[1].(Slice)
		g := x.shakeGet(st, p)
		if !s.len.isC() {
			unsup("Write of unknown length")
		}
		if g.sq {
			return []Alt{{st: st, v: Tuple{c.I(0), Iface{errType, Opaque{name: "sha3: write after read"}}}}}
		}
		if s.len.k > 0 {
			g.msg = append(append([]*T(nil), g.msg...), x.readBytes(st, s.p, int64(s.len.k))...)
		}
		x.shakeSet(st, p, g)
		return []Alt{{st: st, v: Tuple{s.len, Iface{}}}}
	}
	x.H[x.P.MustFn("hash/sha3", "state.Read").String()] = func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		p, s := a[0].(Ptr), a[1].(Slice)
		g := x.shakeGet(st, p)
		if !s.len.isC() {
			unsup("Read of unknown length")
		}
		n := int(s.len.k)
		var out []*T
		if g.known {
			out = xof(c, g.kind, g.msg, g.pos, n)
		} else {
			for i := 0; i < n; i++ {
				out = append(out, c.Fresh(8, "unknownhash"))
			}
		}
		if n > 0 {
			x.writeBytes(st, s.p, out)
		}
		g.sq, g.pos = true, g.pos+n
		x.shakeSet(st, p, g)
		return []Alt{{st: st, v: Tuple{s.len, Iface{}}}}
	}
}

// shakeForget gives every hash object an unknown history.
func (x *Exec) shakeForget(st *State) {
	m, _ := st.G("shake").(map[int]shakeG)
	n := map[int]shakeG{}
	for k, v := range m {
		n[k] = shakeG{kind: v.kind, sq: false, known: false}
	}
	st.SetG("shake", n)
}

type cmpRec struct {
	a, b []*T
	eq   bool
}

// cmpContracts: comparisons fork into equal and different, and are recorded.
func cmpContracts(x *Exec) {
	c := x.C
	h := func(w uint8) Handler {
		return func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
			p, q := a[0].(Slice), a[1].(Slice)
			if !p.len.isC() || !q.len.isC() {
				unsup("comparison of byte strings of unknown length")
			}
			if p.len.k != q.len.k {
				return []Alt{{st: st, v: c.Const(w, 0)}}
			}
			var pb, qb []*T
			if p.len.k > 0 {
				pb, qb = x.readBytes(st, p.p, int64(p.len.k)), x.readBytes(st, q.p, int64(q.len.k))
			}
			same := true
			for i := range pb {
				same = same && pb[i] == qb[i]
			}
			rec := func(st *State, eq bool) {
				l, _ := st.G("cmps").([]cmpRec)
				st.SetG("cmps", append(append([]cmpRec(nil), l...), cmpRec{pb, qb, eq}))
			}
			if same {
				rec(st, true)
				return []Alt{{st: st, v: c.Const(w, 1)}}
			}
			t := st.Clone()
			rec(st, true)
			rec(t, false)
			return []Alt{{st: st, v: c.Const(w, 1)}, {st: t, v: c.Const(w, 0)}}
		}
	}
	x.H["crypto/subtle.ConstantTimeCompare"] = h(64)
	x.H["bytes.Equal"] = h(1)
}

// ---- SIDH key operations

func sidhScalar(c *Ctx, F sidhPar, v byte, b []*T) []*T {
	bits := F.aBits
	if v == 'B' {
		bits = F.bBits
	}
	n := (bits + 7) / 8
	if len(b) < n {
		unsup("scalar of %d bytes, needs %d", len(b), n)
	}
	r := append([]*T(nil), b[:n]...)
	if k := bits % 8; k != 0 {
		r[n-1] = c.And(r[n-1], c.Const(8, mask(uint8(k))))
	}
	return r
}

// sidhPub: Montgomery words of the public key's three coordinates.
func sidhPub(c *Ctx, F sidhPar, v byte, scalar []*T) (w [3][]*T) {
	a := packWords(c, sidhScalar(c, F, v, scalar))
	for i := range w {
		for k := 0; k < 2*F.n; k++ {
			w[i] = append(w[i], c.UF(64, fmt.Sprintf("%s.pub%c.%d.%d", F.name, v, i, k), a...))
		}
	}
	return
}

// pubArgs recognises the canonical words of a generated public key.
func pubArgs(c *Ctx, x *Exec, F sidhPar, v byte, canon [3][]*T) []*T {
	t := canon[0][0]
	if t.op != OUF || t.name != F.name+".FromMontgomery.0" {
		return nil
	}
	t = t.a[0]
	if t.op != OUF || t.name != fmt.Sprintf("%s.pub%c.0.0", F.name, v) {
		return nil
	}
	a := t.a
	for i := range canon {
		var w []*T
		for k := 0; k < 2*F.n; k++ {
			w = append(w, c.UF(64, fmt.Sprintf("%s.pub%c.%d.%d", F.name, v, i, k), a...))
		}
		cw := montUF(x, F, "FromMontgomery", w)
		for k := range cw {
			if cw[k] != canon[i][k] {
				return nil
			}
		}
	}
	return a
}

// sidhSecret: bytes of the shared j-invariant for scalar (of group v) and the canonical coordinates
// of the peer's public key. Between generated keys both sides get the same value (C21, assumed).
func sidhSecret(x *Exec, F sidhPar, v byte, scalar []*T, canon [3][]*T) []*T {
	c := x.C
	a := packWords(c, sidhScalar(c, F, v, scalar))
	o := byte('A' + 'B' - v)
	var h *T
	if p := pubArgs(c, x, F, o, canon); p != nil {
		l := append(append([]*T(nil), a...), p...)
		if v == 'B' {
			l = append(append([]*T(nil), p...), a...)
		}
		h = c.UF(64, F.name+".jshared", l...)
	} else {
		for _, w := range canon {
			a = append(a, w...)
		}
		h = c.UF(64, fmt.Sprintf("%s.j%c", F.name, v), a...)
	}
	r := make([]*T, 2*F.bl)
	for i := range r {
		r[i] = c.UF(8, F.name+".jbyte", h, c.I(int64(i)))
	}
	return r
}

// sidhOps: contracts of PublicKeyGenX and DeriveSecretX (C16).
func sidhOps(x *Exec) {
	c := x.C
	montContracts(x)
	for _, F := range sidhPars {
		F := F
		for _, v := range []byte{'A', 'B'} {
			v := v
			x.H[x.P.MustFn("dh/sidh/internal/"+F.name, fmt.Sprintf("PublicKeyGen%c", v)).String()] = func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
				d, s := a[0].(Ptr), a[1].(Slice)
				if !s.len.isC() {
					unsup("scalar of unknown length")
				}
				w := sidhPub(c, F, v, x.readBytes(st, s.p, int64(s.len.k)))
				for i := range w {
					for h := 0; h < 2; h++ {
						for k := 0; k < F.n; k++ {
							x.store(st, Ptr{d.obj, c.Add(d.off, c.I(int64(192*i+96*h+8*k)))}, types.Typ[types.Uint64], w[i][h*F.n+k])
						}
						for k := F.n; k < 12; k++ {
							x.store(st, Ptr{d.obj, c.Add(d.off, c.I(int64(192*i+96*h+8*k)))}, types.Typ[types.Uint64], c.I(0))
						}
					}
				}
				return []Alt{{st: st}}
			}
			x.H[x.P.MustFn("dh/sidh/internal/"+F.name, fmt.Sprintf("DeriveSecret%c", v)).String()] = func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
				ss, s, p := a[0].(Slice), a[1].(Slice), a[2].(Ptr)
				if !s.len.isC() || !ss.len.isC() {
					unsup("buffer of unknown length")
				}
				if int(ss.len.k) < 2*F.bl {
					return []Alt{{st: st, panic: "DeriveSecret: output too short"}}
				}
				var canon [3][]*T
				for i := range canon {
					var w []*T
					for h := 0; h < 2; h++ {
						for k := 0; k < F.n; k++ {
							w = append(w, x.load(st, Ptr{p.obj, c.Add(p.off, c.I(int64(192*i+96*h+8*k)))}, types.Typ[types.Uint64]).(*T))
						}
					}
					canon[i] = montUF(x, F, "FromMontgomery", w)
				}
				x.writeBytes(st, ss.p, sidhSecret(x, F, v, x.readBytes(st, s.p, int64(s.len.k)), canon))
				return []Alt{{st: st}}
			}
		}
	}
}
