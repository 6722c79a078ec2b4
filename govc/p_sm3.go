package main

import (
	"fmt"
	"go/types"
)

func init() { props["C05"] = propC05 }

var sm3IV = [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}

// sm3CF is the compression function of GB/T 32905-2016, 5.3.2-5.3.3; stages gets the working
// variables of each step when not nil.
func sm3CF(c *Ctx, v []*T, b []*T, stages *[][]*T) []*T {
	p1 := func(x *T) *T { return c.Xor(c.Xor(x, c.Rotl(x, 15)), c.Rotl(x, 23)) }
	p0 := func(x *T) *T { return c.Xor(c.Xor(x, c.Rotl(x, 9)), c.Rotl(x, 17)) }
	w := append([]*T(nil), b...)
	for j := 16; j < 68; j++ {
		t := c.Xor(c.Xor(w[j-16], w[j-9]), c.Rotl(w[j-3], 15))
		n := c.Xor(c.Xor(p1(t), c.Rotl(w[j-13], 7)), w[j-6])
		w = append(w, n)
		if stages != nil {
			*stages = append(*stages, []*T{n})
		}
	}
	s := append([]*T(nil), v...)
	for j := 0; j < 64; j++ {
		A, B, C, D, E, F, G, H := s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]
		tj := uint64(0x79cc4519)
		if j >= 16 {
			tj = 0x7a879d8a
		}
		tj = (tj<<(uint(j)%32) | tj>>(32-uint(j)%32)) & 0xffffffff
		a12 := c.Rotl(A, 12)
		ss1 := c.Rotl(c.Add(c.Add(a12, E), c.Const(32, tj)), 7)
		ss2 := c.Xor(ss1, a12)
		var ff, gg *T
		if j < 16 {
			ff = c.Xor(c.Xor(A, B), C)
			gg = c.Xor(c.Xor(E, F), G)
		} else {
			ff = c.Or(c.Or(c.And(A, B), c.And(A, C)), c.And(B, C))
			gg = c.Or(c.And(E, F), c.And(c.Not(E), G))
		}
		tt1 := c.Add(c.Add(c.Add(ff, D), ss2), c.Xor(w[j], w[j+4]))
		tt2 := c.Add(c.Add(c.Add(gg, H), ss1), w[j])
		s = []*T{tt1, A, c.Rotl(B, 9), C, p0(tt2), E, c.Rotl(F, 19), G}
		if stages != nil {
			*stages = append(*stages, []*T{ss1, tt1, s[4]})
		}
	}
	r := make([]*T, 8)
	for i := range r {
		r[i] = c.Xor(v[i], s[i])
	}
	return r
}

func sm3SpecTest() string {
	c := NewCtx()
	var v, b []*T
	for _, x := range sm3IV {
		v = append(v, c.Const(32, uint64(x)))
	}
	for i := 0; i < 16; i++ {
		k := uint64(0)
		if i == 0 {
			k = 0x61626380
		}
		if i == 15 {
			k = 24
		}
		b = append(b, c.Const(32, k))
	}
	s := ""
	for _, t := range sm3CF(c, v, b, nil) {
		s += fmt.Sprintf("%08x", t.k)
	}
	if s != "66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0" {
		return s
	}
	return ""
}

// words32 packs bytes into big-endian 32-bit words.
func words32(c *Ctx, b []*T) []*T {
	var r []*T
	for i := 0; i+4 <= len(b); i += 4 {
		r = append(r, c.Concat(b[i], b[i+1], b[i+2], b[i+3]))
	}
	return r
}

// sm3UF is the uninterpreted compression function contracts are stated over.
func sm3UF(c *Ctx, h, blk []*T) []*T {
	r := make([]*T, 8)
	a := append(append([]*T(nil), h...), words32(c, blk)...)
	for i := range r {
		r[i] = c.UF(32, fmt.Sprintf("sm3CF.%d", i), a...)
	}
	return r
}

type sm3Obj struct {
	x             *Exec
	o             *Obj
	hOff, lOff, b int64
}

func sm3New(x *Exec, st *State) *sm3Obj {
	T := x.P.Type("hash/sm3", "digest")
	s := &sm3Obj{x: x, o: x.NewTyped(st, "d", T)}
	u := T.Underlying().(*types.Struct)
	offs := x.fieldOffs(u)
	for i := 0; i < u.NumFields(); i++ {
		switch u.Field(i).Name() {
		case "h":
			s.hOff = offs[i]
		case "len":
			s.lOff = offs[i]
		case "b":
			s.b = offs[i]
		}
	}
	x.havocAt(st, s.o, 0, T, "d")
	return s
}
func (s *sm3Obj) h(st *State) (r []*T) {
	for i := int64(0); i < 8; i++ {
		r = append(r, s.x.loadBits(st, s.o, s.hOff+4*i, 4))
	}
	return
}
func (s *sm3Obj) len(st *State) *T { return s.x.loadBits(st, s.o, s.lOff, 8) }
func (s *sm3Obj) buf(st *State) []*T {
	return s.x.readBytes(st, Ptr{s.o, s.x.C.I(s.b)}, 64)
}
func (s *sm3Obj) ptr() Ptr { return Ptr{s.o, s.x.C.I(0)} }

// sm3Contract installs the contract of compress: h := fold of sm3CF over the blocks.
// It applies to the signature (*digest, []byte, int); otherwise the body is executed.
func sm3Contract(x *Exec) bool {
	fn := x.P.Fn("hash/sm3", "digest.compress")
	if fn == nil || fn.Signature.Params().Len() != 2 || fn.Signature.Results().Len() != 0 {
		return false
	}
	x.H[fn.String()] = func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		p, s := a[0].(Ptr), a[1].(Slice)
		n, ok := a[2].(*T)
		if !ok || !p.off.isC() {
			return nil
		}
		if !n.isC() {
			return sm3ContractSym(x, st, p, s, n)
		}
		if !x.leq(st, x.C.I(int64(64*n.k)), s.len) && !s.len.isC() {
			return nil
		}
		if sgn(n.k, 64) < 0 || s.len.isC() && 64*n.k > s.len.k {
			return []Alt{{st: st, panic: "compress: precondition len(input) >= 64*blocks"}}
		}
		so := &sm3Obj{x: x, o: p.obj}
		T := x.P.Type("hash/sm3", "digest").Underlying().(*types.Struct)
		offs := x.fieldOffs(T)
		for i := range offs {
			if T.Field(i).Name() == "h" {
				so.hOff = offs[i] + int64(p.off.k)
			}
		}
		h := so.h(st)
		for k := uint64(0); k < n.k; k++ {
			h = sm3UF(x.C, h, x.readBytes(st, Ptr{s.p.obj, x.C.Add(s.p.off, x.C.I(int64(64*k)))}, 64))
		}
		for i := range h {
			x.storeAt(st, p.obj, so.hOff+int64(4*i), 4, h[i])
		}
		return []Alt{{st: st}}
	}
	return true
}

func sm3Fold(c *Ctx, i int, n *T) *T { return c.UF(32, fmt.Sprintf("sm3fold.%d", i), n) }

// sm3ContractSym: the same contract for a symbolic number of blocks; the fold over the
// data is the uninterpreted function of the entry state, the position and the count.
func sm3ContractSym(x *Exec, st *State, p Ptr, s Slice, n *T) []Alt {
	c := x.C
	if !x.Prove(st, c.Slt(c.I(0), n)) || !x.Prove(st, c.Not(c.Ult(s.len, c.Mul(n, c.I(64))))) {
		return nil
	}
	so := &sm3Obj{x: x, o: p.obj}
	ty := x.P.Type("hash/sm3", "digest").Underlying().(*types.Struct)
	offs := x.fieldOffs(ty)
	for i := range offs {
		if ty.Field(i).Name() == "h" {
			so.hOff = offs[i] + int64(p.off.k)
		}
	}
	h, off := so.h(st), s.p.off
	// the fold over m+k blocks is the fold over m blocks after k single ones
	for k := 1; x.foldM != nil && k <= 3; k++ {
		if x.Prove(st, c.Eq(n, c.Add(x.foldM, c.I(int64(k))))) {
			for ; k > 0; k-- {
				h = sm3UF(c, h, x.readBytes(st, Ptr{s.p.obj, off}, 64))
				off = c.Add(off, c.I(64))
			}
			n = x.foldM
		}
	}
	for i, w := range sm3FoldF(c, h, s.p.obj.name, off, n) {
		x.storeAt(st, p.obj, so.hOff+int64(4*i), 4, w)
	}
	return []Alt{{st: st}}
}

// sm3FoldF: the fold of the compression function over n blocks of the named data from off on.
func sm3FoldF(c *Ctx, h []*T, data string, off, n *T) (r []*T) {
	for i := range h {
		r = append(r, c.UF(32, fmt.Sprintf("sm3foldF.%d", i), append(append([]*T(nil), h...), c.UF(64, "data."+data), off, n)...))
	}
	return r
}

// sm3Many proves compress for every number of blocks by induction over its loop.
func sm3Many(r *Report) Res {
	x := newX("amd64")
	defer x.Close()
	defer r.Merge(x)
	c := x.C
	st := x.NewState()
	d := sm3New(x, st)
	m := c.IdxVar("blocks", 2, 1<<40)
	n := c.Add(c.Mul(m, c.I(64)), c.IdxVar("rest", 0, 1<<20))
	in := x.NewSymBytes(st, "in", n)
	h0 := d.h(st)
	sn := snap(st)
	sc := &StreamCut{N: m, Seed: r.Seed, Init: h0,
		Cells: func(*State) (*Obj, []int64, int64) {
			var o []int64
			for i := int64(0); i < 8; i++ {
				o = append(o, d.hOff+4*i)
			}
			return d.o, o, 4
		},
		Step: func(st *State, v []*T, j *T) [][]*T {
			b := x.readBytes(st, Ptr{in, c.Mul(j, c.I(64))}, 64)
			var stages [][]*T
			h := sm3CF(c, v, words32(c, b), &stages)
			return append(stages, h)
		},
		Fold: func(i int, w uint8, j *T) *T { return sm3Fold(c, i, j) },
	}
	x.cutAll = sc
	fn := x.P.MustFn("hash/sm3", "digest.compress")
	outs, err := x.Call(st, fn, d.ptr(), Slice{Ptr{in, c.I(0)}, n, n}, m)
	if err != nil || sc.Structure != "" || sc.Cut == 0 && sc.Refuted == "" {
		return Res{OK: true, Bounded: fmt.Sprintf("loop induction not established for this form of the loop (%v %s); only the enumerated block counts are decided", err, sc.Structure)}
	}
	if sc.Refuted != "" {
		return refuted("%s", sc.Refuted)
	}
	for _, q := range outs {
		if !x.Feasible(q.st, c.Bool(true)) || x.pinned(q.st, m, 3) {
			continue
		}
		if q.kind != "ret" {
			return refuted("panics: %s", q.msg)
		}
		if m := sn.frame(q.st, d.o); m != "" {
			return refuted("frame: %s", m)
		}
		if !sn.same(q.st, d.o, d.lOff, d.lOff+8) || !sn.same(q.st, d.o, d.b, d.b+64) {
			return refuted("frame: len or b assigned")
		}
		for i, t := range d.h(q.st) {
			if t != sm3Fold(c, i, m) {
				return refuted("h[%d] is not the fold over all blocks", i)
			}
		}
	}
	return okd("induction step proved on %d paths, %d exits", sc.Cut, len(outs))
}

// eqAll: equality of term lists, identical after canonicalisation or refuted by simulation.
func eqAll(c *Ctx, seed int64, what string, got, want []*T) *Res {
	if len(got) != len(want) {
		r := refuted("%s: length %d, want %d", what, len(got), len(want))
		return &r
	}
	for i := range got {
		if got[i] == want[i] {
			continue
		}
		sims := NewSims(c, 3, uint64(seed)+5)
		for _, e := range sims.envs {
			if g, w := e.Eval(c, got[i]), e.Eval(c, want[i]); g != w {
				r := Res{Status: "refuted", Detail: fmt.Sprintf("%s[%d] is %#x, specification says %#x", what, i, g, w), Cex: envJSON(e)}
				return &r
			}
		}
		if ok, _ := NewNF(c).Equal(got[i], want[i]); ok {
			continue
		}
		r := undecided("%s[%d]: not shown equal", what, i)
		return &r
	}
	return nil
}

func propC05(r *Report) {
	r.Under = []string{"hash/sm3.(*digest).compress", "hash/sm3.(*digest).Write", "hash/sm3.(*digest).Sum", "hash/sm3.(*digest).Reset", "hash/sm3.New"}
	r.Replay = &ReplaySpec{Files: map[string]string{"hash/sm3/zz_verif_test.go": "sm3_test.go"}, Pkg: []string{"./hash/sm3"}, Run: "TestVerifSM3"}
	r.Ob("spec: GB/T 32905 specification reproduces the standard's example 1", "evaluation", func() Res {
		if m := sm3SpecTest(); m != "" {
			return undecided("%s", m)
		}
		return ok()
	})
	var jobs []func()
	for nb := 0; nb <= 3; nb++ {
		nb := nb
		nm := "compress(input, 1): ensures h == CF(old(h), input[:64]), assigns only h"
		if nb != 1 {
			nm = fmt.Sprintf("compress(input, %d): ensures h == fold of CF over the blocks, assigns only h", nb)
		}
		jobs = append(jobs, func() {
			r.Ob(nm, "symbolic execution + word-level normal form with per-step cut points", func() Res {
				x := newX("amd64")
				defer x.Close()
				defer r.Merge(x)
				c := x.C
				st := x.NewState()
				d := sm3New(x, st)
				h0 := d.h(st)
				var ws, bs []*T
				for i := 0; i < 16*nb; i++ {
					w := c.Var(32, fmt.Sprintf("w%d", i))
					ws = append(ws, w)
					for k := 3; k >= 0; k-- {
						bs = append(bs, c.Extract(w, uint8(8*k), 8))
					}
				}
				for i := 0; i < nb*5; i++ { // more input than blocks
					bs = append(bs, c.Var(8, fmt.Sprintf("t%d", i)))
				}
				s, _ := x.bytesSlice(st, "input", bs)
				sn := snap(st)
				fn := x.P.Fn("hash/sm3", "digest.compress")
				if fn == nil || fn.Signature.Params().Len() != 2 || fn.Signature.Results().Len() != 0 {
					return Res{OK: true, Bounded: "compress(input, blocks) no longer exists: its block function is decided through Write and Sum only"}
				}
				q := oneRet(x.Call(st, fn, d.ptr(), s, c.I(int64(nb))))
				if m := sn.frame(q.st, d.o); m != "" {
					return refuted("frame: %s", m)
				}
				if !sn.same(q.st, d.o, d.lOff, d.lOff+8) || !sn.same(q.st, d.o, d.b, d.b+64) {
					return refuted("frame: len or b assigned")
				}
				h, stages := h0, [][]*T{}
				for k := 0; k < nb; k++ {
					h = sm3CF(c, h, ws[16*k:16*k+16], &stages)
					stages = append(stages, h)
				}
				stages = append(stages, h)
				return proveByCuts(c, uint64(r.Seed), stages, d.h(q.st))
			})
		})
	}
	jobs = append(jobs, func() {
		r.Ob("compress(input, blocks) for every blocks >= 1: ensures h == fold of CF over input[:64*blocks], assigns only h", "loop invariant (inferred linear variables, fold), normal form with cut points, z3", func() Res { return sm3Many(r) })
	})
	// Write: every buffer fill level and every input length up to two more blocks
	maxExtra := 130
	for idx := 0; idx < 64; idx += 8 {
		idx := idx
		jobs = append(jobs, func() {
			r.Ob(fmt.Sprintf("Write: fill level %d..%d, input length 0..%d: h, len, b[:len%%64] absorb input; returns (len(input), nil); assigns only *d", idx, idx+7, 64+maxExtra), "symbolic execution over the compress contract", func() Res {
				n := 0
				x := newX("amd64")
				defer x.Close()
				defer r.Merge(x)
				sm3Contract(x)
				for i := idx; i < idx+8; i++ {
					for l := 0; l <= 64-i+maxExtra; l++ {
						if q := sm3Write(r, x, i, l); !q.OK {
							q.Detail = fmt.Sprintf("fill level %d, input length %d: ", i, l) + q.Detail
							return q
						}
						n++
					}
				}
				return Res{OK: true, Detail: fmt.Sprintf("%d shapes", n)}
			})
		})
	}
	for idx := 0; idx < 64; idx += 8 {
		idx := idx
		jobs = append(jobs, func() {
			r.Ob(fmt.Sprintf("Write: fill level %d..%d, every longer input (rest of block + 64*m + t bytes, every m >= 1): h, len, b absorb input; returns (len(input), nil); assigns only *d", idx, idx+7), "symbolic execution (symbolic length) over the compress contract, z3", func() Res {
				n := 0
				x := newX("amd64")
				defer x.Close()
				defer r.Merge(x)
				if !sm3Contract(x) {
					return Res{OK: true, Bounded: "no block function with the expected contract; longer inputs are not decided"}
				}
				for i := idx; i < idx+8; i++ {
					for t := 0; t < 64; t++ {
						var q Res
						func() {
							defer func() {
								if p := recover(); p != nil {
									if e, isE := p.(execErr); isE {
										q = Res{OK: true, Bounded: "longer inputs not decided: " + e.msg}
										return
									}
									panic(p)
								}
							}()
							q = sm3WriteMany(r, x, i, t)
						}()
						if !q.OK {
							q.Detail = fmt.Sprintf("fill level %d, t = %d: ", i, t) + q.Detail
							return q
						}
						if q.Bounded != "" {
							return q
						}
						n++
					}
				}
				return okd("%d shapes", n)
			})
		})
	}
	jobs = append(jobs, func() {
		r.Ob("Sum(nil): every fill level: ensures result == digest by padding of (h, b[:len%64], len), fresh 32-byte slice; assigns nothing", "symbolic execution over the compress contract", func() Res {
			x := newX("amd64")
			defer x.Close()
			defer r.Merge(x)
			sm3Contract(x)
			for i := 0; i < 64; i++ {
				for _, mode := range []string{"nil", "empty"} {
					if q := sm3Sum(r, x, i, mode, 0); !q.OK {
						q.Detail = fmt.Sprintf("fill level %d, Sum(%s): ", i, mode) + q.Detail
						return q
					}
				}
			}
			return okd("128 shapes")
		})
		r.Ob("Reset, New: ensures the state of the empty message from any state", "symbolic execution", func() Res {
			x := newX("amd64")
			defer x.Close()
			defer r.Merge(x)
			st := x.NewState()
			d := sm3New(x, st)
			sn := snap(st)
			q := oneRet(x.Call(st, x.P.MustFn("hash/sm3", "digest.Reset"), d.ptr()))
			if m := sn.frame(q.st, d.o); m != "" {
				return refuted("frame: %s", m)
			}
			var iv []*T
			for _, v := range sm3IV {
				iv = append(iv, x.C.Const(32, uint64(v)))
			}
			if e := eqAll(x.C, r.Seed, "h", d.h(q.st), iv); e != nil {
				return *e
			}
			if !d.len(q.st).isCV(0) {
				return refuted("len is not 0 after Reset")
			}
			st = x.NewState()
			q = oneRet(x.Call(st, x.P.MustFn("hash/sm3", "New")))
			f, isI := q.v.(Iface)
			if !isI {
				return refuted("New returns %v", q.v)
			}
			p, isP := f.v.(Ptr)
			if !isP || p.obj == nil {
				return refuted("New returns %v", f.v)
			}
			d.o = p.obj
			if e := eqAll(x.C, r.Seed, "h", d.h(q.st), iv); e != nil {
				return *e
			}
			if !d.len(q.st).isCV(0) {
				return refuted("len is not 0 after New")
			}
			for name, want := range map[string]int64{"digest.Size": 32, "digest.BlockSize": 64} {
				z := oneRet(x.Call(q.st.Clone(), x.P.MustFn("hash/sm3", name), p))
				if !z.v.(*T).isCV(uint64(want)) {
					return refuted("%s returns %v", name, z.v)
				}
			}
			return ok()
		})
	})
	var known []string
	jobs = append(jobs, func() {
		r.Ob("Sum(in), len(in) > 0: result == in || digest, or exactly the recorded finding (digest of message || in)", "symbolic execution over the compress contract", func() Res {
			n := 0
			x := newX("amd64")
			defer x.Close()
			defer r.Merge(x)
			sm3Contract(x)
			for i := 0; i < 64; i += 1 {
				for l := 1; l < 128-i; l++ {
					q := sm3Sum(r, x, i, "in", l)
					if !q.OK {
						q.Detail = fmt.Sprintf("fill level %d, len(in) %d: ", i, l) + q.Detail
						return q
					}
					if q.Detail == "finding" {
						known = []string{"key=sm3-sum-nonempty-argument Sum(in) with non-empty in returns digest(message||in) instead of appending the digest to in"}
					}
					n++
				}
			}
			return okd("%d shapes", n)
		})
	})
	for idx := 0; idx < 64; idx += 16 {
		idx := idx
		jobs = append(jobs, func() {
			r.Ob(fmt.Sprintf("Sum(in), fill level %d..%d, every longer in (rest of block + 64*m + t bytes, every m >= 1): result == in || digest, or exactly the recorded finding", idx, idx+15), "symbolic execution (symbolic length) over the compress contract, z3", func() Res {
				x := newX("amd64")
				defer x.Close()
				defer r.Merge(x)
				if !sm3Contract(x) {
					return Res{OK: true, Bounded: "no block function with the expected contract; longer inputs are not decided"}
				}
				for i := idx; i < idx+16; i++ {
					for t := 0; t < 64; t++ {
						q := r.orBounded(func() Res { return sm3SumMany(r, x, i, t) })
						if !q.OK {
							q.Detail = fmt.Sprintf("fill level %d, t = %d: ", i, t) + q.Detail
							return q
						}
						if q.Bounded != "" {
							return q
						}
					}
				}
				return okd("1024 shapes")
			})
		})
	}
	Par(8, jobs...)
	r.Known = append(r.Known, known...)
}

// sm3State sets up an arbitrary digest whose buffer holds idx bytes.
func sm3State(x *Exec, st *State, idx int) *sm3Obj {
	d := sm3New(x, st)
	L := x.C.Concat(x.C.Var(58, "blocks"), x.C.Const(6, uint64(idx)))
	x.storeAt(st, d.o, d.lOff, 8, L)
	return d
}

func sm3Write(r *Report, x *Exec, idx, l int) Res {
	c := x.C
	st := x.NewState()
	d := sm3State(x, st, idx)
	h, b, L := d.h(st), d.buf(st), d.len(st)
	in := x.byteVars("in", l)
	s, _ := x.bytesSlice(st, "in", in)
	sn := snap(st)
	outs, msg := onlyRets(x.Call(st, x.P.MustFn("hash/sm3", "digest.Write"), d.ptr(), s))
	if msg != "" {
		return refuted("%s", msg)
	}
	all := append(append([]*T(nil), b[:idx]...), in...)
	for len(all) >= 64 {
		h = sm3UF(c, h, all[:64])
		all = all[64:]
	}
	for _, q := range outs {
		t := q.v.(Tuple)
		if e := eqAll(c, r.Seed, "returned count", []*T{t[0].(*T)}, []*T{c.I(int64(l))}); e != nil {
			return *e
		}
		if f := t[1].(Iface); f.typ != nil {
			return refuted("error returned")
		}
		if m := sn.frame(q.st, d.o); m != "" {
			return refuted("frame: %s", m)
		}
		if e := eqAll(c, r.Seed, "h", d.h(q.st), h); e != nil {
			return *e
		}
		if e := eqAll(c, r.Seed, "len", []*T{d.len(q.st)}, []*T{c.Add(L, c.I(int64(l)))}); e != nil {
			return *e
		}
		if e := eqAll(c, r.Seed, "b", d.buf(q.st)[:len(all)], all); e != nil {
			return *e
		}
	}
	return ok()
}

// sm3WriteMany: inputs of c + 64*m + t bytes for every m >= 1, where c completes the buffered block.
func sm3WriteMany(r *Report, x *Exec, idx, t int) Res {
	c := x.C
	st := x.NewState()
	d := sm3State(x, st, idx)
	h, b, L := d.h(st), d.buf(st), d.len(st)
	cc := int64(64 - idx)
	m := c.IdxVar("m", 1, 1<<40)
	n := c.Add(c.Mul(m, c.I(64)), c.I(cc+int64(t)))
	in := x.NewSymBytes(st, "in", n)
	x.foldM = m
	rd := func(off *T, k int64) []*T { return x.readBytes(st, Ptr{in, off}, k) }
	sn := snap(st)
	outs, msg := onlyRets(x.Call(st, x.P.MustFn("hash/sm3", "digest.Write"), d.ptr(), Slice{Ptr{in, c.I(0)}, n, n}))
	if msg != "" {
		return refuted("%s", msg)
	}
	h = sm3UF(c, h, append(append([]*T(nil), b[:idx]...), rd(c.I(0), cc)...))
	want := sm3FoldF(c, h, "in", c.I(cc), m)
	tail := rd(c.Add(c.Mul(m, c.I(64)), c.I(cc)), int64(t))
	for _, q := range outs {
		tp := q.v.(Tuple)
		if e := eqAll(c, r.Seed, "returned count", []*T{tp[0].(*T)}, []*T{n}); e != nil {
			return *e
		}
		if f := tp[1].(Iface); f.typ != nil {
			return refuted("error returned")
		}
		if m := sn.frame(q.st, d.o); m != "" {
			return refuted("frame: %s", m)
		}
		if e := eqAll(c, r.Seed, "h", d.h(q.st), want); e != nil {
			return *e
		}
		if e := eqAll(c, r.Seed, "len", []*T{d.len(q.st)}, []*T{c.Add(L, n)}); e != nil {
			return *e
		}
		if e := eqAll(c, r.Seed, "b", d.buf(q.st)[:t], tail); e != nil {
			return *e
		}
	}
	return ok()
}

func sm3Pad(c *Ctx, h, tail []*T, L *T) []*T {
	m := append([]*T(nil), tail...)
	m = append(m, c.Const(8, 0x80))
	for len(m)%64 != 56 {
		m = append(m, c.Const(8, 0))
	}
	bits := c.ShlK(L, 3)
	for i := 7; i >= 0; i-- {
		m = append(m, c.Extract(bits, uint8(8*i), 8))
	}
	for len(m) > 0 {
		h = sm3UF(c, h, m[:64])
		m = m[64:]
	}
	var out []*T
	for _, w := range h {
		for i := 3; i >= 0; i-- {
			out = append(out, c.Extract(w, uint8(8*i), 8))
		}
	}
	return out
}

// sm3SumMany: Sum with an argument of c + 64*m + t bytes for every m >= 1.
func sm3SumMany(r *Report, x *Exec, idx, t int) Res {
	c := x.C
	st := x.NewState()
	d := sm3State(x, st, idx)
	h, b, L := d.h(st), d.buf(st), d.len(st)
	cc := int64(64 - idx)
	m := c.IdxVar("m", 1, 1<<40)
	n := c.Add(c.Mul(m, c.I(64)), c.I(cc+int64(t)))
	in := x.NewSymBytes(st, "in", n)
	x.foldM = m
	rd := func(off *T, k int64) []*T { return x.readBytes(st, Ptr{in, off}, k) }
	want := sm3Pad(c, h, b[:idx], L)
	hh := sm3UF(c, h, append(append([]*T(nil), b[:idx]...), rd(c.I(0), cc)...))
	hh = sm3FoldF(c, hh, "in", c.I(cc), m)
	known := sm3Pad(c, hh, rd(c.Add(c.Mul(m, c.I(64)), c.I(cc)), int64(t)), c.Add(L, n))
	k := c.IdxVar("k", 0, 1<<41)
	st.pc = append(st.pc, c.Ult(k, n))
	old := rd(k, 1)
	sn := snap(st)
	outs, msg := onlyRets(x.Call(st, x.P.MustFn("hash/sm3", "digest.Sum"), d.ptr(), Slice{Ptr{in, c.I(0)}, n, n}))
	if msg != "" {
		return refuted("%s", msg)
	}
	for _, q := range outs {
		if m := sn.frame(q.st); m != "" {
			return refuted("frame: %s", m)
		}
		o := q.v.(Slice)
		if o.p.obj == nil {
			return refuted("the result is nil")
		}
		if o.len.isCV(32) {
			e := eqAll(c, r.Seed, "result (as recorded in the finding)", x.readBytes(q.st, o.p, 32), known)
			if e != nil {
				return *e
			}
			continue
		}
		if e := eqAll(c, r.Seed, "length of the result", []*T{o.len}, []*T{c.Add(n, c.I(32))}); e != nil {
			return *e
		}
		got := x.readBytes(q.st, Ptr{o.p.obj, c.Add(o.p.off, n)}, 32)
		got = append(got, x.readBytes(q.st, Ptr{o.p.obj, c.Add(o.p.off, k)}, 1)...)
		if e := eqAll(c, r.Seed, "result", got, append(append([]*T(nil), want...), old...)); e != nil {
			return *e
		}
	}
	return ok()
}

func sm3Sum(r *Report, x *Exec, idx int, mode string, l int) Res {
	c := x.C
	st := x.NewState()
	d := sm3State(x, st, idx)
	h, b, L := d.h(st), d.buf(st), d.len(st)
	in := x.byteVars("in", l)
	s := x.nilSlice()
	if mode != "nil" {
		s, _ = x.bytesSlice(st, "in", in)
	}
	sn := snap(st)
	outs, msg := onlyRets(x.Call(st, x.P.MustFn("hash/sm3", "digest.Sum"), d.ptr(), s))
	if msg != "" {
		return refuted("%s", msg)
	}
	finding := false
	for _, q := range outs {
		if m := sn.frame(q.st); m != "" {
			return refuted("frame: %s", m)
		}
		o := q.v.(Slice)
		if !o.len.isC() || o.p.obj == nil || !o.p.off.isC() {
			return undecided("result slice %v", o)
		}
		got := x.readBytes(q.st, o.p, int64(o.len.k))
		want := append(append([]*T(nil), in...), sm3Pad(c, h, b[:idx], L)...)
		if mode == "in" {
			// recorded finding: digest(message || in)
			hh, all := h, append(append([]*T(nil), b[:idx]...), in...)
			for len(all) >= 64 {
				hh = sm3UF(c, hh, all[:64])
				all = all[64:]
			}
			if eqAll(c, r.Seed, "", got, sm3Pad(c, hh, all, c.Add(L, c.I(int64(l))))) == nil {
				finding = true
				continue
			}
		} else if o.p.obj.id < sn.n {
			return refuted("the result is not a fresh slice")
		}
		if e := eqAll(c, r.Seed, "result", got, want); e != nil {
			return *e
		}
	}
	if finding {
		return okd("finding")
	}
	return ok()
}
