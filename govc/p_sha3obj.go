package main

import (
	"fmt"
	"go/types"
	"time"
)

func init() { props["C03"] = propC03; props["C04"] = propC04 }

// sha3Sum: Sum on an absorbing object. mode "nil": Sum(nil); otherwise in has any length l and
// capacity l+extra.
func sha3Sum(r *Report, x *Exec, rate, d, idx int, mode string, extra int) Res {
	c := x.C
	st := x.NewState()
	s := sha3New(x, st, rate, c.I(int64(idx)), false)
	x.storeAt(st, s.o, s.d, 8, c.I(int64(d)))
	a, b := s.lanes(st), s.data(st)
	sfx := x.loadBits(st, s.o, s.sfx, 1)
	in := x.nilSlice()
	l := c.I(0)
	var io *Obj
	if mode != "nil" {
		l = c.IdxVar("l", 0, 1<<40)
		cp := c.Add(l, c.I(int64(extra)))
		io = x.NewSymBytes(st, "in", cp)
		in = Slice{Ptr{io, c.I(0)}, l, cp}
	}
	sn := snap(st)
	outs, msg := onlyRets(x.Call(st, x.P.MustFn("hash/sha3", "state.Sum"), s.ptr(), in))
	if msg != "" {
		return refuted("%s", msg)
	}
	want := lanesBytes(c, sha3Final(c, rate, a, b[:idx], sfx))[:d]
	for _, q := range outs {
		if !x.Feasible(q.st, c.Bool(true)) {
			continue
		}
		o := q.v.(Slice)
		if o.p.obj == nil {
			return refuted("nil result")
		}
		if !c.Sub(o.len, c.Add(l, c.I(int64(d)))).isCV(0) {
			return refuted("result has length %v, specified len(in)+%d", o.len, d)
		}
		if e := eqAll(c, r.Seed, "digest byte", x.readBytes(q.st, Ptr{o.p.obj, c.Add(o.p.off, l)}, int64(d)), want); e != nil {
			return *e
		}
		sn2 := sn
		if io != nil {
			i := c.IdxVar("i", 0, 1<<41)
			z := q.st.Clone()
			z.Assume(c.Ult(i, l))
			if x.Feasible(z, c.Bool(true)) {
				w := c.UF(8, "in", i)
				if e := eqAll(c, r.Seed, "prefix byte", x.readBytes(z, Ptr{o.p.obj, c.Add(o.p.off, i)}, 1), []*T{w}); e != nil {
					return *e
				}
				if e := eqAll(c, r.Seed, "byte of the argument", x.readBytes(z, Ptr{io, i}, 1), []*T{w}); e != nil {
					return *e
				}
			}
			sn2.os = append([]*OState(nil), sn.os...)
			sn2.os[io.id] = q.st.heap[io.id]
		} else if o.p.obj.id < sn.n {
			return refuted("the result is not a fresh slice")
		}
		if m := sn2.frame(q.st); m != "" {
			return refuted("frame: %s", m)
		}
	}
	return ok()
}

func sha3Arbitrary(x *Exec, st *State, rate int, sq bool) *sha3Obj {
	s := sha3New(x, st, rate, x.C.Var(64, "fill"), sq)
	x.havocAt(st, s.o, s.buf, types.NewArray(types.Typ[types.Uint8], 168), "b")
	return s
}

func (s *sha3Obj) checkEmpty(sn snapshot, st *State, rate int) Res {
	for i, l := range s.lanes(st) {
		if !l.isCV(0) {
			return refuted("lane %d is not zero", i)
		}
	}
	for i, b := range s.data(st) {
		if i >= rate && !b.isCV(0) {
			return refuted("data[%d] is not zero", i)
		}
	}
	if !s.pos(st).isCV(0) || !s.squeezing(st).isCV(0) {
		return refuted("idx or isSquezing not reset")
	}
	if !sn.same(st, s.o, s.descLo, s.descHi) || !sn.same(st, s.o, s.sfx, s.sfx+1) {
		return refuted("desc or sfx changed")
	}
	return ok()
}

func dynPtr(v Value) (Ptr, *types.Named, bool) {
	f, ok := v.(Iface)
	if !ok || f.typ == nil {
		return Ptr{}, nil, false
	}
	p, ok := f.v.(Ptr)
	if !ok || p.obj == nil || !p.off.isC() {
		return Ptr{}, nil, false
	}
	pt, ok := f.typ.(*types.Pointer)
	if !ok {
		return Ptr{}, nil, false
	}
	n, _ := pt.Elem().(*types.Named)
	return p, n, true
}

func propC03(r *Report) {
	r.Under = []string{"hash/sha3.(*state).Sum/Reset/Clone/Write/Size/BlockSize", "hash/sha3.(*cshakeState).Reset/Clone"}
	r.Replay = &ReplaySpec{Files: map[string]string{"hash/sha3/zz_verif_test.go": "sha3_test.go"}, Pkg: []string{"./hash/sha3"}, Tags: [][]string{{""}, {"noasm"}}, Run: "TestVerifSponge|TestVerifCShake"}
	r.Trusted = append(r.Trusted, "contract of keccakF1600 (decided by C01); Read and Write contracts (decided by C02)")
	be := "symbolic execution over the keccakF1600 contract, canonical terms"
	var jobs []func()
	for _, cfg := range []string{"amd64", "noasm"} {
		cfg := cfg
		for _, v := range sha3Variants {
			v := v
			if v.d > 0 {
				sha3Obs(r, &jobs, v.name+" Sum: fill level %d..%d; nil or any length and capacity: result == in || digest(state), assigns nothing but spare capacity of in", be+"; z3", cfg, v.rate, 0, v.rate-1, 2, func(x *Exec, idx int) Res {
					if q := sha3Sum(r, x, v.rate, v.d, idx, "nil", 0); !q.OK {
						q.Detail = "Sum(nil): " + q.Detail
						return q
					}
					for e := 0; e <= v.d+2; e++ {
						if idx > 2 && idx < v.rate-2 && e != 0 && e != v.d-1 && e != v.d && e != v.d/2 {
							continue // the capacity does not interact with the fill level
						}
						if q := sha3Sum(r, x, v.rate, v.d, idx, "in", e); !q.OK {
							q.Detail = fmt.Sprintf("spare capacity %d: ", e) + q.Detail
							return q
						}
					}
					return ok()
				})
			}
			jobs = append(jobs, func() {
				r.Ob(fmt.Sprintf("[%s] %s Reset: from any state the empty absorbing state; desc and sfx kept; assigns only *d", cfg, v.name), be, func() Res {
					for _, sq := range []bool{false, true} {
						x := newX(cfg)
						defer x.Close()
						defer r.Merge(x)
						st := x.NewState()
						s := sha3Arbitrary(x, st, v.rate, sq)
						sn := snap(st)
						q := oneRet(x.Call(st, x.P.MustFn("hash/sha3", "state.Reset"), s.ptr()))
						if m := sn.frame(q.st, s.o); m != "" {
							return refuted("frame: %s", m)
						}
						if z := s.checkEmpty(sn, q.st, v.rate); !z.OK {
							return z
						}
					}
					return ok()
				})
				r.Ob(fmt.Sprintf("[%s] %s Size, BlockSize: return the digest size and the rate; assign nothing", cfg, v.name), be, func() Res {
					x := newX(cfg)
					defer x.Close()
					defer r.Merge(x)
					st := x.NewState()
					s := sha3Arbitrary(x, st, v.rate, true)
					x.storeAt(st, s.o, s.d, 8, x.C.I(int64(v.d)))
					sn := snap(st)
					for m, w := range map[string]int{"state.Size": v.d, "state.BlockSize": v.rate} {
						q := oneRet(x.Call(st.Clone(), x.P.MustFn("hash/sha3", m), s.ptr()))
						if g, ok := q.v.(*T); !ok || !g.isCV(uint64(w)) {
							return refuted("%s returns %v", m, q.v)
						}
						if f := sn.frame(q.st); f != "" {
							return refuted("frame: %s", f)
						}
					}
					return ok()
				})
			})
		}
		jobs = append(jobs, func() {
			r.Ob(fmt.Sprintf("[%s] Write on a squeezing object, any input: returns (0, error), assigns nothing", cfg), be, func() Res {
				x := newX(cfg)
				defer x.Close()
				defer r.Merge(x)
				c := x.C
				for _, rate := range sha3Rates() {
					for _, n := range []*T{c.I(0), c.I(1), c.I(200), c.IdxVar("n", 0, 1<<40)} {
						st := x.NewState()
						s := sha3Arbitrary(x, st, rate, true)
						in := x.NewSymBytes(st, "in", n)
						sn := snap(st)
						outs, msg := onlyRets(x.Call(st, x.P.MustFn("hash/sha3", "state.Write"), s.ptr(), Slice{Ptr{in, c.I(0)}, n, n}))
						if msg != "" {
							return refuted("%s", msg)
						}
						for _, q := range outs {
							t := q.v.(Tuple)
							if g := t[0].(*T); !g.isCV(0) {
								return refuted("reports %v bytes written", g)
							}
							if f, ok := t[1].(Iface); !ok || f.typ == nil {
								return refuted("no error")
							}
							if f := sn.frame(q.st); f != "" {
								return refuted("frame: %s", f)
							}
						}
					}
				}
				return ok()
			})
			r.Ob(fmt.Sprintf("[%s] Clone of a SHAKE object: a fresh object equal to the original, sharing no memory; assigns nothing", cfg), be, func() Res {
				x := newX(cfg)
				defer x.Close()
				defer r.Merge(x)
				for _, sq := range []bool{false, true} {
					st := x.NewState()
					s := sha3Arbitrary(x, st, 136, sq)
					sn := snap(st)
					q := oneRet(x.Call(st, x.P.MustFn("hash/sha3", "state.Clone"), s.ptr()))
					if f := sn.frame(q.st); f != "" {
						return refuted("frame: %s", f)
					}
					if z := sha3CloneEq(r, x, s, sn, q); !z.OK {
						return z
					}
				}
				return ok()
			})
			r.Ob(fmt.Sprintf("[%s] Clone of a cSHAKE object: a fresh object equal to the original, initBlock equal and not shared writably; assigns nothing", cfg), be+"; z3", func() Res { return cshakeClone(r, cfg) })
			r.Ob(fmt.Sprintf("[%s] Reset of a cSHAKE object: the empty absorbing state with initBlock absorbed, from any state; assigns only *c", cfg), be+"; Write contract", func() Res { return cshakeReset(r, cfg) })
		})
	}
	Par(8, jobs...)
}

func sha3CloneEq(r *Report, x *Exec, s *sha3Obj, sn snapshot, q *Outcome) Res {
	c := x.C
	p, _, okp := dynPtr(q.v)
	if !okp {
		return refuted("Clone returns %v", q.v)
	}
	if p.obj.id < sn.n {
		return refuted("the clone is not a fresh object")
	}
	t := sha3At(x, p.obj, int64(p.off.k))
	if e := eqAll(c, r.Seed, "lane", t.lanes(q.st), s.lanes(q.st)); e != nil {
		return *e
	}
	if e := eqAll(c, r.Seed, "data", t.data(q.st), s.data(q.st)); e != nil {
		return *e
	}
	ld := func(o *Obj, f, n int64) *T { return x.loadBits(q.st, o, f, n) }
	if e := eqAll(c, r.Seed, "idx, r, d, sfx, isSquezing",
		[]*T{t.pos(q.st), ld(t.o, t.r, 8), ld(t.o, t.d, 8), ld(t.o, t.sfx, 1), t.squeezing(q.st)},
		[]*T{s.pos(q.st), ld(s.o, s.r, 8), ld(s.o, s.d, 8), ld(s.o, s.sfx, 1), s.squeezing(q.st)}); e != nil {
		return *e
	}
	return ok()
}

// a cSHAKE object in an arbitrary state with an initBlock of any length
func cshakeAny(x *Exec, st *State, sq bool) (*sha3Obj, *Obj, *T, int64) {
	c := x.C
	T := x.P.Type("hash/sha3", "cshakeState")
	o := x.NewTyped(st, "cs", T)
	u := T.Underlying().(*types.Struct)
	offs := x.fieldOffs(u)
	base, ib := int64(-1), int64(-1)
	for i := 0; i < u.NumFields(); i++ {
		switch u.Field(i).Name() {
		case "state":
			base = offs[i]
		case "initBlock":
			ib = offs[i]
		default:
			unsup("cshakeState has an unknown field %s", u.Field(i).Name())
		}
	}
	if base < 0 || ib < 0 {
		unsup("cshakeState fields")
	}
	s := sha3At(x, o, base)
	sha3Havoc(s, st, 136, c.Var(64, "fill"), sq)
	x.havocAt(st, o, s.buf, types.NewArray(types.Typ[types.Uint8], 168), "b")
	n := c.IdxVar("n", 0, 1<<40)
	blk := x.NewSymBytes(st, "initBlock", n)
	x.store(st, Ptr{o, c.I(ib)}, types.NewSlice(types.Typ[types.Uint8]), Slice{Ptr{blk, c.I(0)}, n, n})
	return s, blk, n, ib
}

type writeRec struct {
	obj   *Obj
	empty bool // the object was an empty absorbing one
	arg   Slice
	st    *State // heap at the call
}

// recordWrites replaces state.Write by its contract, recording calls: the absorbed bytes are the
// concatenation of the recorded arguments.
func recordWrites(x *Exec) {
	fn := x.P.MustFn("hash/sha3", "state.Write")
	x.H[fn.String()] = func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		p, ok1 := a[0].(Ptr)
		b, ok2 := a[1].(Slice)
		if !ok1 || !ok2 || p.obj == nil || !p.off.isC() {
			return nil
		}
		c := x.C
		s := sha3At(x, p.obj, int64(p.off.k))
		if !s.squeezing(st).isCV(0) {
			return []Alt{{st: st, panic: "Write: the object may be squeezing"}}
		}
		recs, _ := st.G("writes").([]writeRec)
		e := len(recs) == 0 && s.pos(st).isCV(0)
		if e {
			for _, l := range s.lanes(st) {
				e = e && l.isCV(0)
			}
			rt := x.loadBits(st, p.obj, s.r, 8)
			for i, t := range s.data(st) {
				if rt.isC() && uint64(i) >= rt.k {
					e = e && t.isCV(0)
				}
			}
		}
		if len(recs) > 0 {
			e = recs[0].empty && recs[0].obj == p.obj
		}
		st.SetG("writes", append(append([]writeRec(nil), recs...), writeRec{p.obj, e, b, st.Clone()}))
		for i := 0; i < 25; i++ {
			x.storeAt(st, p.obj, s.a+int64(8*i), 8, c.Fresh(64, "absorbed"))
		}
		x.storeAt(st, p.obj, s.idx, 8, c.Fresh(64, "absorbed"))
		for i := 0; i < 168; i++ {
			x.storeAt(st, p.obj, s.buf+int64(i), 1, c.Fresh(8, "absorbed"))
		}
		return []Alt{{st: st, v: Tuple{b.len, Iface{}}}}
	}
}

func cshakeReset(r *Report, cfg string) Res {
	x := newX(cfg)
	defer x.Close()
	defer r.Merge(x)
	c := x.C
	recordWrites(x)
	for _, sq := range []bool{false, true} {
		st := x.NewState()
		s, blk, n, _ := cshakeAny(x, st, sq)
		sn := snap(st)
		outs, msg := onlyRets(x.Call(st, x.P.MustFn("hash/sha3", "cshakeState.Reset"), Ptr{s.o, c.I(0)}))
		if msg != "" {
			return refuted("%s", msg)
		}
		for _, q := range outs {
			recs, _ := q.st.G("writes").([]writeRec)
			if len(recs) == 0 || !recs[0].empty {
				return refuted("the initial block is not absorbed into an empty state")
			}
			if m := sn.frame(q.st, s.o); m != "" {
				return refuted("frame: %s", m)
			}
			if !sn.same(q.st, s.o, s.descLo, s.descHi) || !sn.same(q.st, s.o, s.sfx, s.sfx+1) {
				return refuted("desc or sfx changed")
			}
			if !s.squeezing(q.st).isCV(0) {
				return refuted("squeezing after Reset")
			}
			if z := absorbedIs(r, x, q.st, recs, []seg{{n: n, uf: "initBlock"}}); !z.OK {
				return z
			}
		}
		_ = blk
	}
	return ok()
}

func cshakeClone(r *Report, cfg string) Res {
	x := newX(cfg)
	defer x.Close()
	defer r.Merge(x)
	c := x.C
	for _, sq := range []bool{false, true} {
		st := x.NewState()
		s, blk, n, ib := cshakeAny(x, st, sq)
		sn := snap(st)
		outs, msg := onlyRets(x.Call(st, x.P.MustFn("hash/sha3", "cshakeState.Clone"), Ptr{s.o, c.I(0)}))
		if msg != "" {
			return refuted("%s", msg)
		}
		for _, q := range outs {
			if f := sn.frame(q.st); f != "" {
				return refuted("frame: %s", f)
			}
			p, nt, okp := dynPtr(q.v)
			if !okp || nt == nil || nt.Obj().Name() != "cshakeState" {
				return refuted("Clone returns %v", q.v)
			}
			q2 := *q
			f := q.v.(Iface)
			f.v = Ptr{p.obj, c.Add(p.off, c.I(s.base))}
			q2.v = f
			if z := sha3CloneEq(r, x, s, sn, &q2); !z.OK {
				return z
			}
			b, okb := x.load(q.st, Ptr{p.obj, c.Add(p.off, c.I(ib))}, types.NewSlice(types.Typ[types.Uint8])).(Slice)
			if !okb || b.p.obj == nil && !x.Prove(q.st, c.Eq(n, c.I(0))) {
				return refuted("the clone has no initial block")
			}
			if b.p.obj == nil {
				continue
			}
			if !c.Sub(b.len, n).isCV(0) && !x.Prove(q.st, c.Eq(b.len, n)) {
				return refuted("initBlock of the clone has length %v", b.len)
			}
			if b.p.obj != blk {
				if z := contentIs(r, x, q.st, b.p, b.len, []seg{{n: n, uf: "initBlock"}}); !z.OK {
					return z
				}
			}
		}
	}
	return ok()
}

// ---- contents as a sequence of segments

type seg struct {
	n  *T
	bs []*T   // known bytes
	uf string // bytes uf(i)
	// zero when neither
}

func segLen(c *Ctx, ss []seg) *T {
	n := c.I(0)
	for _, s := range ss {
		n = c.Add(n, s.n)
	}
	return n
}

// contentIs: the n bytes at p are the segments, shown at an arbitrary index of each.
func contentIs(r *Report, x *Exec, st *State, p Ptr, n *T, ss []seg) Res {
	c := x.C
	if d := c.Sub(n, segLen(c, ss)); !d.isCV(0) {
		z := st.Clone()
		if !x.Prove(z, c.Eq(n, segLen(c, ss))) {
			return refuted("length is %v, specified %v", n, segLen(c, ss))
		}
	}
	at := c.I(0)
	for k, s := range ss {
		if s.bs == nil && s.n.isC() {
			s.bs = []*T{}
			for i := uint64(0); i < s.n.k; i++ {
				w := c.Const(8, 0)
				if s.uf != "" {
					w = c.UF(8, s.uf, c.I(int64(i)))
				}
				s.bs = append(s.bs, w)
			}
		}
		if s.bs != nil {
			if e := eqAll(c, r.Seed, fmt.Sprintf("segment %d byte", k), x.readBytes(st, Ptr{p.obj, c.Add(p.off, at)}, int64(len(s.bs))), s.bs); e != nil {
				return *e
			}
		} else {
			i := c.IdxVar(fmt.Sprintf("i%d", k), 0, 1<<42)
			z := st.Clone()
			z.Assume(c.Ult(i, s.n))
			if x.Feasible(z, c.Bool(true)) {
				want := c.Const(8, 0)
				if s.uf != "" {
					want = c.UF(8, s.uf, i)
				}
				if e := eqAll(c, r.Seed, fmt.Sprintf("segment %d byte", k), x.readBytes(z, Ptr{p.obj, c.Add(p.off, c.Add(at, i))}, 1), []*T{want}); e != nil {
					return *e
				}
			}
		}
		at = c.Add(at, s.n)
	}
	return ok()
}

// absorbedIs: the recorded writes concatenate to the segments. Each recorded argument must cover
// whole segments.
func absorbedIs(r *Report, x *Exec, st *State, recs []writeRec, ss []seg) Res {
	c := x.C
	for _, rec := range recs {
		var part []seg
		n := c.I(0)
		for len(ss) > 0 && !x.Prove(st, c.Eq(n, rec.arg.len)) {
			n = c.Add(n, ss[0].n)
			part = append(part, ss[0])
			ss = ss[1:]
		}
		if rec.arg.p.obj == nil && len(part) == 0 {
			continue
		}
		rec.st.pc, rec.st.pcset = append([]*T(nil), st.pc...), nil
		rebuildPC(rec.st)
		if q := contentIs(r, x, rec.st, rec.arg.p, rec.arg.len, part); !q.OK {
			q.Detail = "absorbed bytes: " + q.Detail
			return q
		}
	}
	for _, s := range ss {
		if !x.Prove(st, c.Eq(s.n, c.I(0))) {
			return refuted("only a part of the initial block is absorbed")
		}
	}
	return ok()
}

func propC04(r *Report) {
	r.Under = []string{"hash/sha3.NewCShake128/NewCShake256", "hash/sha3.newCShake", "hash/sha3.bytepad", "hash/sha3.leftEncode", "hash/sha3.(*cshakeState).Reset/Clone"}
	r.Replay = &ReplaySpec{Files: map[string]string{"hash/sha3/zz_verif_test.go": "sha3_test.go"}, Pkg: []string{"./hash/sha3"}, Tags: [][]string{{""}, {"noasm"}}, Run: "TestVerifCShake"}
	r.Trusted = append(r.Trusted, "contracts of Write and Read (decided by C02), keccakF1600 (decided by C01)")
	be := "symbolic execution (symbolic lengths) over the Write contract, linear arithmetic, z3"
	var jobs []func()
	for _, cfg := range []string{"amd64", "noasm"} {
		for _, v := range []struct {
			f    string
			rate int
		}{{"NewCShake128", 168}, {"NewCShake256", 136}} {
			cfg, v := cfg, v
			one := func(n string, lf int, lo, hi int64) {
				jobs = append(jobs, func() {
					r.Ob(fmt.Sprintf("[%s] %s(N, S), %s: ensures a cSHAKE object that absorbed bytepad(encode_string(N) || encode_string(S), %d) with suffix 0x04; N and S not retained", cfg, v.f, n, v.rate), be, func() (res Res) {
						defer func() {
							if e := recover(); e != nil {
								ee, isE := e.(execErr)
								if !isE {
									panic(e)
								}
								res = cshakeNewConcrete(r, cfg, v.f, v.rate, ee.msg)
							}
						}()
						q := cshakeNew(r, cfg, v.f, v.rate, lf, lo, hi, nil)
						if !q.OK && q.Status == "undecided" {
							return cshakeNewConcrete(r, cfg, v.f, v.rate, q.Detail)
						}
						return q
					})
				})
			}
			one("N empty, S of any length >= 1", 1, 0, 0)
			one("S empty, N of any length >= 1", 2, 1, 1<<48)
			lo := int64(1)
			for k := 1; k <= 7; k++ {
				hi := int64(1) << uint(8*k-3)
				if k == 7 {
					hi = 1 << 48
				}
				one(fmt.Sprintf("S of any length >= 1, %d <= len(N) <= %d", lo, hi-1), 0, lo, hi)
				lo = hi
			}
			jobs = append(jobs, func() {
				r.Ob(fmt.Sprintf("[%s] %s with both strings empty (nil or not): a plain SHAKE object", cfg, v.f), be, func() Res {
					x := newX(cfg)
					defer x.Close()
					defer r.Merge(x)
					for k := 0; k < 4; k++ {
						st := x.NewState()
						N, S := x.nilSlice(), x.nilSlice()
						if k&1 > 0 {
							N, _ = x.bytesSlice(st, "N", nil)
						}
						if k&2 > 0 {
							S, _ = x.bytesSlice(st, "S", nil)
						}
						q := oneRet(x.Call(st, x.P.MustFn("hash/sha3", v.f), N, S))
						if _, nt, ok := dynPtr(q.v); !ok || nt == nil || nt.Obj().Name() != "state" {
							return refuted("result %v", q.v)
						}
						if z := sha3Initial(r, x, q.st, q.v, v.rate, 0, 0x1f); !z.OK {
							return z
						}
					}
					return ok()
				})
			})
		}
		cfg := cfg
		jobs = append(jobs, func() {
			r.Ob(fmt.Sprintf("[%s] Reset of a cSHAKE object: the empty absorbing state with initBlock absorbed, from any state; assigns only *c", cfg), be, func() Res { return cshakeReset(r, cfg) })
			r.Ob(fmt.Sprintf("[%s] Clone of a cSHAKE object: equal, with an equal initBlock; assigns nothing", cfg), be, func() Res { return cshakeClone(r, cfg) })
		})
	}
	Par(8, jobs...)
}

// leftEnc: left_encode of SP 800-185 for a value known to need k bytes
func leftEnc(c *Ctx, v *T, k int) []*T {
	b := []*T{c.Const(8, uint64(k))}
	for i := k - 1; i >= 0; i-- {
		b = append(b, c.Extract(v, uint8(8*i), 8))
	}
	return b
}

// cshakeNewConcrete stands in when the symbolic-length argument does not apply to this form of the code.
func cshakeNewConcrete(r *Report, cfg, fn string, rate int, why string) Res {
	ls := []int{1, 5, 31, 32, 33, rate - 9, rate - 8, rate - 7, rate - 6, rate - 5, rate - 4, rate, 8191, 8192}
	for _, a := range ls {
		for _, b := range []int{1, 31, 32, rate - 6, rate - 7} {
			for lf := 0; lf < 3; lf++ {
				if lf == 1 && a != 1 || lf == 2 && b != 1 {
					continue
				}
				if a > 1000 && b != 1 {
					continue
				}
				if q := cshakeNew(r, cfg, fn, rate, lf, 0, 0, []int{b, a}); !q.OK {
					return q
				}
			}
		}
	}
	return Res{OK: true, Bounded: "sampled lengths only (" + why + ")"}
}

func cshakeNew(r *Report, cfg, fn string, rate, lf int, lo, hi int64, conc []int) Res {
	x := newX(cfg)
	defer x.Close()
	defer r.Merge(x)
	x.deadline = time.Now().Add(60 * time.Second)
	c := x.C
	recordWrites(x)
	paths := 0
	mk := func(st *State, name string, empty bool) (Slice, *T) {
		if empty {
			return x.nilSlice(), c.I(0)
		}
		if conc != nil {
			k := conc[0]
			if name == "S" && lf != 1 {
				k = conc[1]
			} else if name == "S" {
				k = conc[0]
			}
			b := make([]*T, k)
			for i := range b {
				b[i] = c.UF(8, name, c.I(int64(i)))
			}
			q, _ := x.bytesSlice(st, name, append(b, x.byteVars(name+".after", 24)...))
			q.len = c.I(int64(k)) // what follows in the caller's array is not the function's
			return q, c.I(int64(k))
		}
		if name == "S" || hi == 0 {
			lo, hi = 1, 1<<48
		}
		n := c.IdxVar("len"+name, uint64(lo), uint64(hi))
		full := c.Add(n, c.I(24)) // what follows in the caller's array is not the function's
		o := x.NewSymBytes(st, name, full)
		return Slice{Ptr{o, c.I(0)}, n, full}, n
	}
	st := x.NewState()
	N, nl := mk(st, "N", lf == 1)
	S, sl := mk(st, "S", lf == 2)
	sn := snap(st)
	outs, msg := onlyRets(x.Call(st, x.P.MustFn("hash/sha3", fn), N, S))
	if msg != "" {
		return refuted("%s", msg)
	}
	for _, q := range outs {
		if !x.Feasible(q.st, c.Bool(true)) {
			continue
		}
		paths++
		if m := sn.frame(q.st); m != "" {
			return refuted("frame: %s", m)
		}
		p, nt, okp := dynPtr(q.v)
		if !okp || nt == nil || nt.Obj().Name() != "cshakeState" {
			return refuted("result %v", q.v)
		}
		s := sha3At(x, p.obj, int64(p.off.k)+cshakeBase(x))
		if g := x.loadBits(q.st, s.o, s.r, 8); !g.isCV(uint64(rate)) {
			return refuted("rate %v", g)
		}
		if g := x.loadBits(q.st, s.o, s.sfx, 1); !g.isCV(4) {
			return refuted("suffix %v", g)
		}
		if !s.squeezing(q.st).isCV(0) {
			return refuted("squeezing")
		}
		recs, _ := q.st.G("writes").([]writeRec)
		if len(recs) == 0 || !recs[0].empty || recs[0].obj != p.obj {
			return refuted("the initial block is not absorbed into an empty state")
		}
		// the encoding lengths on this path
		bitsOf := func(n *T) (*T, int) {
			v := c.Mul(n, c.I(8))
			for k := 1; k <= 8; k++ {
				if k == 8 || x.Prove(q.st, c.Ult(v, c.I(1<<uint(8*k)))) {
					return v, k
				}
			}
			return v, 8
		}
		var ss []seg
		rb := leftEnc(c, c.I(int64(rate)), 1)
		ss = append(ss, seg{n: c.I(2), bs: rb})
		for _, y := range []struct {
			n *T
			u string
		}{{nl, "N"}, {sl, "S"}} {
			v, k := bitsOf(y.n)
			if k > 1 && !x.Prove(q.st, c.Not(c.Ult(v, c.I(1<<uint(8*k-8))))) {
				return undecided("the path does not fix the encoded length of %s", y.u)
			}
			e := leftEnc(c, v, k)
			ss = append(ss, seg{n: c.I(int64(len(e))), bs: e})
			if !y.n.isCV(0) {
				ss = append(ss, seg{n: y.n, uf: y.u})
			}
		}
		body := segLen(c, ss)
		R := c.I(int64(rate))
		tot := c.I(0)
		for _, rec := range recs {
			tot = c.Add(tot, rec.arg.len)
		}
		// total length: the smallest multiple of rate that is >= body
		pad := c.Sub(tot, body)
		if w := c.Urem(c.Sub(R, c.Urem(body, R)), R); pad != w {
			if e := eqAll(c, r.Seed, "padding length", []*T{pad}, []*T{w}); e != nil {
				return *e
			}
		}
		ss = append(ss, seg{n: pad})
		if z := absorbedIs(r, x, q.st, recs, ss); !z.OK {
			return z
		}
		// the block kept for Reset
		b, okb := x.load(q.st, Ptr{p.obj, c.Add(p.off, c.I(cshakeIB(x)))}, types.NewSlice(types.Typ[types.Uint8])).(Slice)
		if !okb || b.p.obj == nil || b.p.obj.id < sn.n {
			return refuted("the kept initial block is missing or is the caller's memory")
		}
		if z := contentIs(r, x, q.st, b.p, b.len, ss); !z.OK {
			z.Detail = "initBlock: " + z.Detail
			return z
		}
	}
	return okd("%d paths", paths)
}

func cshakeBase(x *Exec) int64 { return cshakeField(x, "state") }
func cshakeIB(x *Exec) int64   { return cshakeField(x, "initBlock") }
func cshakeField(x *Exec, f string) int64 {
	u := x.P.Type("hash/sha3", "cshakeState").Underlying().(*types.Struct)
	offs := x.fieldOffs(u)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == f {
			return offs[i]
		}
	}
	unsup("cshakeState.%s", f)
	return 0
}
