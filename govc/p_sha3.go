package main

import (
	"fmt"
	"go/types"
)

func init() { props["C02"] = propC02 }

// ---- representation of a sha3 state

type sha3Obj struct {
	x                        *Exec
	o                        *Obj
	base                     int64
	a, buf, idx, sq, sfx     int64
	r, d, descLo, descHi, hi int64
}

func sha3At(x *Exec, o *Obj, base int64) *sha3Obj {
	T := x.P.Type("hash/sha3", "state")
	s := &sha3Obj{x: x, o: o, base: base}
	u := T.Underlying().(*types.Struct)
	offs := x.fieldOffs(u)
	seen := 0
	for i := 0; i < u.NumFields(); i++ {
		f := base + offs[i]
		switch u.Field(i).Name() {
		case "a":
			s.a = f
		case "data":
			s.buf = f
		case "idx":
			s.idx = f
		case "isSquezing":
			s.sq = f
		case "sfx":
			s.sfx = f
		case "desc":
			du := u.Field(i).Type().Underlying().(*types.Struct)
			do := x.fieldOffs(du)
			for k := 0; k < du.NumFields(); k++ {
				switch du.Field(k).Name() {
				case "r":
					s.r = f + do[k]
				case "d":
					s.d = f + do[k]
				}
			}
			s.descLo, s.descHi = f, f+x.sizeof(u.Field(i).Type())
		default:
			unsup("sha3.state has an unknown field %s", u.Field(i).Name())
		}
		seen++
	}
	if seen != 6 {
		unsup("sha3.state has %d fields", seen)
	}
	s.hi = base + x.sizeof(T)
	return s
}

func (s *sha3Obj) ptr() Ptr { return Ptr{s.o, s.x.C.I(s.base)} }
func (s *sha3Obj) lanes(st *State) (r []*T) {
	for i := int64(0); i < 25; i++ {
		r = append(r, s.x.loadBits(st, s.o, s.a+8*i, 8))
	}
	return
}
func (s *sha3Obj) data(st *State) []*T { return s.x.readBytes(st, Ptr{s.o, s.x.C.I(s.buf)}, 168) }
func (s *sha3Obj) pos(st *State) *T    { return s.x.loadBits(st, s.o, s.idx, 8) }
func (s *sha3Obj) squeezing(st *State) *T {
	v, ok := s.x.load(st, Ptr{s.o, s.x.C.I(s.sq)}, types.Typ[types.Bool]).(*T)
	if !ok {
		unsup("isSquezing")
	}
	return v
}

var sha3Variants = []struct {
	name    string
	ctor    string
	rate, d int
	sfx     uint64
}{
	{"SHA3-224", "New224", 144, 28, 6}, {"SHA3-256", "New256", 136, 32, 6}, {"SHA3-384", "New384", 104, 48, 6},
	{"SHA3-512", "New512", 72, 64, 6}, {"SHAKE128", "NewShake128", 168, 0, 0x1f}, {"SHAKE256", "NewShake256", 136, 0, 0x1f},
}

// sha3New sets up an arbitrary object of the given rate: lanes, buffer and suffix are variables.
// absorbing: idx bytes buffered, data[rate:] zero; squeezing: idx unconsumed bytes at the end
// of data[:rate], which agree with the lanes.
func sha3New(x *Exec, st *State, rate int, idx *T, squeezing bool) *sha3Obj {
	c := x.C
	T := x.P.Type("hash/sha3", "state")
	o := x.NewTyped(st, "d", T)
	s := sha3At(x, o, 0)
	sha3Havoc(s, st, rate, idx, squeezing)
	_ = c
	return s
}

func sha3Havoc(s *sha3Obj, st *State, rate int, idx *T, squeezing bool) {
	x, c, o := s.x, s.x.C, s.o
	lanes := make([]*T, 25)
	for i := range lanes {
		lanes[i] = c.Var(64, fmt.Sprintf("a%d", i))
		x.storeAt(st, o, s.a+int64(8*i), 8, lanes[i])
	}
	var b []*T
	ab := lanesBytes(c, lanes)
	for i := 0; i < 168; i++ {
		switch {
		case i >= rate && !squeezing:
			b = append(b, c.Const(8, 0))
		case squeezing && idx.isC() && i >= rate-int(idx.k) && i < rate:
			b = append(b, ab[i])
		default:
			b = append(b, c.Var(8, fmt.Sprintf("b%d", i)))
		}
	}
	x.writeBytes(st, Ptr{o, c.I(s.buf)}, b)
	x.storeAt(st, o, s.idx, 8, idx)
	x.store(st, Ptr{o, c.I(s.sq)}, types.Typ[types.Bool], c.Bool(squeezing))
	x.storeAt(st, o, s.sfx, 1, c.Zext(c.Var(7, "sfx"), 8)) // object invariant: sfx < 0x80
	x.storeAt(st, o, s.r, 8, c.I(int64(rate)))
	x.storeAt(st, o, s.d, 8, c.Var(64, "dsize"))
}

func lanesBytes(c *Ctx, a []*T) []*T {
	var r []*T
	for _, l := range a {
		for k := 0; k < 8; k++ {
			r = append(r, c.Extract(l, uint8(8*k), 8))
		}
	}
	return r
}

// keccakUF is the uninterpreted permutation the contracts are stated over (C01 decides it).
func keccakUF(c *Ctx, a []*T) []*T {
	r := make([]*T, 25)
	for i := range r {
		r[i] = c.UF(64, fmt.Sprintf("keccakf.%d", i), a...)
	}
	return r
}

func xorBlock(c *Ctx, a, blk []*T) []*T {
	r := append([]*T(nil), a...)
	for i := 0; 8*i < len(blk); i++ {
		w := make([]*T, 8)
		for k := range w {
			w[7-k] = blk[8*i+k]
		}
		r[i] = c.Xor(r[i], c.Concat(w...))
	}
	return r
}

func keccakContract(x *Exec) {
	fn := x.P.MustFn("hash/sha3", "keccakF1600")
	x.H[fn.String()] = func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		p, ok := a[0].(Ptr)
		if !ok || p.obj == nil || !p.off.isC() {
			return nil
		}
		off := int64(p.off.k)
		in := make([]*T, 25)
		for i := range in {
			in[i] = x.loadBits(st, p.obj, off+int64(8*i), 8)
		}
		for i, t := range keccakUF(x.C, in) {
			x.storeAt(st, p.obj, off+int64(8*i), 8, t)
		}
		return []Alt{{st: st}}
	}
}

// checkAbsorbing compares a state with the expected absorbing state.
func (s *sha3Obj) checkAbsorbing(r *Report, sn snapshot, st *State, rate int, lanes, pend []*T) *Res {
	c := s.x.C
	bad := func(f string, a ...interface{}) *Res { q := refuted(f, a...); return &q }
	if m := sn.frame(st, s.o); m != "" {
		return bad("frame: %s", m)
	}
	if !sn.same(st, s.o, s.descLo, s.descHi) || !sn.same(st, s.o, s.sfx, s.sfx+1) {
		return bad("frame: desc or sfx assigned")
	}
	if e := eqAll(c, r.Seed, "state lane", s.lanes(st), lanes); e != nil {
		return e
	}
	if e := eqAll(c, r.Seed, "idx", []*T{s.pos(st)}, []*T{c.I(int64(len(pend)))}); e != nil {
		return e
	}
	if !s.squeezing(st).isCV(0) {
		return bad("squeezing after absorbing")
	}
	d := s.data(st)
	if e := eqAll(c, r.Seed, "buffered byte", d[:len(pend)], pend); e != nil {
		return e
	}
	for i := rate; i < 168; i++ {
		if !d[i].isCV(0) {
			return bad("data[%d] beyond the rate is not zero", i)
		}
	}
	return nil
}

// checkSqueezing compares a state with the expected position in the output stream: n bytes of
// the block given by lanes have been read already.
func (s *sha3Obj) checkSqueezing(r *Report, sn snapshot, st *State, rate int, lanes []*T, used int) *Res {
	c := s.x.C
	bad := func(f string, a ...interface{}) *Res { q := refuted(f, a...); return &q }
	if m := sn.frame(st, s.o); m != "" {
		return bad("frame: %s", m)
	}
	if !sn.same(st, s.o, s.descLo, s.descHi) || !sn.same(st, s.o, s.sfx, s.sfx+1) {
		return bad("frame: desc or sfx assigned")
	}
	if !s.squeezing(st).isCV(1) {
		return bad("not squeezing after output was read")
	}
	p := s.pos(st)
	if !p.isC() || p.k > uint64(rate) {
		return bad("idx is %v", p)
	}
	got := s.lanes(st)
	left := int(p.k)
	if left == 0 { // the next block has not been computed yet
		got = keccakUF(c, got)
		left = rate
	}
	want := lanes
	if used == rate {
		want, used = keccakUF(c, lanes), 0
	}
	if left != rate-used {
		return bad("idx: %d bytes of the block unread, specification says %d", left, rate-used)
	}
	if e := eqAll(c, r.Seed, "state lane", got, want); e != nil {
		return e
	}
	if p.k > 0 {
		d := s.data(st)
		if e := eqAll(c, r.Seed, "buffered output byte", d[rate-left:rate], lanesBytes(c, want)[used:rate]); e != nil {
			return e
		}
	}
	return nil
}

func sha3Ret(r *Report, c *Ctx, q *Outcome, n *T) *Res {
	t, ok := q.v.(Tuple)
	if !ok || len(t) != 2 {
		z := refuted("result %v", q.v)
		return &z
	}
	if e := eqAll(c, r.Seed, "returned count", []*T{t[0].(*T)}, []*T{n}); e != nil {
		return e
	}
	if f, ok := t[1].(Iface); !ok || f.typ != nil {
		z := refuted("error returned")
		return &z
	}
	return nil
}

func sha3Absorb(c *Ctx, rate int, a, msg []*T) (lanes, pend []*T) {
	for len(msg) >= rate {
		a = keccakUF(c, xorBlock(c, a, msg[:rate]))
		msg = msg[rate:]
	}
	return a, msg
}

func sha3Write(r *Report, x *Exec, rate, idx, l int) Res {
	c := x.C
	st := x.NewState()
	s := sha3New(x, st, rate, c.I(int64(idx)), false)
	a, b := s.lanes(st), s.data(st)
	in := x.byteVars("in", l)
	sl, _ := x.bytesSlice(st, "in", in)
	if l == 0 && idx%2 == 1 {
		sl = x.nilSlice()
	}
	sn := snap(st)
	outs, msg := onlyRets(x.Call(st, x.P.MustFn("hash/sha3", "state.Write"), s.ptr(), sl))
	if msg != "" {
		return refuted("%s", msg)
	}
	lanes, pend := sha3Absorb(c, rate, a, append(append([]*T(nil), b[:idx]...), in...))
	for _, q := range outs {
		if e := sha3Ret(r, c, q, c.I(int64(l))); e != nil {
			return *e
		}
		if e := s.checkAbsorbing(r, sn, q.st, rate, lanes, pend); e != nil {
			return *e
		}
	}
	return ok()
}

func sha3FoldT(c *Ctx, i int, j *T) *T { return c.UF(64, fmt.Sprintf("spongefold.%d", i), j) }

// sha3WriteMany: input of (rate-idx) + rate*m + t bytes, every m >= 2.
func sha3WriteMany(r *Report, x *Exec, rate, idx, t int) (res Res) {
	c := x.C
	defer func() {
		x.cutAll = nil
		if p := recover(); p != nil {
			if e, isE := p.(execErr); isE {
				res = Res{OK: true, Bounded: e.msg}
				return
			}
			panic(p)
		}
	}()
	st := x.NewState()
	s := sha3New(x, st, rate, c.I(int64(idx)), false)
	a, b := s.lanes(st), s.data(st)
	first := int64(rate - idx)
	m := c.IdxVar("m", 2, 1<<40)
	n := c.Add(c.Mul(m, c.I(int64(rate))), c.I(first+int64(t)))
	in := x.NewSymBytes(st, "in", n)
	rd := func(off *T, k int64) []*T { return x.readBytes(st, Ptr{in, off}, k) }
	blkAt := func(j *T) []*T { return rd(c.Add(c.Mul(j, c.I(int64(rate))), c.I(first)), int64(rate)) }
	h0 := keccakUF(c, xorBlock(c, a, append(append([]*T(nil), b[:idx]...), rd(c.I(0), first)...)))
	sc := &StreamCut{N: m, Seed: r.Seed, Init: h0,
		Cells: func(*State) (*Obj, []int64, int64) {
			var o []int64
			for i := int64(0); i < 25; i++ {
				o = append(o, s.a+8*i)
			}
			return s.o, o, 8
		},
		Step: func(_ *State, v []*T, j *T) [][]*T { return [][]*T{keccakUF(c, xorBlock(c, v, blkAt(j)))} },
		Fold: func(i int, _ uint8, j *T) *T { return sha3FoldT(c, i, j) },
	}
	x.cutAll = sc
	sn := snap(st)
	outs, err := x.Call(st, x.P.MustFn("hash/sha3", "state.Write"), s.ptr(), Slice{Ptr{in, c.I(0)}, n, n})
	if err != nil || sc.Structure != "" || sc.Cut == 0 && sc.Refuted == "" {
		return Res{OK: true, Bounded: fmt.Sprintf("%v %s", err, sc.Structure)}
	}
	if sc.Refuted != "" {
		return refuted("%s", sc.Refuted)
	}
	for _, q := range outs {
		if !x.Feasible(q.st, c.Bool(true)) {
			continue
		}
		if q.kind != "ret" {
			return refuted("panics: %s", q.msg)
		}
		if e := sha3Ret(r, c, q, n); e != nil {
			return *e
		}
		var lanes []*T
		off := m
		if k := x.pinnedTo(q.st, m, 3); k > 0 {
			lanes = h0
			for j := 0; j < k; j++ {
				lanes = keccakUF(c, xorBlock(c, lanes, blkAt(c.I(int64(j)))))
			}
			off = c.I(int64(k))
		} else {
			for i := 0; i < 25; i++ {
				lanes = append(lanes, sha3FoldT(c, i, m))
			}
		}
		pend := x.readBytes(q.st, Ptr{in, c.Add(c.Mul(off, c.I(int64(rate))), c.I(first))}, int64(t))
		if e := s.checkAbsorbing(r, sn, q.st, rate, lanes, pend); e != nil {
			if off == m || len(pend) == 0 {
				return *e
			}
			// positions may be written with m or with its value
			pend = x.readBytes(q.st, Ptr{in, c.Add(c.Mul(m, c.I(int64(rate))), c.I(first))}, int64(t))
			if e := s.checkAbsorbing(r, sn, q.st, rate, lanes, pend); e != nil {
				return *e
			}
		}
	}
	return ok()
}

// sha3Read from a squeezing state with idx unread bytes, l bytes requested.
func sha3Read(r *Report, x *Exec, rate, idx, l int, absorbing bool) Res {
	c := x.C
	st := x.NewState()
	s := sha3Start(x, st, rate, idx, absorbing)
	a := s.lanes(st)
	if absorbing {
		a = sha3FinalVars(c)
	}
	out := x.byteVars("out", l)
	sl, oo := x.bytesSlice(st, "out", out)
	if l == 0 && idx%2 == 1 {
		sl = x.nilSlice()
	}
	sn := snap(st)
	outs, msg := onlyRets(x.Call(st, x.P.MustFn("hash/sha3", "state.Read"), s.ptr(), sl))
	if msg != "" {
		return refuted("%s", msg)
	}
	return sha3ReadPost(r, s, sn, outs, oo, rate, a, rate-idx, l)
}

// stream bytes from position used of the block given by lanes
func sha3Squeeze(c *Ctx, rate int, lanes []*T, used, l int) (out, la []*T, u int) {
	for l > 0 {
		if used == rate {
			lanes, used = keccakUF(c, lanes), 0
		}
		k := rate - used
		if k > l {
			k = l
		}
		out = append(out, lanesBytes(c, lanes)[used:used+k]...)
		used += k
		l -= k
	}
	return out, lanes, used
}

func sha3ReadPost(r *Report, s *sha3Obj, sn snapshot, outs []*Outcome, oo *Obj, rate int, a []*T, used, l int) Res {
	x, c := s.x, s.x.C
	want, la, u := sha3Squeeze(c, rate, a, used, l)
	for _, q := range outs {
		if e := sha3Ret(r, c, q, c.I(int64(l))); e != nil {
			return *e
		}
		if e := eqAll(c, r.Seed, "output byte", x.readBytes(q.st, Ptr{oo, c.I(0)}, int64(l)), want); e != nil {
			return *e
		}
		sn2 := sn
		sn2.os = append([]*OState(nil), sn.os...)
		sn2.os[oo.id] = q.st.heap[oo.id] // the output buffer may change
		if e := s.checkSqueezing(r, sn2, q.st, rate, la, u); e != nil {
			return *e
		}
	}
	return ok()
}

// sha3ReadMany: idx + rate*m + t bytes requested, every m >= 2.
func sha3ReadMany(r *Report, x *Exec, rate, idx, t int, absorbing bool) (res Res) {
	c := x.C
	defer func() {
		x.cutAll = nil
		if p := recover(); p != nil {
			if e, isE := p.(execErr); isE {
				res = Res{OK: true, Bounded: e.msg}
				return
			}
			panic(p)
		}
	}()
	st := x.NewState()
	s := sha3Start(x, st, rate, idx, absorbing)
	a := s.lanes(st)
	if absorbing {
		a = sha3FinalVars(c)
	}
	m := c.IdxVar("m", 2, 1<<40)
	R := c.I(int64(rate))
	n := c.Add(c.Mul(m, R), c.I(int64(idx+t)))
	out := x.NewSymBytes(st, "out", n)
	outB := func(_ *T, v, next []*T) []*T { return lanesBytes(c, next)[:rate] }
	sc := &StreamCut{N: m, Seed: r.Seed, Init: a, Out: out, OutB: outB,
		Cells: func(*State) (*Obj, []int64, int64) {
			var o []int64
			for i := int64(0); i < 25; i++ {
				o = append(o, s.a+8*i)
			}
			return s.o, o, 8
		},
		Step: func(_ *State, v []*T, j *T) [][]*T { return [][]*T{keccakUF(c, v)} },
		Fold: func(i int, _ uint8, j *T) *T { return sha3FoldT(c, i, j) },
	}
	x.cutAll = sc
	sn := snap(st)
	outs, err := x.Call(st, x.P.MustFn("hash/sha3", "state.Read"), s.ptr(), Slice{Ptr{out, c.I(0)}, n, n})
	if err != nil || sc.Structure != "" || sc.Cut == 0 && sc.Refuted == "" {
		return Res{OK: true, Bounded: fmt.Sprintf("%v %s", err, sc.Structure)}
	}
	if sc.Refuted != "" {
		return refuted("%s", sc.Refuted)
	}
	pre, _, _ := sha3Squeeze(c, rate, a, rate-idx, idx)
	for _, q := range outs {
		if !x.Feasible(q.st, c.Bool(true)) {
			continue
		}
		if q.kind != "ret" {
			return refuted("panics: %s", q.msg)
		}
		if e := sha3Ret(r, c, q, n); e != nil {
			return *e
		}
		// what was written to out, in order
		w := q.st.heap[out.id].wr
		at := c.I(0)
		eat := func(want []*T, what string) *Res {
			for len(want) > 0 {
				if len(w) == 0 || w[0].bytes == nil || len(w[0].bytes) > len(want) || !x.leq(q.st, w[0].off, at) || !x.leq(q.st, at, w[0].off) {
					z := refuted("%s: written pieces do not follow the stream (%d pieces left)", what, len(w))
					return &z
				}
				k := len(w[0].bytes)
				if e := eqAll(c, r.Seed, what, w[0].bytes, want[:k]); e != nil {
					return e
				}
				at, want, w = c.Add(at, c.I(int64(k))), want[k:], w[1:]
			}
			return nil
		}
		// merge adjacent pieces is done by the memory model; split them again
		var la []*T
		var exp []*T
		exp = append(exp, pre...)
		k := x.pinnedTo(q.st, m, 3)
		if k > 0 {
			o, l2, _ := sha3Squeeze(c, rate, a, rate, k*rate)
			exp, la = append(exp, o...), l2
		} else {
			w = splitStream(w)
			if e := eat(exp, "output byte"); e != nil {
				return *e
			}
			exp = nil
			if len(w) == 0 || w[0].tag != "stream" || !x.leq(q.st, w[0].off, at) || !x.leq(q.st, at, w[0].off) || !c.Sub(w[0].n, c.Mul(m, R)).isCV(0) {
				return refuted("the whole blocks are not written behind the buffered bytes")
			}
			at = c.Add(at, w[0].n)
			w = w[1:]
			for i := 0; i < 25; i++ {
				la = append(la, sha3FoldT(c, i, m))
			}
		}
		o, l2, u := sha3Squeeze(c, rate, la, rate, t)
		exp = append(exp, o...)
		if k > 0 {
			w = joinPieces(w, c)
		}
		if e := eat(exp, "output byte"); e != nil {
			return *e
		}
		if len(w) != 0 {
			return refuted("more output written than requested")
		}
		sn2 := sn
		sn2.os = append([]*OState(nil), sn.os...)
		sn2.os[out.id] = q.st.heap[out.id]
		if e := s.checkSqueezing(r, sn2, q.st, rate, l2, u); e != nil {
			return *e
		}
	}
	return ok()
}

func splitStream(w []SymWrite) []SymWrite { return w }

// joinPieces drops empty pieces
func joinPieces(w []SymWrite, c *Ctx) []SymWrite {
	var r []SymWrite
	for _, p := range w {
		if p.bytes != nil && len(p.bytes) == 0 {
			continue
		}
		r = append(r, p)
	}
	return r
}

// sha3Final: the end of absorption. lanes after padding and permuting.
func sha3Final(c *Ctx, rate int, a, pend []*T, sfx *T) []*T {
	blk := append(append([]*T(nil), pend...), sfx)
	for len(blk) < rate {
		blk = append(blk, c.Const(8, 0))
	}
	blk[rate-1] = c.Xor(blk[rate-1], c.Const(8, 0x80))
	return keccakUF(c, xorBlock(c, a, blk))
}

func sha3FinalVars(c *Ctx) []*T {
	f := make([]*T, 25)
	for i := range f {
		f[i] = c.Var(64, fmt.Sprintf("final%d", i))
	}
	return f
}

// sha3Start: squeezing with idx unread bytes, or absorbing with any fill level.
func sha3Start(x *Exec, st *State, rate, idx int, absorbing bool) *sha3Obj {
	if !absorbing {
		return sha3New(x, st, rate, x.C.I(int64(idx)), true)
	}
	i := x.C.IdxVar("fill", 0, uint64(rate-1))
	return sha3New(x, st, rate, i, false)
}

// finalizeContract: finalize_sha3 requires an absorbing state with idx < rate and leaves a
// squeezing state at the start of the output stream (lanes = sha3Final of the old state, which
// the obligation on finalize_sha3 decides; here they are the variables final<i>).
func finalizeContract(x *Exec, rate int) bool {
	fn := x.P.Fn("hash/sha3", "state.finalize_sha3")
	if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 0 {
		return false
	}
	x.H[fn.String()] = func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		p, ok := a[0].(Ptr)
		if !ok || p.obj == nil || !p.off.isC() {
			return nil
		}
		c := x.C
		s := sha3At(x, p.obj, int64(p.off.k))
		if !s.squeezing(st).isCV(0) || !x.Prove(st, c.Ult(s.pos(st), c.I(int64(rate)))) {
			return []Alt{{st: st, panic: "finalize_sha3: precondition (absorbing, idx < rate) not established"}}
		}
		f := sha3FinalVars(c)
		for i, t := range f {
			x.storeAt(st, p.obj, s.a+int64(8*i), 8, t)
		}
		x.writeBytes(st, Ptr{p.obj, c.I(s.buf)}, lanesBytes(c, f)[:rate])
		for i := rate; i < 168; i++ {
			x.storeAt(st, p.obj, s.buf+int64(i), 1, c.Fresh(8, "havoc"))
		}
		x.storeAt(st, p.obj, s.idx, 8, c.I(int64(rate)))
		x.store(st, Ptr{p.obj, c.I(s.sq)}, types.Typ[types.Bool], c.Bool(true))
		return []Alt{{st: st}}
	}
	return true
}

func sha3FinalizeCase(r *Report, x *Exec, rate, idx int) Res {
	c := x.C
	st := x.NewState()
	s := sha3New(x, st, rate, c.I(int64(idx)), false)
	a, b := s.lanes(st), s.data(st)
	sfx := x.loadBits(st, s.o, s.sfx, 1)
	sn := snap(st)
	q := oneRet(x.Call(st, x.P.MustFn("hash/sha3", "state.finalize_sha3"), s.ptr()))
	if !s.pos(q.st).isCV(uint64(rate)) {
		return refuted("idx is %v after finalize_sha3", s.pos(q.st))
	}
	if e := s.checkSqueezing(r, sn, q.st, rate, sha3Final(c, rate, a, b[:idx], sfx), 0); e != nil {
		return *e
	}
	return ok()
}

// sha3ReadAbs: first Read, everything executed (no contract on finalize_sha3).
func sha3ReadAbs(r *Report, x *Exec, rate, idx, l int) Res {
	c := x.C
	st := x.NewState()
	s := sha3New(x, st, rate, c.I(int64(idx)), false)
	a, b := s.lanes(st), s.data(st)
	sfx := x.loadBits(st, s.o, s.sfx, 1)
	sl, oo := x.bytesSlice(st, "out", x.byteVars("out", l))
	sn := snap(st)
	outs, msg := onlyRets(x.Call(st, x.P.MustFn("hash/sha3", "state.Read"), s.ptr(), sl))
	if msg != "" {
		return refuted("%s", msg)
	}
	return sha3ReadPost(r, s, sn, outs, oo, rate, sha3Final(c, rate, a, b[:idx], sfx), 0, l)
}

func sha3Rates() []int { return []int{168, 144, 136, 104, 72} }

// sha3Obs runs f over lo..hi in chunks, one Exec per index.
func sha3Obs(r *Report, jobs *[]func(), name, backend, cfg string, rate, lo, hi, chunks int, f func(x *Exec, idx int) Res) {
	for k := 0; k < chunks; k++ {
		a, b := lo+(hi-lo+1)*k/chunks, lo+(hi-lo+1)*(k+1)/chunks-1
		if b < a {
			continue
		}
		*jobs = append(*jobs, func() {
			r.Ob(fmt.Sprintf("[%s, rate %d] "+name, cfg, rate, a, b), backend, func() Res {
				bound := ""
				var last Res
				for i := a; i <= b; i++ {
					x := newX(cfg)
					keccakContract(x)
					q := func() Res {
						defer x.Close()
						defer r.Merge(x)
						return f(x, i)
					}()
					if !q.OK {
						q.Detail = fmt.Sprintf("%d: ", i) + q.Detail
						return q
					}
					if q.Bounded != "" {
						bound = q.Bounded
					}
					last = q
				}
				last.Bounded = bound
				return last
			})
		})
	}
}

func propC02(r *Report) {
	r.Under = []string{"hash/sha3.(*state).Write", "hash/sha3.(*state).Read", "hash/sha3.(*state).finalize_sha3", "hash/sha3.xorIn/copyOut (both builds)", "hash/sha3.New224/New256/New384/New512/NewShake128/NewShake256", "hash/sha3.ShakeSum128/ShakeSum256"}
	r.Replay = &ReplaySpec{Files: map[string]string{"hash/sha3/zz_verif_test.go": "sha3_test.go"}, Pkg: []string{"./hash/sha3"}, Tags: [][]string{{""}, {"noasm"}}, Run: "TestVerifSponge"}
	r.Trusted = append(r.Trusted, "contract of keccakF1600 (decided by C01)")
	var jobs []func()
	be := "symbolic execution over the keccakF1600 contract, canonical terms"
	bs := "symbolic execution (symbolic length, loop invariant: sponge fold), z3"
	for _, cfg := range []string{"amd64", "noasm"} {
		for _, rate := range sha3Rates() {
			cfg, rate := cfg, rate
			sha3Obs(r, &jobs, "Write: fill level %d..%d, every input length up to two blocks past the buffer: lanes, buffer and idx absorb input; returns (len(input), nil); assigns only *c", be, cfg, rate, 0, rate-1, 4, func(x *Exec, idx int) Res {
				for l := 0; l < rate-idx+2*rate; l++ {
					if q := sha3Write(r, x, rate, idx, l); !q.OK {
						q.Detail = fmt.Sprintf("input length %d: ", l) + q.Detail
						return q
					}
				}
				return ok()
			})
			sha3Obs(r, &jobs, "Write: fill level %d..%d, every longer input (any number of blocks): lanes, buffer and idx absorb input; returns (len(input), nil); assigns only *c", bs, cfg, rate, 0, rate-1, 4, func(x *Exec, idx int) Res {
				for t := 0; t < rate; t++ {
					q := sha3WriteMany(r, x, rate, idx, t)
					if q.OK && q.Bounded != "" {
						// other loop structure: one and two further blocks
						for _, t := range []int{0, 1, rate / 2, rate - 1} {
							for m := 1; m <= 3; m++ {
								if q := sha3Write(r, x, rate, idx, rate-idx+m*rate+t); !q.OK {
									q.Detail = fmt.Sprintf("input length %d: ", rate-idx+m*rate+t) + q.Detail
									return q
								}
							}
						}
						q.Bounded = "loop induction not established for this form of the loop (" + q.Bounded + "); up to three whole blocks decided"
						return q
					}
					if !q.OK {
						q.Detail = fmt.Sprintf("%d bytes past the last block: ", t) + q.Detail
						return q
					}
				}
				return ok()
			})
			sha3Obs(r, &jobs, "Read from a squeezing state: %d..%d bytes unread, every request up to two blocks past them: output is the stream, position advances; returns (len(out), nil); assigns only *c and out", be, cfg, rate, 0, rate, 4, func(x *Exec, idx int) Res {
				for l := 0; l < idx+2*rate; l++ {
					if q := sha3Read(r, x, rate, idx, l, false); !q.OK {
						q.Detail = fmt.Sprintf("request %d: ", l) + q.Detail
						return q
					}
				}
				return ok()
			})
			many := func(x *Exec, idx int, abs bool) Res {
				for t := 0; t < rate; t++ {
					q := sha3ReadMany(r, x, rate, idx, t, abs)
					if q.OK && q.Bounded != "" {
						for _, t := range []int{0, 1, rate / 2, rate - 1} {
							for m := 1; m <= 3; m++ {
								if q := sha3Read(r, x, rate, idx, idx+m*rate+t, abs); !q.OK {
									q.Detail = fmt.Sprintf("request %d: ", idx+m*rate+t) + q.Detail
									return q
								}
							}
						}
						q.Bounded = "loop induction not established for this form of the loop (" + q.Bounded + "); up to three whole blocks decided"
						return q
					}
					if !q.OK {
						q.Detail = fmt.Sprintf("%d bytes past the last block: ", t) + q.Detail
						return q
					}
				}
				return ok()
			}
			sha3Obs(r, &jobs, "Read from a squeezing state: %d..%d bytes unread, every longer request (any number of blocks): output is the stream, position advances; returns (len(out), nil)", bs, cfg, rate, 0, rate, 4, func(x *Exec, idx int) Res { return many(x, idx, false) })
			{
				x := newX(cfg)
				has := finalizeContract(x, rate)
				x.Close()
				if has {
					sha3Obs(r, &jobs, "finalize_sha3: fill level %d..%d: lanes == f(lanes ^ pad10*1(buffer, sfx)), whole block unread; assigns only *c", be, cfg, rate, 0, rate-1, 1, func(x *Exec, idx int) Res { return sha3FinalizeCase(r, x, rate, idx) })
					sha3Obs(r, &jobs, "first Read, every fill level, request length class %d..%d (mod rate): pads once, output is the stream; assigns only *c and out", be+"; finalize_sha3 contract", cfg, rate, 0, 0, 1, func(x *Exec, _ int) Res {
						finalizeContract(x, rate)
						for l := 0; l < 3*rate; l++ {
							if q := sha3Read(r, x, rate, rate, l, true); !q.OK {
								q.Detail = fmt.Sprintf("request %d: ", l) + q.Detail
								return q
							}
						}
						return many(x, rate, true)
					})
				} else {
					sha3Obs(r, &jobs, "first Read, fill level %d..%d, sampled request lengths: pads once, output is the stream; assigns only *c and out", be, cfg, rate, 0, rate-1, 4, func(x *Exec, idx int) Res {
						for _, l := range []int{0, 1, 2, rate / 2, rate - 1, rate, rate + 1, 2*rate - 1, 2 * rate, 2*rate + 3} {
							if q := sha3ReadAbs(r, x, rate, idx, l); !q.OK {
								q.Detail = fmt.Sprintf("request %d: ", l) + q.Detail
								return q
							}
						}
						return Res{OK: true, Bounded: "request lengths sampled (finalize_sha3 has no contract)"}
					})
				}
			}
		}
		cfg := cfg
		jobs = append(jobs, func() {
			for _, v := range sha3Variants {
				v := v
				r.Ob(fmt.Sprintf("[%s] %s: ensures a fresh absorbing object of the empty message: zero lanes, rate %d, size %d, suffix %#x", cfg, v.ctor, v.rate, v.d, v.sfx), be, func() Res {
					x := newX(cfg)
					defer x.Close()
					defer r.Merge(x)
					st := x.NewState()
					q := oneRet(x.Call(st, x.P.MustFn("hash/sha3", v.ctor)))
					return sha3Initial(r, x, q.st, q.v, v.rate, v.d, v.sfx)
				})
			}
		})
	}
	Par(8, jobs...)
}

func sha3Initial(r *Report, x *Exec, st *State, v Value, rate, d int, sfx uint64) Res {
	f, isI := v.(Iface)
	if !isI {
		return refuted("result %v", v)
	}
	p, isP := f.v.(Ptr)
	if !isP || p.obj == nil || !p.off.isC() {
		return refuted("result %v", f.v)
	}
	s := sha3At(x, p.obj, int64(p.off.k))
	for i, l := range s.lanes(st) {
		if !l.isCV(0) {
			return refuted("lane %d is not zero", i)
		}
	}
	for i, b := range s.data(st) {
		if i >= rate && !b.isCV(0) {
			return refuted("data[%d] is not zero", i)
		}
	}
	if !s.pos(st).isCV(0) || !s.squeezing(st).isCV(0) {
		return refuted("not an empty absorbing state")
	}
	if g := x.loadBits(st, s.o, s.r, 8); !g.isCV(uint64(rate)) {
		return refuted("rate %v", g)
	}
	if g := x.loadBits(st, s.o, s.d, 8); !g.isCV(uint64(d)) {
		return refuted("size %v", g)
	}
	if g := x.loadBits(st, s.o, s.sfx, 1); !g.isCV(sfx) {
		return refuted("suffix %v", g)
	}
	return ok()
}
