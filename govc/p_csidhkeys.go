package main

// C11: CSIDH key encodings and private key generation.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C11"] = propC11 }

func (x *Exec) fieldOff(t types.Type, name string) int64 {
	u := t.Underlying().(*types.Struct)
	offs := x.fieldOffs(u)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if f.Name() == name {
			return offs[i]
		}
		if f.Anonymous() {
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				if o := x.fieldOffOK(f.Type(), name); o >= 0 {
					return offs[i] + o
				}
			}
		}
	}
	unsup("%v has no field %s", t, name)
	return 0
}

func (x *Exec) fieldOffOK(t types.Type, name string) (r int64) {
	defer func() {
		if p := recover(); p != nil {
			r = -1
		}
	}()
	return x.fieldOff(t, name)
}

func (x *Exec) boolRes(q *Outcome) (v, ok bool) {
	t, k := q.v.(*T)
	if !k || !t.isC() {
		return false, false
	}
	return t.k == 1, true
}

// bufN: a byte buffer of length n; n < 0: a symbolic length in [lo,hi].
func (x *Exec) bufLen(st *State, name string, lo, hi int64) Slice {
	c := x.C
	if lo == hi {
		s, _ := x.bytesSlice(st, name, x.byteVars(name, int(lo)))
		if lo == 0 {
			return x.nilSlice()
		}
		return s
	}
	ln := c.IdxVar("len("+name+")", uint64(lo), uint64(hi))
	o := x.NewSymBytes(st, name, ln)
	return Slice{Ptr{o, c.I(0)}, ln, ln}
}

type keyLens struct{ lo, hi int64 }

func propC11(r *Report) {
	r.Under = []string{"dh/csidh.(*PrivateKey).Import", "dh/csidh.PrivateKey.Export", "dh/csidh.(*PublicKey).Import", "dh/csidh.(*PublicKey).Export", "dh/csidh.GeneratePrivateKey"}
	r.Replay = csidhReplay("TestVerifKeys")
	r.Trusted = append(r.Trusted, "io.ReadFull: fills the buffer and returns a nil error, or returns an error")
	be := "symbolic execution + normal form"
	const pk = "dh/csidh"
	type cs struct {
		typ, fld string
		n        int64
		exact    bool
	}
	var jobs []func()
	for _, k := range []cs{{"PrivateKey", "e", 37, false}, {"PublicKey", "a", 64, true}} {
		k := k
		mk := func(x *Exec, st *State, name string) (*Obj, int64) {
			T := x.P.Type(pk, k.typ)
			o := x.NewTyped(st, name, T)
			x.havocAt(st, o, 0, T, name)
			return o, x.fieldOff(T, k.fld)
		}
		recv := func(x *Exec, st *State, fn *ssa.Function, o *Obj) Value {
			if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
				return Ptr{o, x.C.I(0)}
			}
			return x.load(st, Ptr{o, x.C.I(0)}, fn.Params[0].Type())
		}
		wrong := []keyLens{{0, 0}, {1, k.n - 1}, {k.n - 1, k.n - 1}, {k.n + 1, k.n + 1}, {k.n + 1, 1 << 40}}
		for _, op := range []string{"Import", "Export"} {
			op := op
			for _, w := range append([]keyLens{{k.n, k.n}}, wrong...) {
				w := w
				right := w.lo == k.n && w.hi == k.n
				longer := w.lo > k.n && !k.exact
				d := "fails without a panic and writes nothing"
				if right {
					d = "succeeds; little-endian content of exactly this field"
				} else if longer {
					d = "fails and writes nothing, or uses exactly the first bytes"
				}
				jobs = append(jobs, func() {
					r.Ob(fmt.Sprintf("%s.%s, buffer of %d..%d bytes, any previous content: %s", k.typ, op, w.lo, w.hi, d), be, func() Res {
						x := newX("amd64")
						defer x.Close()
						defer r.Merge(x)
						c := x.C
						st := x.NewState()
						o, off := mk(x, st, "key")
						buf := x.bufLen(st, "buf", w.lo, w.hi)
						sn := snap(st)
						old := x.readBytes(st, Ptr{o, c.I(off)}, k.n)
						var in []*T
						if w.lo >= k.n {
							in = x.readBytes(st, buf.p, k.n)
						}
						fn := x.P.MustFn(pk, k.typ+"."+op)
						outs, msg := onlyRets(x.Call(st, fn, recv(x, st, fn, o), buf))
						if msg != "" {
							return refuted("%s", msg)
						}
						for _, q := range outs {
							v, okb := x.boolRes(q)
							if !okb {
								return undecided("result %v", q.v)
							}
							if right && !v {
								return refuted("buffer of the right size refused")
							}
							if !right && !longer && v {
								return refuted("buffer of the wrong size accepted")
							}
							if !v {
								if m := sn.frame(q.st); m != "" {
									return refuted("refused, but writes: %s", m)
								}
								continue
							}
							if op == "Import" {
								if m := sn.frame(q.st, o); m != "" {
									return refuted("frame: %s", m)
								}
								if e := eqAll(c, r.Seed, "key byte", x.readBytes(q.st, Ptr{o, c.I(off)}, k.n), in); e != nil {
									return *e
								}
								continue
							}
							if m := sn.frame(q.st, buf.p.obj); m != "" {
								return refuted("frame: %s", m)
							}
							if e := eqAll(c, r.Seed, "exported byte", x.readBytes(q.st, buf.p, k.n), old); e != nil {
								return *e
							}
							if longer {
								for _, w := range q.st.os(buf.p.obj).wr {
									if !w.off.isC() || !w.n.isC() || int64(w.off.k+w.n.k) > k.n {
										return refuted("writes beyond the encoding")
									}
								}
							}
						}
						return okd("%d paths", len(outs))
					})
				})
			}
		}
		jobs = append(jobs, func() {
			r.Ob(k.typ+": export then import into any other key restores an identical key; import then export gives the same bytes", be, func() Res {
				x := newX("amd64")
				defer x.Close()
				defer r.Merge(x)
				c := x.C
				st := x.NewState()
				a, off := mk(x, st, "a")
				b, _ := mk(x, st, "b")
				buf := x.bufLen(st, "buf", k.n, k.n)
				sn := snap(st)
				ka := x.readBytes(st, Ptr{a, c.I(off)}, k.n)
				fe, fi := x.P.MustFn(pk, k.typ+".Export"), x.P.MustFn(pk, k.typ+".Import")
				q := oneRet(x.Call(st, fe, recv(x, st, fe, a), buf))
				q = oneRet(x.Call(q.st, fi, recv(x, q.st, fi, b), buf))
				if e := eqAll(c, r.Seed, "key byte", x.readBytes(q.st, Ptr{b, c.I(off)}, k.n), ka); e != nil {
					return *e
				}
				if m := sn.frame(q.st, b, buf.p.obj); m != "" {
					return refuted("frame: %s", m)
				}
				st = x.NewState()
				a, off = mk(x, st, "a")
				buf = x.bufLen(st, "buf", k.n, k.n)
				out := x.bufLen(st, "out", k.n, k.n)
				sn = snap(st)
				in := x.readBytes(st, buf.p, k.n)
				q = oneRet(x.Call(st, fi, recv(x, st, fi, a), buf))
				q = oneRet(x.Call(q.st, fe, recv(x, q.st, fe, a), out))
				if e := eqAll(c, r.Seed, "byte", x.readBytes(q.st, out.p, k.n), in); e != nil {
					return *e
				}
				if m := sn.frame(q.st, a, out.p.obj); m != "" {
					return refuted("frame: %s", m)
				}
				return ok()
			})
		})
	}
	jobs = append(jobs, func() {
		r.Ob("GeneratePrivateKey, any previous content, any random stream: exponent i is the i-th byte of the stream in [-5,5], 74 of them; an error exactly when the source fails", "inductive exploration of the (exponent index, byte index) states + SMT", func() Res {
			z := csidhGen(r)
			if z.OK || z.Status == "refuted" {
				return z
			}
			for seed := 0; seed < 12; seed++ {
				if b := csidhGenPattern(r, seed); !b.OK {
					return b
				}
			}
			return Res{OK: true, Bounded: "12 accept/reject patterns with symbolic values (" + z.Detail + ")"}
		})
	})
	Par(8, jobs...)
}

const csidhExps = 74

// nibbles packs exponents two to a byte, the even one low.
func nibbles(c *Ctx, a []*T, n int) []*T {
	r := make([]*T, n)
	for i := range r {
		nib := func(k int) *T {
			if k < len(a) {
				return c.Extract(a[k], 0, 4)
			}
			return c.Const(4, 0)
		}
		r[i] = c.Concat(nib(2*i+1), nib(2*i))
	}
	return r
}

func expOK(c *Ctx, b *T) *T { return c.Ult(c.Add(b, c.Const(8, 5)), c.Const(8, 11)) }

type genCut struct {
	x       *Exec
	r       *Report
	fn      *ssa.Function
	g       *rngModel
	key     *Obj
	off     int64
	vis     map[string]bool
	fail    *Res
	structM string
	n       int
}

type genGhost struct {
	acc  int // exponents in the canonical part
	used int // index of the next byte not yet consumed, in the current buffer
	ep   int
}

// consume classifies the bytes the path condition speaks of, and compares the exponents.
func (s *genCut) consume(st *State) (gg genGhost, ok bool) {
	c, x := s.x.C, s.x
	gg, _ = st.G("gen").(genGhost)
	seen := map[int]bool{}
	for _, p := range st.pc {
		for _, v := range reach(p) {
			if v.op == OVar && strings.HasPrefix(v.name, "rngb") {
				var e, i int
				if k, _ := fmt.Sscanf(v.name, "rngb%d.%d", &e, &i); k == 2 {
					seen[i] = true
				}
			}
		}
	}
	var idx []int
	for i := range seen {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	var acc []*T
	for t := 0; t < gg.acc; t++ {
		acc = append(acc, c.Var(8, fmt.Sprintf("acc%d", t)))
	}
	for _, i := range idx {
		if i < gg.used {
			s.structM = "a byte of the stream is examined twice"
			return gg, false
		}
		b := s.g.byteAt(st, i)
		switch {
		case x.Prove(st, expOK(c, b)):
			acc = append(acc, b)
		case x.Prove(st, c.Not(expOK(c, b))):
		default:
			// the code accepted or rejected a byte on another condition
			s.structM = "the range test of a byte is not a branch"
			m := refuted("a byte is accepted or refused by another test than -5 <= b <= 5")
			if q := st.Clone(); x.Feasible(q, expOK(c, b)) && x.Feasible(q, c.Not(expOK(c, b))) {
				s.fail = &m
			}
			return gg, false
		}
		gg.used = i + 1
	}
	gg.acc = len(acc)
	if gg.acc > csidhExps {
		m := refuted("more than %d exponents", csidhExps)
		s.fail = &m
		return gg, false
	}
	got := x.readBytes(st, Ptr{s.key, c.I(s.off)}, (csidhExps+1)/2)
	if e := eqAll(c, s.r.Seed, "exponent byte", got, nibbles(c, acc, len(got))); e != nil {
		if e.Status == "refuted" {
			e.Detail += fmt.Sprintf(" (%d exponents accepted)", len(acc))
			s.fail = e
		} else {
			s.structM = e.Detail
		}
		return gg, false
	}
	return gg, true
}

func (s *genCut) AtHeader(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock, back bool) ([]*State, bool) {
	if s.fail != nil || s.structM != "" {
		return nil, true
	}
	if fr.fn != s.fn || st.G("gen") == nil {
		return nil, false
	}
	key := fmt.Sprintf("%d", h.Index)
	for _, v := range phisOf(fr, h) {
		t, ok := v.(*T)
		if !ok || !t.isC() {
			s.structM = "loop variable is symbolic"
			return nil, true
		}
		key += fmt.Sprintf(":%d", t.k)
	}
	gg, ok := s.consume(st)
	if !ok {
		return nil, true
	}
	key += fmt.Sprintf("|%d:%d", gg.acc, gg.used)
	if s.vis[key] {
		return nil, true
	}
	s.vis[key] = true
	s.n++
	c := x.C
	var acc []*T
	for t := 0; t < gg.acc; t++ {
		acc = append(acc, c.Var(8, fmt.Sprintf("acc%d", t)))
	}
	for i, b := range nibbles(c, acc, (csidhExps+1)/2) {
		x.storeAt(st, s.key, s.off+int64(i), 1, b)
	}
	st.pc, st.pcset = nil, map[*T]bool{}
	st.SetG("gen", gg)
	return []*State{st}, true
}

func csidhGen(r *Report) Res {
	x := newX("amd64")
	defer x.Close()
	defer r.Merge(x)
	c := x.C
	KT := x.P.Type("dh/csidh", "PrivateKey")
	st := x.NewState()
	o := x.NewTyped(st, "key", KT)
	x.havocAt(st, o, 0, KT, "key")
	fn := x.P.MustFn("dh/csidh", "GeneratePrivateKey")
	g := x.newRng("rng", true)
	s := &genCut{x: x, r: r, fn: fn, g: g, key: o, off: x.fieldOff(KT, "e"), vis: map[string]bool{}}
	g.byteAt = func(st *State, i int) *T {
		gg, _ := st.G("gen").(genGhost)
		return c.Var(8, fmt.Sprintf("rngb%d.%d", gg.ep, i))
	}
	// every read starts a new buffer; bytes of the previous one must be settled by then
	g.onRead = nil
	rd := x.H["io.ReadFull"]
	x.H["io.ReadFull"] = func(x *Exec, st *State, a []Value, k *ssaCall) []Alt {
		gg, _ := st.G("gen").(genGhost)
		if st.G("gen") != nil {
			for _, p := range st.pc {
				for _, v := range reach(p) {
					if v.op == OVar && strings.HasPrefix(v.name, "rngb") {
						unsup("undecided bytes at a read")
					}
				}
			}
			// nothing may still refer to the old buffer's bytes
			gg.ep = 1 - gg.ep
			gg.used = 0
		}
		st.SetG("gen", gg)
		st.SetG("rng.pos.rng", 0)
		return rd(x, st, a, k)
	}
	x.cutAll, x.morePaths = s, 100000
	sn := snap(st)
	outs, err := x.Call(st, fn, Ptr{o, c.I(0)}, g.iface())
	if s.fail != nil {
		return *s.fail
	}
	if err != nil {
		return undecided("%v", err)
	}
	if s.structM != "" {
		return undecided("%s", s.structM)
	}
	nret := 0
	for _, q := range outs {
		if q.kind != "ret" {
			return refuted("panics: %s", q.msg)
		}
		if m := sn.frame(q.st, o); m != "" {
			return refuted("frame: %s", m)
		}
		isNil, okE := errNil(q.v)
		if !okE {
			return undecided("result %v", q.v)
		}
		if g.failed(q.st) {
			if isNil {
				return refuted("the source failed and no error is returned")
			}
			continue
		}
		if !isNil {
			return refuted("an error is returned though the source did not fail")
		}
		gg, ok := s.consume(q.st)
		if !ok {
			if s.fail != nil {
				return *s.fail
			}
			return undecided("%s", s.structM)
		}
		if gg.acc != csidhExps {
			return refuted("returns after %d exponents", gg.acc)
		}
		nret++
	}
	if nret == 0 {
		return refuted("never returns")
	}
	return okd("%d loop states, %d paths return a key", s.n, nret)
}

// csidhGenPattern: a fixed accept/reject pattern with symbolic byte values.
func csidhGenPattern(r *Report, seed int) Res {
	x := newX("amd64")
	defer x.Close()
	defer r.Merge(x)
	c := x.C
	KT := x.P.Type("dh/csidh", "PrivateKey")
	st := x.NewState()
	o := x.NewTyped(st, "key", KT)
	x.havocAt(st, o, 0, KT, "key")
	fn := x.P.MustFn("dh/csidh", "GeneratePrivateKey")
	g := x.newRng("rng", false)
	off := x.fieldOff(KT, "e")
	acc := func(i int) bool {
		switch seed {
		case 0:
			return true
		case 1:
			return i%2 == 0
		case 2:
			return i >= 64
		case 3:
			return i%64 == 63
		}
		return mix64(uint64(i*131+seed))%uint64(seed) < 2
	}
	g.byteAt = func(st *State, i int) *T {
		if !acc(i) && seed%2 == 0 {
			v := 6 + mix64(uint64(i*31+seed))%245
			return c.Const(8, v)
		}
		b := c.Var(8, fmt.Sprintf("rng[%d]", i))
		if acc(i) {
			st.Assume(expOK(c, b))
		} else {
			st.Assume(c.Not(expOK(c, b)))
		}
		return b
	}
	sn := snap(st)
	outs, err := x.Call(st, fn, Ptr{o, c.I(0)}, g.iface())
	if err != nil {
		return undecided("%v", err)
	}
	var want []*T
	for i := 0; len(want) < csidhExps; i++ {
		if acc(i) {
			want = append(want, g.byteAt(x.NewState(), i))
		}
	}
	for _, q := range outs {
		if q.kind != "ret" {
			return refuted("panics: %s", q.msg)
		}
		if m := sn.frame(q.st, o); m != "" {
			return refuted("frame: %s", m)
		}
		got := x.readBytes(q.st, Ptr{o, c.I(off)}, (csidhExps+1)/2)
		if e := eqAll(c, r.Seed, fmt.Sprintf("pattern %d: exponent byte", seed), got, nibbles(c, want, len(got))); e != nil {
			return *e
		}
		if n, _ := errNil(q.v); !n {
			return refuted("error returned")
		}
	}
	return ok()
}
