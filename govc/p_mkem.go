package main

// C19: the multi-recipient SIKE KEM over the contracts used for C18.

import (
	"fmt"
	"go/types"
)

func init() { props["C19"] = propC19 }

type mkemEnv struct {
	*sikeEnv
	n    *T
	cts  Slice
	ct0  int64 // offset of ct0 in the object
	es   int64 // size of a stored ciphertext
	tmpl *sidhKey
	ctsT types.Type
}

var mkemT = "MultiKEM"

// fieldLike finds a field by name, else the only one whose type satisfies f.
func (x *Exec) fieldLike(T types.Type, name string, f func(types.Type) bool) (off int64, ft types.Type) {
	u := T.Underlying().(*types.Struct)
	offs := x.fieldOffs(u)
	n := 0
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return offs[i], u.Field(i).Type()
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		if f(u.Field(i).Type()) {
			off, ft = offs[i], u.Field(i).Type()
			n++
		}
	}
	if n != 1 {
		unsup("field %s not found", name)
	}
	return
}

func byteArr(t types.Type) (int64, bool) {
	a, ok := t.Underlying().(*types.Array)
	if !ok || !isByteLike(a.Elem()) {
		return 0, false
	}
	return a.Len(), true
}

// mkemNew allocates a MultiKEM for n recipients (n may be symbolic), with any history.
func mkemNew(r *Report, x *Exec, F sidhPar, n *T, fails bool) (*mkemEnv, *State) {
	shakeContracts(x)
	sidhOps(x)
	cmpContracts(x)
	e := &mkemEnv{sikeEnv: &sikeEnv{r: r, x: x, F: F, pkg: "mkem", g: x.newRng("rng", fails)}, n: n}
	e.T = x.P.Type("mkem", mkemT)
	st := x.NewState()
	e.kem = Ptr{x.NewTyped(st, "mkem", e.T), x.C.I(0)}
	q := oneRet(x.Call(st, x.P.MustFn("mkem", mkemT+".Allocate"), e.kem, x.C.Const(8, F.id), n, e.g.iface()))
	st = q.st
	e.ct0, _ = x.fieldLike(e.T, "ct0", func(t types.Type) bool { k, ok := byteArr(t); return ok && k >= int64(6*F.bl) && k > 500 })
	var ctsOff int64
	ctsOff, e.ctsT = x.fieldLike(e.T, "cts", func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if ok {
			_, ok = byteArr(s.Elem())
		}
		return ok
	})
	e.es, _ = byteArr(e.ctsT.Underlying().(*types.Slice).Elem())
	e.own = []*Obj{e.kem.obj}
	e.havoc(st)
	sl, okS := x.load(st, Ptr{e.kem.obj, x.C.I(ctsOff)}, e.ctsT).(Slice)
	if !okS || sl.len != n {
		unsup("Allocate does not provide a list of one ciphertext per recipient")
	}
	e.cts = sl
	if !n.isC() {
		sl.p.obj.init = func(x *Exec, st *State, off *T, sz int64, t types.Type) Value {
			if sz != 1 {
				unsup("old ciphertext list read as %v", t)
			}
			if cut, ok := x.cutAll.(*recipCut); ok {
				if j := cut.done(st); j != nil && !x.leq(st, x.C.Mul(j, x.C.I(e.es)), off) {
					unsup("reads a ciphertext already written")
				}
			}
			return x.C.UF(8, "old.cts", off)
		}
	}
	return e, st
}

// genericKey is public key number idx of a list of any length.
func (e *mkemEnv) genericKey(st *State, idx *T) *sidhKey {
	x, c := e.x, e.x.C
	t := e.tmpl
	k := *t
	k.o = x.NewObj(st, "pub", t.o.size)
	copy(st.wos(k.o).cells, st.os(t.o).cells)
	for i := int64(0); i < 6; i++ {
		for j := int64(0); j < int64(e.F.n); j++ {
			x.storeAt(st, k.o, k.at+96*i+8*j, 8, c.UF(64, fmt.Sprintf("pub.pt%d.%d", i, j), idx))
		}
	}
	x.storeAt(st, k.o, x.fieldOff(k.T, "KeyVariant"), 8, c.UF(64, "pub.variant", idx))
	return &k
}

type pubMemo map[*T]*sidhKey

// pubList is a slice of n pointers to generic public keys.
func (e *mkemEnv) pubList(st *State) (*State, Slice) {
	x, c := e.x, e.x.C
	st, e.tmpl = e.pub(st, "tmpl")
	o := x.NewObj(st, "pubs", -1)
	o.lenT = c.Mul(e.n, c.I(8))
	o.init = func(x *Exec, st *State, off *T, sz int64, t types.Type) Value {
		if sz != 8 {
			unsup("recipient list read as %v", t)
		}
		m, _ := st.G("pubs").(pubMemo)
		if k, ok := m[off]; ok {
			return k.ptr()
		}
		// offsets are 8 times the index
		var idx *T
		if off.isC() {
			idx = c.I(int64(off.k) / 8)
		} else if cut, ok := x.cutAll.(*recipCut); ok && cut.done(st) != nil && off == c.Mul(cut.done(st), c.I(8)) {
			idx = cut.done(st)
		} else {
			unsup("recipient at offset %v", off)
		}
		k := e.genericKey(st, idx)
		n := pubMemo{off: k}
		for a, b := range m {
			n[a] = b
		}
		st.SetG("pubs", n)
		return k.ptr()
	}
	return st, Slice{Ptr{o, c.I(0)}, e.n, e.n}
}

func (e *mkemEnv) key(st *State, idx *T) *sidhKey {
	m, _ := st.G("pubs").(pubMemo)
	return m[e.x.C.Mul(idx, e.x.C.I(8))]
}

func (e *mkemEnv) msg(st *State, p0 int) (m []*T) {
	for i := 0; i < e.F.msg; i++ {
		m = append(m, e.g.byteAt(st, p0+i))
	}
	return
}

// mkemCt is the ciphertext for one recipient.
func (e *mkemEnv) mkemCt(m []*T, canon [3][]*T) []*T {
	c := e.x.C
	r, _ := e.ephemeral(cat(e.x.constBytes([]byte{1}), m))
	j := sidhSecret(e.x, e.F, 'A', r, canon)
	return xorB(c, xof(c, "shake256", cat(e.x.constBytes([]byte{2}), j), 0, e.F.msg), m)
}

func (e *mkemEnv) mkemK(m []*T) []*T {
	return xof(e.x.C, "shake256", cat(e.x.constBytes([]byte{3}), m), 0, e.F.msg)
}

func (e *mkemEnv) variantOf(st *State, k *sidhKey) *T {
	return e.x.loadBits(st, k.o, e.x.fieldOff(k.T, "KeyVariant"), 8)
}

// checkCommon compares the parts that all recipients share.
func (e *mkemEnv) checkCommon(sn snapshot, q *Outcome, ss Slice, extra int64, p0 int) *Res {
	x, c := e.x, e.x.C
	rf := func(f string, a ...interface{}) *Res { z := refuted(f, a...); return &z }
	if m := sn.frame(q.st, append([]*Obj{ss.p.obj}, e.own...)...); m != "" {
		return rf("frame: %s", m)
	}
	if !sn.same(q.st, ss.p.obj, int64(e.F.msg), int64(e.F.msg)+extra) {
		return rf("writes beyond the secret")
	}
	off, _ := x.fieldLike(e.T, "cts", func(t types.Type) bool { return t == e.ctsT })
	if sl, ok := x.load(q.st, Ptr{e.kem.obj, c.I(off)}, e.ctsT).(Slice); !ok || !sameVal(sl, e.cts) {
		return rf("the ciphertext list is replaced")
	}
	m := e.msg(q.st, p0)
	_, c0 := e.ephemeral(cat(x.constBytes([]byte{1}), m))
	if z := eqAll(c, e.r.Seed, "ct0 byte", x.readBytes(q.st, Ptr{e.kem.obj, c.I(e.ct0)}, int64(e.pkLen())), c0); z != nil {
		return z
	}
	return eqAll(c, e.r.Seed, "secret byte", x.readBytes(q.st, ss.p, int64(e.F.msg)), e.mkemK(m))
}

// encapsN: a concrete number of recipients.
func (e *mkemEnv) encapsN(st *State, pubs []*sidhKey, extra int64) (Res, []*State, Slice) {
	x, c := e.x, e.x.C
	n := int64(len(pubs))
	var list Slice = x.nilSlice()
	if n > 0 {
		o := x.NewObj(st, "list", 8*n)
		for i, k := range pubs {
			x.storeAt(st, o, int64(8*i), 8, k.ptr())
		}
		list = Slice{Ptr{o, c.I(0)}, c.I(n), c.I(n)}
	}
	ss := x.bufLen(st, "ss", int64(e.F.msg)+extra, int64(e.F.msg)+extra)
	sn := snap(st)
	p0 := e.g.pos(st)
	var canon [][3][]*T
	for _, k := range pubs {
		w, _ := e.canon(st, k)
		canon = append(canon, w)
	}
	var good []*State
	for _, q := range e.call(st, mkemT+".Encapsulate", e.kem, ss, list) {
		if q.kind != "ret" {
			return refuted("panics: %s", q.msg), nil, ss
		}
		isNil, okE := errNil(q.v)
		if !okE || isNil == e.g.failed(q.st) {
			return refuted("error returned: %v; random source failed: %v", !isNil, e.g.failed(q.st)), nil, ss
		}
		if !isNil {
			if m := sn.frame(q.st, e.own...); m != "" {
				return refuted("the random source failed, but writes: %s", m), nil, ss
			}
			continue
		}
		if z := e.checkCommon(sn, q, ss, extra, p0); z != nil {
			return *z, nil, ss
		}
		m := e.msg(q.st, p0)
		for i := range pubs {
			at := Ptr{e.cts.p.obj, c.Add(e.cts.p.off, c.I(int64(i)*e.es))}
			if z := eqAll(c, e.r.Seed, fmt.Sprintf("ciphertext %d of %d, byte", i, n), x.readBytes(q.st, at, int64(e.F.msg)), e.mkemCt(m, canon[i])); z != nil {
				return *z, nil, ss
			}
			b := int64(e.cts.p.off.k) + int64(i)*e.es
			if !sn.same(q.st, e.cts.p.obj, b+int64(e.F.msg), b+e.es) {
				return refuted("writes beyond ciphertext %d", i), nil, ss
			}
		}
		good = append(good, q.st)
	}
	if len(good) == 0 {
		return refuted("never succeeds"), nil, ss
	}
	return ok(), good, ss
}

// encapsInd: any number of recipients.
func (e *mkemEnv) encapsInd(st *State) Res {
	x, c := e.x, e.x.C
	st, list := e.pubList(st)
	ss := x.bufLen(st, "ss", int64(e.F.msg), int64(e.F.msg))
	cut := &recipCut{x: x, n: e.n, out: e.cts.p.obj, es: e.es}
	p0 := e.g.pos(st)
	sike := c.Const(64, kvSike)
	cut.check = func(st *State, idx *T, w SymWrite) *Res {
		k := e.key(st, idx)
		if k == nil {
			z := refuted("output written without reading the recipient's key")
			return &z
		}
		if !x.Prove(st, c.Eq(e.variantOf(st, k), sike)) {
			z := refuted("a public key of another variant is accepted")
			return &z
		}
		canon, _ := e.canon(st, k)
		lo, okO := x.cdiff(w.off, c.Mul(idx, c.I(e.es)))
		if !okO || lo != 0 || len(w.bytes) != e.F.msg {
			z := refuted("%d bytes written at offset %d, want %d at 0", len(w.bytes), lo, e.F.msg)
			return &z
		}
		return eqAll(c, e.r.Seed, "ciphertext byte", w.bytes, e.mkemCt(e.msg(st, p0), canon))
	}
	x.cutAll = cut
	sn := snap(st)
	outs, err := x.Call(st, x.P.MustFn("mkem", mkemT+".Encapsulate"), e.kem, ss, list)
	if cut.fail != nil {
		return *cut.fail
	}
	if err != nil || cut.strct != "" {
		return Res{OK: true, Bounded: fmt.Sprintf("induction over the recipients not established for this form of the code (%v %s): only the enumerated numbers of recipients are decided", err, cut.strct)}
	}
	nret := 0
	for _, q := range outs {
		j := c.I(0)
		if d := cut.done(q.st); d != nil {
			j = d
		}
		if q.kind != "ret" {
			k := e.key(q.st, j)
			if k == nil || !x.Prove(q.st, c.Not(c.Eq(e.variantOf(q.st, k), sike))) {
				return Res{OK: true, Bounded: fmt.Sprintf("a panic (%s) is not explained by the key variant of the recipient reached; only the enumerated numbers of recipients are decided", q.msg)}
			}
			if m := sn.frame(q.st, e.own...); m != "" {
				return refuted("refused, but writes: %s", m)
			}
			continue
		}
		if isNil, okE := errNil(q.v); !okE || !isNil {
			return refuted("an error is returned")
		}
		if !x.Prove(q.st, c.Eq(j, e.n)) {
			return refuted("stops after %v of %v recipients", j, e.n)
		}
		if wr := q.st.os(e.cts.p.obj).wr; len(wr) > 0 {
			return refuted("writes ciphertexts after the loop")
		}
		if z := e.checkCommon(sn, q, ss, 0, p0); z != nil {
			return *z
		}
		nret++
	}
	if nret < 2 || cut.steps == 0 {
		return Res{OK: true, Bounded: "the loop over the recipients was not recognised; only the enumerated numbers of recipients are decided"}
	}
	return okd("by induction over the recipients: %d iterations from the invariant, %d final paths", cut.steps, nret)
}

func (e *mkemEnv) decaps(st *State, prv, pub *sidhKey, ct Slice, extra int64, wantK []*T) Res {
	x, c := e.x, e.x.C
	ss := x.bufLen(st, "ss2", int64(e.F.msg)+extra, int64(e.F.msg)+extra)
	sn := snap(st)
	st.SetG("cmps", nil)
	ctb := x.readBytes(st, ct.p, int64(e.F.msg))
	c0 := x.readBytes(st, Ptr{e.kem.obj, c.I(e.ct0)}, int64(e.pkLen()))
	canon, _ := e.canon(st, pub)
	S, sk := prv.bytesOf(st, prv.sv), prv.bytesOf(st, prv.sc)
	j := sidhSecret(x, e.F, 'B', sk, e.decode(c0))
	m := xorB(c, xof(c, "shake256", cat(x.constBytes([]byte{2}), j), 0, e.F.msg), ctb)
	_, c0x := e.ephemeral(cat(x.constBytes([]byte{1}), m))
	ctx := e.mkemCt(m, canon)
	n := 0
	for _, q := range e.call(st, mkemT+".Decapsulate", e.kem, ss, prv.ptr(), pub.ptr(), ct) {
		if q.kind != "ret" {
			return refuted("panics: %s", q.msg)
		}
		if isNil, okE := errNil(q.v); !okE || !isNil {
			return refuted("an error is returned")
		}
		if m := sn.frame(q.st, append([]*Obj{ss.p.obj}, e.own...)...); m != "" {
			return refuted("frame: %s", m)
		}
		if !sn.same(q.st, ss.p.obj, int64(e.F.msg), int64(e.F.msg)+extra) {
			return refuted("writes beyond the secret")
		}
		// what later decapsulations rely on
		if sn.os[e.kem.obj.id] != q.st.heap[e.kem.obj.id] && !sn.same(q.st, e.kem.obj, e.ct0, e.ct0+int64(e.pkLen())) {
			return refuted("changes the stored ephemeral public key")
		}
		if z := sn.frame(q.st, ownExcept(e.own, ss.p.obj, e.cts.p.obj)...); z != "" {
			return refuted("changes the stored ciphertexts: %s", z)
		}
		recs, _ := q.st.G("cmps").([]cmpRec)
		eq, z := cmpHolds(c, e.r.Seed, recs, [2][]*T{c0x, c0}, [2][]*T{ctx, ctb})
		if z != nil {
			return *z
		}
		key := S
		if eq {
			key = m
			n++
		}
		got := x.readBytes(q.st, ss.p, int64(e.F.msg))
		if z := eqAll(c, e.r.Seed, fmt.Sprintf("secret byte (re-encryption equal: %v)", eq), got, e.mkemK(key)); z != nil {
			return *z
		}
		if wantK != nil {
			if z := eqAll(c, e.r.Seed, "decapsulated secret byte", got, wantK); z != nil {
				return *z
			}
		}
	}
	if n == 0 {
		return refuted("never accepts")
	}
	return ok()
}

// ownExcept: the objects of own (with extra) other than except.
func ownExcept(own []*Obj, extra, except *Obj) []*Obj {
	r := []*Obj{extra}
	for _, o := range own {
		if o != except {
			r = append(r, o)
		}
	}
	return r
}

func propC19(r *Report) {
	r.Under = []string{"kem/mkem.(*MultiKEM).Allocate", "kem/mkem.(*MultiKEM).Encapsulate", "kem/mkem.(*MultiKEM).Decapsulate", "kem/mkem.(*MultiKEM).NewPrivateKey", "kem/mkem.(*MultiKEM).NewPublicKey", "dh/sidh/common.Cpick"}
	r.Trusted = append(r.Trusted, "contracts of SHAKE256 (C02-C04), of the Montgomery conversions (C14) and of PublicKeyGen/DeriveSecret (C16) as functions of their inputs", "both parties of a key agreement derive the same secret (C21, not decided): used only for 'decapsulation yields the same secret'", "io.ReadFull; subtle.ConstantTimeCompare answers 1 exactly for equal strings", "honest public keys are canonical (components below p)", "at most 2^32 recipients")
	r.Replay = &ReplaySpec{Files: map[string]string{"kem/mkem/zz_verif_test.go": "mkem_test.go"}, Pkg: []string{"mkem"}, Run: "TestVerifMultiKem"}
	be := "symbolic execution over the hash, key and encoding contracts + normal form"
	var jobs []func()
	for _, F := range sidhPars {
		F := F
		ob := func(name string, n int64, fails bool, f func(e *mkemEnv, st *State) Res) {
			jobs = append(jobs, func() {
				r.Ob(fmt.Sprintf("MultiKEM %s: %s", F.name, name), be, func() Res {
					x := newX("amd64")
					defer x.Close()
					defer r.Merge(x)
					N := x.C.I(n)
					if n < 0 {
						N = x.C.IdxVar("recipients", 0, 1<<32)
					}
					e, st := mkemNew(r, x, F, N, fails)
					return f(e, st)
				})
			})
		}
		ob("Encapsulate for any number of recipients: one ephemeral key, one secret, the ciphertext of every recipient; refuses exactly keys of another variant", -1, false, func(e *mkemEnv, st *State) Res { return e.encapsInd(st) })
		for n := int64(0); n <= 3; n++ {
			n := n
			for _, extra := range []int64{0, 11} {
				extra := extra
				if extra > 0 && n != 2 {
					continue
				}
				ob(fmt.Sprintf("Encapsulate for %d recipients, secret buffer longer by %d: as specified; a failing source is an error before any output", n, extra), n, true, func(e *mkemEnv, st *State) Res {
					var pubs []*sidhKey
					for i := int64(0); i < n; i++ {
						var k *sidhKey
						st, k = e.pub(st, fmt.Sprintf("pub%d", i))
						pubs = append(pubs, k)
					}
					z, _, _ := e.encapsN(st, pubs, extra)
					return z
				})
			}
		}
		ob("Encapsulate twice for two recipients, with a decapsulation and Reset between: the second is as specified", 2, false, func(e *mkemEnv, st *State) Res {
			st, a := e.pub(st, "puba")
			st, b := e.pub(st, "pubb")
			st, s := e.prv(st, "prva")
			z, good, _ := e.encapsN(st, []*sidhKey{a, b}, 0)
			if !z.OK {
				return z
			}
			for _, st := range good {
				x := e.x
				ct := x.bufLen(st, "hct", int64(e.F.msg), int64(e.F.msg))
				ss := x.bufLen(st, "hss", int64(e.F.msg), int64(e.F.msg))
				for _, q := range e.call(st, mkemT+".Decapsulate", e.kem, ss, s.ptr(), a.ptr(), ct) {
					for _, q := range e.call(q.st, mkemT+".Reset", e.kem) {
						if z, _, _ := e.encapsN(q.st, []*sidhKey{b, a}, 0); !z.OK {
							return z
						}
					}
				}
			}
			return ok()
		})
		for _, extra := range []int64{0, 11} {
			extra := extra
			ob(fmt.Sprintf("Decapsulate, secret buffer longer by %d: for every ciphertext and stored ephemeral key the secret is H(3||m') if re-encryption reproduces both, else H(3||S)", extra), 2, false, func(e *mkemEnv, st *State) Res {
				st, pub := e.pub(st, "pub")
				st, prv := e.prv(st, "prv")
				ct := e.x.bufLen(st, "ct", int64(e.F.msg), int64(e.F.msg))
				return e.decaps(st, prv, pub, ct, extra, nil)
			})
		}
		ob("each recipient's decapsulation of its ciphertext yields the secret (two recipients, one after the other)", 2, false, func(e *mkemEnv, st *State) Res {
			var pubs, prvs []*sidhKey
			for i := 0; i < 2; i++ {
				var k, s *sidhKey
				st, k = e.pub(st, fmt.Sprintf("pub%d", i))
				st, s = e.prv(st, fmt.Sprintf("prv%d", i))
				e.setPub(st, k, s)
				pubs, prvs = append(pubs, k), append(prvs, s)
			}
			z, good, ss := e.encapsN(st, pubs, 0)
			if !z.OK {
				return z
			}
			c := e.x.C
			for _, s := range good {
				K := e.x.readBytes(s, ss.p, int64(e.F.msg))
				for i := range pubs {
					at := Ptr{e.cts.p.obj, c.Add(e.cts.p.off, c.I(int64(i)*e.es))}
					ln := c.I(int64(e.F.msg))
					t := s.Clone()
					if z := e.decaps(t, prvs[i], pubs[i], Slice{at, ln, ln}, 0, K); !z.OK {
						return z
					}
				}
			}
			return ok()
		})
		ob("a recipient's decapsulation yields the secret whatever the other buffers hold (any recipient of any encapsulation, by the specification of its ciphertext)", 1, false, func(e *mkemEnv, st *State) Res {
			x := e.x
			st, k := e.pub(st, "pub")
			st, s := e.prv(st, "prv")
			e.setPub(st, k, s)
			m := x.byteVars("m", e.F.msg)
			_, c0 := e.ephemeral(cat(x.constBytes([]byte{1}), m))
			x.writeBytes(st, Ptr{e.kem.obj, x.C.I(e.ct0)}, c0)
			canon, _ := e.canon(st, k)
			ct, _ := x.bytesSlice(st, "ct", e.mkemCt(m, canon))
			return e.decaps(st, s, k, ct, 0, e.mkemK(m))
		})
		ob("NewPrivateKey and NewPublicKey make SIKE keys of the object's field", 1, false, func(e *mkemEnv, st *State) Res {
			x := e.x
			for _, nm := range []string{"PrivateKey", "PublicKey"} {
				if x.P.Fn("mkem", mkemT+".New"+nm) == nil {
					continue
				}
				q := oneRet(x.Call(st, x.P.MustFn("mkem", mkemT+".New"+nm), e.kem))
				w := oneRet(x.Call(q.st, x.P.MustFn("dh/sidh", "New"+nm), x.C.Const(8, e.F.id), x.C.Const(64, kvSike)))
				p, p2 := q.v.(Ptr), w.v.(Ptr)
				T := x.P.Type("dh/sidh", nm)
				for _, f := range []string{"KeyVariant", "Params"} {
					o := x.fieldOff(T, f)
					a, b := w.st.os(p.obj).cells[o].v, w.st.os(p2.obj).cells[o].v
					same := sameVal(a, b)
					if pa, isP := a.(Ptr); isP {
						// every key has its own copy of the parameters
						pb, _ := b.(Ptr)
						same = pa.obj != nil && pb.obj != nil && pa.off == pb.off && pa.obj.size == pb.obj.size
						if same {
							ca, cb := w.st.os(pa.obj).cells, w.st.os(pb.obj).cells
							for i := range ca {
								same = same && ca[i].n == cb[i].n && (ca[i].n == 0 || sameVal(ca[i].v, cb[i].v))
							}
						}
					}
					if !same {
						return refuted("New%s: %s differs from sidh.New%s", nm, f, nm)
					}
				}
				st = w.st
			}
			return ok()
		})
		type refusal struct {
			name string
			enc  bool
			n    int64
			f    func(e *mkemEnv, st *State, pubs []*sidhKey, prv *sidhKey, ct, ss *Slice)
		}
		setv := func(e *mkemEnv, st *State, k *sidhKey, v uint64) {
			e.x.storeAt(st, k.o, e.x.fieldOff(k.T, "KeyVariant"), 8, e.x.C.Const(64, v))
		}
		var rs []refusal
		for _, v := range []uint64{kvA, kvB, 0, 7} {
			v := v
			for i := 0; i < 3; i++ {
				i := i
				if v == kvB || i == 0 {
					rs = append(rs, refusal{fmt.Sprintf("public key %d of 3 of variant %d", i, v), true, 3, func(e *mkemEnv, st *State, pubs []*sidhKey, prv *sidhKey, ct, ss *Slice) { setv(e, st, pubs[i], v) }})
				}
			}
			rs = append(rs, refusal{fmt.Sprintf("public key of variant %d", v), false, 1, func(e *mkemEnv, st *State, pubs []*sidhKey, prv *sidhKey, ct, ss *Slice) { setv(e, st, pubs[0], v) }},
				refusal{fmt.Sprintf("private key of variant %d", v), false, 1, func(e *mkemEnv, st *State, pubs []*sidhKey, prv *sidhKey, ct, ss *Slice) { setv(e, st, prv, v) }})
		}
		for _, enc := range []bool{true, false} {
			rs = append(rs, refusal{"secret buffer too short, any length", enc, 1, func(e *mkemEnv, st *State, pubs []*sidhKey, prv *sidhKey, ct, ss *Slice) {
				*ss = e.x.bufLen(st, "ssshort", 0, int64(e.F.msg)-1)
			}}, refusal{"object that was not allocated", enc, 1, func(e *mkemEnv, st *State, pubs []*sidhKey, prv *sidhKey, ct, ss *Slice) {
				T := e.x.P.Type("mkem", "KEM")
				e.x.storeAt(st, e.kem.obj, e.x.fieldOff(e.T, "KEM")+e.x.fieldOff(T, "allocated"), 1, e.x.C.Bool(false))
			}})
		}
		rs = append(rs, refusal{"ciphertext too short, any length", false, 1, func(e *mkemEnv, st *State, pubs []*sidhKey, prv *sidhKey, ct, ss *Slice) {
			*ct = e.x.bufLen(st, "ctshort", 0, int64(e.F.msg)-1)
		}}, refusal{"ciphertext too long, any length", false, 1, func(e *mkemEnv, st *State, pubs []*sidhKey, prv *sidhKey, ct, ss *Slice) {
			*ct = e.x.bufLen(st, "ctlong", int64(e.F.msg)+1, 1<<40)
		}}, refusal{"more recipients than allocated", true, 0, func(e *mkemEnv, st *State, pubs []*sidhKey, prv *sidhKey, ct, ss *Slice) {}})
		for _, rf := range rs {
			rf := rf
			op := "Decapsulate"
			if rf.enc {
				op = "Encapsulate"
			}
			ob(fmt.Sprintf("%s refuses (panic or error) before any secret: %s", op, rf.name), rf.n, false, func(e *mkemEnv, st *State) Res {
				x := e.x
				var pubs []*sidhKey
				np := rf.n
				if np == 0 {
					np = 1
				}
				for i := int64(0); i < np; i++ {
					var k *sidhKey
					st, k = e.pub(st, fmt.Sprintf("pub%d", i))
					pubs = append(pubs, k)
				}
				st, prv := e.prv(st, "prv")
				ct := x.bufLen(st, "ct", int64(e.F.msg), int64(e.F.msg))
				ss := x.bufLen(st, "ss", int64(e.F.msg), int64(e.F.msg))
				rf.f(e, st, pubs, prv, &ct, &ss)
				sn := snap(st)
				var outs []*Outcome
				if rf.enc {
					o := x.NewObj(st, "list", 8*np)
					for i, k := range pubs {
						x.storeAt(st, o, int64(8*i), 8, k.ptr())
					}
					outs = e.call(st, mkemT+".Encapsulate", e.kem, ss, Slice{Ptr{o, x.C.I(0)}, x.C.I(np), x.C.I(np)})
				} else {
					outs = e.call(st, mkemT+".Decapsulate", e.kem, ss, prv.ptr(), pubs[0].ptr(), ct)
				}
				for _, q := range outs {
					if q.kind == "ret" {
						if n, okE := errNil(q.v); !okE || n {
							return refuted("accepted")
						}
					}
					if m := sn.frame(q.st, e.own...); m != "" {
						return refuted("refused, but writes: %s", m)
					}
				}
				return ok()
			})
		}
	}
	Par(8, jobs...)
}
