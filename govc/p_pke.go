package main

// C20: CSIDH public-key encryption over the contracts of SHAKE128 and of the CSIDH operations.

import (
	"fmt"
	"go/types"
)

func init() { props["C20"] = propC20 }

const csidhKeyBytes = 37

// csidhPub: Montgomery words of the public key of a private key.
func csidhPub(c *Ctx, e []*T) (w []*T) {
	a := packWords(c, e)
	for k := 0; k < 8; k++ {
		w = append(w, c.UF(64, fmt.Sprintf("csidh.pub.%d", k), a...))
	}
	return
}

// csidhSecret: the shared secret of a private key and a public key. For generated public keys it is
// symmetric in the two private keys (C22, assumed).
func csidhSecret(c *Ctx, e, pub []*T) []*T {
	a := packWords(c, e)
	var h *T
	gen := pub[0].op == OUF && pub[0].name == "csidh.pub.0"
	if gen {
		for k := range pub {
			gen = gen && pub[k] == c.UF(64, fmt.Sprintf("csidh.pub.%d", k), pub[0].a...)
		}
	}
	if gen {
		p, q := a, pub[0].a
		for i := range p {
			if p[i].id != q[i].id {
				if p[i].id > q[i].id {
					p, q = q, p
				}
				break
			}
		}
		h = c.UF(64, "csidh.shared", cat(p, q)...)
	} else {
		h = c.UF(64, "csidh.secret", cat(a, pub)...)
	}
	r := make([]*T, 64)
	for i := range r {
		r[i] = c.UF(8, "csidh.secretbyte", h, c.I(int64(i)))
	}
	return r
}

type pkeEnv struct {
	r      *Report
	x      *Exec
	T      types.Type
	pke    Ptr
	own    []*Obj
	KT, PT types.Type
	aOff   int64 // public key's coefficient
	eOff   int64
	refuse bool // public keys may be refused
}

func pkeContracts(e *pkeEnv) {
	x, c := e.x, e.x.C
	shakeContracts(x)
	e.KT, e.PT = x.P.Type("dh/csidh", "PrivateKey"), x.P.Type("dh/csidh", "PublicKey")
	e.aOff, e.eOff = x.fieldOff(e.PT, "a"), x.fieldOff(e.KT, "e")
	x.H[x.P.MustFn("dh/csidh", "GeneratePrivateKey").String()] = func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		p := a[0].(Ptr)
		n, _ := st.G("ngen").(int)
		st.SetG("ngen", n+1)
		for i, t := range e.eph(n) {
			x.store(st, Ptr{p.obj, c.Add(p.off, c.I(e.eOff+int64(i)))}, types.Typ[types.Int8], t)
		}
		return []Alt{{st: st, v: Iface{}}}
	}
	e8 := func(st *State, p Ptr) (b []*T) {
		return x.readBytes(st, Ptr{p.obj, c.Add(p.off, c.I(e.eOff))}, csidhKeyBytes)
	}
	x.H[x.P.MustFn("dh/csidh", "GeneratePublicKey").String()] = func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		p := a[0].(Ptr)
		for i, t := range csidhPub(c, e8(st, a[1].(Ptr))) {
			x.store(st, Ptr{p.obj, c.Add(p.off, c.I(e.aOff+int64(8*i)))}, types.Typ[types.Uint64], t)
		}
		return []Alt{{st: st}}
	}
	x.H[x.P.MustFn("dh/csidh", "DeriveSecret").String()] = func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		out, p := a[0].(Ptr), a[1].(Ptr)
		var r []Alt
		if e.refuse {
			q := st.Clone()
			q.SetG("refused", true)
			r = append(r, Alt{st: q, v: c.Bool(false)})
		}
		x.writeBytes(st, out, csidhSecret(c, e8(st, a[2].(Ptr)), e.words(st, p)))
		return append(r, Alt{st: st, v: c.Bool(true)})
	}
}

func (e *pkeEnv) words(st *State, p Ptr) (w []*T) {
	for i := int64(0); i < 8; i++ {
		w = append(w, e.x.load(st, Ptr{p.obj, e.x.C.Add(p.off, e.x.C.I(e.aOff+8*i))}, types.Typ[types.Uint64]).(*T))
	}
	return
}

// eph is the n-th ephemeral private key drawn.
func (e *pkeEnv) eph(n int) (b []*T) { return e.x.byteVars(fmt.Sprintf("eph%d.", n), csidhKeyBytes) }

func wordsLE(c *Ctx, w []*T) (b []*T) {
	for _, t := range w {
		for k := 0; k < 8; k++ {
			b = append(b, c.Extract(t, uint8(8*k), 8))
		}
	}
	return
}

// pkeNew allocates the object (n recipients when multi) and gives it any history.
func pkeNew(r *Report, x *Exec, multi bool, n *T) (*pkeEnv, *State) {
	e := &pkeEnv{r: r, x: x}
	pkeContracts(e)
	st := x.NewState()
	rng := Ptr{x.NewTyped(st, "drbg", x.P.Type("drbg", "CtrDrbg")), x.C.I(0)}
	nm := "PKE"
	args := []Value{nil, rng}
	if multi {
		nm = "MultiPKE"
		args = []Value{nil, n, rng}
	}
	e.T = x.P.Type("mkem", nm)
	e.pke = Ptr{x.NewTyped(st, nm, e.T), x.C.I(0)}
	args[0] = e.pke
	st = oneRet(x.Call(st, x.P.MustFn("mkem", nm+".Allocate"), args...)).st
	e.own = append(x.havocFields(st, e.pke.obj, 0, e.T), e.pke.obj)
	x.shakeForget(st)
	return e, st
}

func (e *pkeEnv) pub(st *State, name string, sk []*T) Ptr {
	x := e.x
	o := x.NewTyped(st, name, e.PT)
	x.havocAt(st, o, 0, e.PT, name)
	if sk != nil {
		for i, t := range csidhPub(x.C, sk) {
			x.storeAt(st, o, e.aOff+int64(8*i), 8, t)
		}
	}
	return Ptr{o, x.C.I(0)}
}

func (e *pkeEnv) prv(st *State, name string) (Ptr, []*T) {
	x := e.x
	o := x.NewTyped(st, name, e.KT)
	x.havocAt(st, o, 0, e.KT, name)
	return Ptr{o, x.C.I(0)}, x.readBytes(st, Ptr{o, x.C.I(e.eOff)}, csidhKeyBytes)
}

// mask is the first 16 bytes of SHAKE128 of a shared secret.
func (e *pkeEnv) masked(ss, pt []*T) []*T {
	return xorB(e.x.C, xof(e.x.C, "shake128", ss, 0, 16), pt)
}

func (e *pkeEnv) call(st *State, fn string, a ...Value) []*Outcome {
	outs, err := e.x.Call(st, e.x.P.MustFn("mkem", fn), a...)
	if err != nil {
		unsup("%v", err)
	}
	return outs
}

// aggBytes: field f of an aggregate, as bytes.
func (e *pkeEnv) ctField(a *Agg, ct types.Type, f string) (b []*T) {
	off := e.x.fieldOff(ct, f)
	for i := int64(0); i < 64; i++ {
		b = append(b, e.x.aggGet(a, off+i, types.Typ[types.Uint8]).(*T))
	}
	return
}

func (e *pkeEnv) enc(st *State, pk Ptr) (Res, []*State, []*T, *Agg) {
	x, c := e.x, e.x.C
	pt := x.byteVars("pt", 16)
	m, mo := x.bytesSlice(st, "pt", pt)
	_ = mo
	CT := x.P.Type("mkem", "ciphertext")
	w := e.words(st, pk)
	n, _ := st.G("ngen").(int)
	sn := snap(st)
	var sts []*State
	var res *Agg
	for _, q := range e.call(st, "PKE.Enc", e.pke, pk, m.p) {
		if q.kind != "ret" {
			return refuted("panics: %s", q.msg), nil, nil, nil
		}
		if k, _ := q.st.G("ngen").(int); k != n+1 {
			return refuted("%d ephemeral keys are drawn", k-n), nil, nil, nil
		}
		if m := sn.frame(q.st, e.own...); m != "" {
			return refuted("frame: %s", m), nil, nil, nil
		}
		a, okA := q.v.(*Agg)
		if !okA || a.size != x.sizeof(CT) {
			return undecided("ciphertext %T", q.v), nil, nil, nil
		}
		sk := e.eph(n)
		if z := eqAll(c, e.r.Seed, "ephemeral public key byte", e.ctField(a, CT, "U"), wordsLE(c, csidhPub(c, sk))); z != nil {
			return *z, nil, nil, nil
		}
		want := append(e.masked(csidhSecret(c, sk, w), pt), x.constBytes(make([]byte, 48))...)
		if z := eqAll(c, e.r.Seed, "masked message byte", e.ctField(a, CT, "V"), want); z != nil {
			return *z, nil, nil, nil
		}
		sts, res = append(sts, q.st), a
	}
	if len(sts) != 1 {
		return undecided("%d outcomes", len(sts)), nil, nil, nil
	}
	return ok(), sts, pt, res
}

func (e *pkeEnv) dec(st *State, sk Ptr, ct *Agg, wantPt []*T) Res {
	x, c := e.x, e.x.C
	CT := x.P.Type("mkem", "ciphertext")
	o := x.NewTyped(st, "ct", CT)
	if ct != nil {
		x.storeAt(st, o, 0, x.sizeof(CT), ct)
	} else {
		x.havocAt(st, o, 0, CT, "ct")
		ct = x.load(st, Ptr{o, c.I(0)}, CT).(*Agg)
	}
	e8 := x.readBytes(st, Ptr{sk.obj, c.I(e.eOff)}, csidhKeyBytes)
	U := e.ctField(ct, CT, "U")
	var w []*T
	for i := 0; i < 8; i++ {
		var p []*T
		for k := 7; k >= 0; k-- {
			p = append(p, U[8*i+k])
		}
		w = append(w, c.Concat(p...))
	}
	sn := snap(st)
	for _, q := range e.call(st, "PKE.Dec", e.pke, sk, Ptr{o, c.I(0)}) {
		if q.kind != "ret" {
			return refuted("panics: %s", q.msg)
		}
		if m := sn.frame(q.st, e.own...); m != "" {
			return refuted("frame: %s", m)
		}
		a, okA := q.v.(*Agg)
		if !okA || a.size != 16 {
			return undecided("message %T", q.v)
		}
		var got []*T
		for i := int64(0); i < 16; i++ {
			got = append(got, x.aggGet(a, i, types.Typ[types.Uint8]).(*T))
		}
		if z := eqAll(c, e.r.Seed, "decrypted byte", got, e.masked(csidhSecret(c, e8, w), e.ctField(ct, CT, "V")[:16])); z != nil {
			return *z
		}
		if wantPt != nil {
			if z := eqAll(c, e.r.Seed, "message byte", got, wantPt); z != nil {
				return *z
			}
		}
	}
	return ok()
}

// multi: n recipients; symbolic n: by induction.
func (e *pkeEnv) multi(st *State, N *T) (Res, []*State, []*T) {
	x, c := e.x, e.x.C
	pt := x.byteVars("pt", 16)
	m, _ := x.bytesSlice(st, "pt", pt)
	ctsOff, ctsT := x.fieldLike(e.T, "Cts", func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok })
	es, _ := byteArr(ctsT.Underlying().(*types.Slice).Elem())
	cts, okS := x.load(st, Ptr{e.pke.obj, c.I(ctsOff)}, ctsT).(Slice)
	if !okS || cts.len != N {
		return refuted("Allocate does not provide one ciphertext per recipient"), nil, nil
	}
	ct0 := x.fieldOff(e.T, "Ct0")
	ps := x.sizeof(e.PT)
	kw := func(idx *T) (w []*T) {
		for i := 0; i < 8; i++ {
			w = append(w, c.UF(64, fmt.Sprintf("key.%d", i), idx))
		}
		return
	}
	var list Slice = x.nilSlice()
	var cut *recipCut
	n, _ := st.G("ngen").(int)
	sk := e.eph(n)
	wantCt := func(idx *T) []*T { return e.masked(csidhSecret(c, sk, kw(idx)), pt) }
	if N.isC() {
		if N.k > 0 {
			o := x.NewArr(st, "keys", e.PT, int64(N.k))
			for i := int64(0); i < int64(N.k); i++ {
				x.havocAt(st, o, i*ps, e.PT, fmt.Sprintf("key%d", i))
				for j, t := range kw(c.I(i)) {
					x.storeAt(st, o, i*ps+e.aOff+int64(8*j), 8, t)
				}
			}
			list = Slice{Ptr{o, c.I(0)}, N, N}
		}
	} else {
		o := x.NewObj(st, "keys", -1)
		o.lenT = c.Mul(N, c.I(ps))
		o.init = func(x *Exec, st *State, off *T, sz int64, t types.Type) Value {
			idx := c.I(0)
			if d := cut.done(st); d != nil {
				idx = d
			}
			d, okD := x.cdiff(off, c.Mul(idx, c.I(ps)))
			if !okD || d < 0 || d+sz > ps {
				unsup("key at offset %v read while handling recipient %v", off, idx)
			}
			st2 := &State{}
			tmp := x.NewObj(st2, "key", ps)
			x.havocAt(st2, tmp, 0, e.PT, "keygeneric")
			for j, t := range kw(idx) {
				x.storeAt(st2, tmp, e.aOff+int64(8*j), 8, t)
			}
			return x.load(st2, Ptr{tmp, c.I(d)}, t)
		}
		list = Slice{Ptr{o, c.I(0)}, N, N}
		old := c.nextID()
		cts.p.obj.init = func(x *Exec, st *State, off *T, sz int64, t types.Type) Value {
			if sz != 1 {
				unsup("ciphertext list read as %v", t)
			}
			if j := cut.done(st); j != nil && !x.leq(st, c.Mul(j, c.I(es)), off) {
				unsup("reads a ciphertext already written")
			}
			return c.UF(8, fmt.Sprintf("old.cts%d", old), off)
		}
		cut = &recipCut{x: x, n: N, out: cts.p.obj, es: es}
		cut.check = func(st *State, idx *T, w SymWrite) *Res {
			lo, okO := x.cdiff(w.off, c.Mul(idx, c.I(es)))
			if !okO || lo != 0 || len(w.bytes) != 16 {
				z := refuted("%d bytes written at offset %d, want 16 at 0", len(w.bytes), lo)
				return &z
			}
			return eqAll(c, e.r.Seed, "ciphertext byte", w.bytes, wantCt(idx))
		}
		x.cutAll = cut
	}
	sn := snap(st)
	outs, err := x.Call(st, x.P.MustFn("mkem", "MultiPKE.Encrypt"), e.pke, list, m.p)
	if cut != nil {
		if cut.fail != nil {
			return *cut.fail, nil, nil
		}
		if err != nil || cut.strct != "" {
			return Res{OK: true, Bounded: fmt.Sprintf("induction over the recipients not established for this form of the code (%v %s): only the enumerated numbers of recipients are decided", err, cut.strct)}, nil, nil
		}
	} else if err != nil {
		return undecided("%v", err), nil, nil
	}
	var good []*State
	for _, q := range outs {
		if q.kind != "ret" {
			return refuted("panics: %s", q.msg), nil, nil
		}
		if k, _ := q.st.G("ngen").(int); k != n+1 {
			return refuted("%d ephemeral keys are drawn", k-n), nil, nil
		}
		if m := sn.frame(q.st, e.own...); m != "" {
			return refuted("frame: %s", m), nil, nil
		}
		if sl, ok := x.load(q.st, Ptr{e.pke.obj, c.I(ctsOff)}, ctsT).(Slice); !ok || !sameVal(sl, cts) {
			return refuted("the ciphertext list is replaced"), nil, nil
		}
		if z := eqAll(c, e.r.Seed, "ephemeral public key byte", x.readBytes(q.st, Ptr{e.pke.obj, c.I(ct0)}, 64), wordsLE(c, csidhPub(c, sk))); z != nil {
			return *z, nil, nil
		}
		if N.isC() {
			for i := int64(0); i < int64(N.k); i++ {
				at := int64(cts.p.off.k) + i*es
				if z := eqAll(c, e.r.Seed, fmt.Sprintf("ciphertext %d of %d, byte", i, N.k), x.readBytes(q.st, Ptr{cts.p.obj, c.I(at)}, 16), wantCt(c.I(i))); z != nil {
					return *z, nil, nil
				}
			}
		} else {
			j := c.I(0)
			if d := cut.done(q.st); d != nil {
				j = d
			}
			if !x.Prove(q.st, c.Eq(j, N)) {
				return refuted("stops after %v of %v recipients", j, N), nil, nil
			}
			if len(q.st.os(cts.p.obj).wr) > 0 {
				return refuted("writes ciphertexts after the loop"), nil, nil
			}
		}
		good = append(good, q.st)
	}
	if !N.isC() {
		if len(good) < 2 || cut.steps == 0 {
			return Res{OK: true, Bounded: "the loop over the recipients was not recognised; only the enumerated numbers of recipients are decided"}, nil, nil
		}
		return okd("by induction over the recipients: %d iterations from the invariant, %d final paths", cut.steps, len(good)), good, pt
	}
	return ok(), good, pt
}

func propC20(r *Report) {
	r.Under = []string{"kem/mkem.(*PKE).Allocate", "kem/mkem.(*PKE).Enc", "kem/mkem.(*PKE).Dec", "kem/mkem.(*MultiPKE).Allocate", "kem/mkem.(*MultiPKE).Encrypt", "dh/csidh.(*PublicKey).Import", "dh/csidh.(*PublicKey).Export"}
	r.Trusted = append(r.Trusted, "contracts of SHAKE128 (C02-C04) and of csidh GeneratePrivateKey, GeneratePublicKey, DeriveSecret as functions of their inputs", "both parties of a CSIDH agreement derive the same secret (C22, not decided): used only for 'decryption yields the message'", "the random source does not fail", "at most 2^32 recipients")
	r.Replay = &ReplaySpec{Files: map[string]string{"kem/mkem/zz_verif_test.go": "pke_test.go"}, Pkg: []string{"mkem"}, Run: "TestVerifPKE"}
	be := "symbolic execution over the hash and CSIDH contracts + normal form"
	ob := func(name string, multi bool, n int64, f func(e *pkeEnv, st *State, N *T) Res) {
		r.Ob(name, be, func() Res {
			x := newX("amd64")
			defer x.Close()
			defer r.Merge(x)
			N := x.C.I(n)
			if n < 0 {
				N = x.C.IdxVar("recipients", 0, 1<<32)
			}
			e, st := pkeNew(r, x, multi, N)
			return f(e, st, N)
		})
	}
	// earlier operations through the embedded single-recipient object
	hist := func(e *pkeEnv, st *State, multi bool) *State {
		sk, _ := e.prv(st, "hsk")
		o := e.x.NewTyped(st, "hct", e.x.P.Type("mkem", "ciphertext"))
		e.x.havocAt(st, o, 0, e.x.P.Type("mkem", "ciphertext"), "hct")
		m, _ := e.x.bytesSlice(st, "hpt", e.x.byteVars("hpt", 16))
		st = oneRet(e.call(st, "PKE.Enc", e.pke, e.pub(st, "hpk", nil), m.p), nil).st
		st = oneRet(e.call(st, "PKE.Dec", e.pke, sk, Ptr{o, e.x.C.I(0)}), nil).st
		if multi {
			k := e.x.NewArr(st, "hkeys", e.PT, 1)
			e.x.havocAt(st, k, 0, e.PT, "hkey")
			one := e.x.C.I(1)
			st = oneRet(e.call(st, "MultiPKE.Encrypt", e.pke, Slice{Ptr{k, e.x.C.I(0)}, one, one}, m.p), nil).st
		}
		return st
	}
	for _, after := range []bool{false, true} {
		after := after
		h := "any object state"
		if after {
			h = "after an encryption and a decryption"
		}
		prep := func(e *pkeEnv, st *State, multi bool) *State {
			if after {
				st = hist(e, st, multi)
			}
			return st
		}
		ob("Enc, "+h+": U is the ephemeral public key, V the message masked with SHAKE128 of the shared secret, zero padded", false, 0, func(e *pkeEnv, st *State, _ *T) Res {
			st = prep(e, st, false)
			z, _, _, _ := e.enc(st, e.pub(st, "pk", nil))
			return z
		})
		ob("Dec, "+h+": removes the mask derived from the own key and U, for every ciphertext", false, 0, func(e *pkeEnv, st *State, _ *T) Res {
			st = prep(e, st, false)
			sk, _ := e.prv(st, "sk")
			return e.dec(st, sk, nil, nil)
		})
		ob("Dec of Enc, "+h+": the encrypted message", false, 0, func(e *pkeEnv, st *State, _ *T) Res {
			st = prep(e, st, false)
			sk, e8 := e.prv(st, "sk")
			z, sts, pt, ct := e.enc(st, e.pub(st, "pk", e8))
			if !z.OK {
				return z
			}
			return e.dec(sts[0], sk, ct, pt)
		})
		for n := int64(0); n <= 3; n++ {
			if after && n == 0 {
				continue
			}
			ob(fmt.Sprintf("Encrypt, %s, %d recipients: Ct0 is the ephemeral public key, Cts[i] the message masked for recipient i", h, n), true, n, func(e *pkeEnv, st *State, N *T) Res {
				st = prep(e, st, true)
				z, _, _ := e.multi(st, N)
				return z
			})
		}
	}
	ob("Encrypt, any object state, any number of recipients: one ephemeral key, Ct0 its public key, Cts[i] the message masked for recipient i", true, -1, func(e *pkeEnv, st *State, N *T) Res {
		z, _, _ := e.multi(st, N)
		return z
	})
	ob("Dec of a multi-recipient ciphertext with the recipient's key, on another object: the encrypted message", false, 0, func(e *pkeEnv, st *State, _ *T) Res {
		// by the specification of Cts[i], for any recipient
		x, c := e.x, e.x.C
		sk, e8 := e.prv(st, "sk")
		CT := x.P.Type("mkem", "ciphertext")
		o := x.NewTyped(st, "spec", CT)
		x.havocAt(st, o, 0, CT, "rest")
		a := e.eph(77)
		pt := x.byteVars("pt", 16)
		x.writeBytes(st, Ptr{o, c.I(x.fieldOff(CT, "U"))}, wordsLE(c, csidhPub(c, a)))
		x.writeBytes(st, Ptr{o, c.I(x.fieldOff(CT, "V"))}, e.masked(csidhSecret(c, a, csidhPub(c, e8)), pt))
		return e.dec(st, sk, x.load(st, Ptr{o, c.I(0)}, CT).(*Agg), pt)
	})
	known := false
	ob("a refused public key does not yield a ciphertext or a message [recorded finding when it does]", true, 2, func(e *pkeEnv, st *State, N *T) Res {
		x := e.x
		e.refuse = true
		m, _ := x.bytesSlice(st, "pt", x.byteVars("pt", 16))
		sk, _ := e.prv(st, "sk")
		o := x.NewTyped(st, "hct", x.P.Type("mkem", "ciphertext"))
		x.havocAt(st, o, 0, x.P.Type("mkem", "ciphertext"), "hct")
		k := x.NewArr(st, "keys", e.PT, 2)
		for i := int64(0); i < 2; i++ {
			x.havocAt(st, k, i*x.sizeof(e.PT), e.PT, fmt.Sprintf("key%d", i))
		}
		two := x.C.I(2)
		for _, run := range []func(st *State) []*Outcome{
			func(st *State) []*Outcome { return e.call(st, "PKE.Enc", e.pke, e.pub(st, "pk", nil), m.p) },
			func(st *State) []*Outcome { return e.call(st, "PKE.Dec", e.pke, sk, Ptr{o, x.C.I(0)}) },
			func(st *State) []*Outcome {
				return e.call(st, "MultiPKE.Encrypt", e.pke, Slice{Ptr{k, x.C.I(0)}, two, two}, m.p)
			},
		} {
			for _, q := range run(st.Clone()) {
				if q.kind != "ret" || q.st.G("refused") == nil {
					continue
				}
				if f, okF := lastIface(q.v); okF {
					if n, _ := errNil(f); !n {
						continue
					}
				}
				known = true
			}
		}
		if known {
			return okd("finding")
		}
		return ok()
	})
	if known {
		r.Known = append(r.Known, "key=csidh-pke-ignores-derive-failure PKE.Enc, PKE.Dec and MultiPKE.Encrypt go on with an unset shared secret when DeriveSecret refuses the public key")
	}
}

// lastIface: the error result, if there is one.
func lastIface(v Value) (Value, bool) {
	switch t := v.(type) {
	case Iface:
		return t, true
	case Tuple:
		if len(t) > 0 {
			f, ok := t[len(t)-1].(Iface)
			return f, ok
		}
	}
	return nil, false
}
