package main

// C18: the SIKE KEM over the contracts of SHAKE256 (C02-C04), the key encodings (C17) and the SIDH
// key operations (C16).

import (
	"fmt"
	"go/types"
)

func init() { props["C18"] = propC18 }

type sikeEnv struct {
	r   *Report
	x   *Exec
	F   sidhPar
	pkg string
	g   *rngModel
	T   types.Type
	kem Ptr
	own []*Obj // objects the KEM owns
}

func (e *sikeEnv) pkLen() int { return 6 * e.F.bl }
func (e *sikeEnv) ctLen() int { return 6*e.F.bl + e.F.msg }

// sikeNew makes a KEM by its constructor, then gives it an arbitrary history.
func sikeNew(r *Report, x *Exec, pkg string, F sidhPar, fails bool) (*sikeEnv, *State) {
	shakeContracts(x)
	sidhOps(x)
	cmpContracts(x)
	e := &sikeEnv{r: r, x: x, F: F, pkg: pkg, g: x.newRng("rng", fails)}
	e.T = x.P.Type(pkg, "KEM")
	q := oneRet(x.Call(x.NewState(), x.P.MustFn(pkg, "NewSike"+F.name[1:]), e.g.iface()))
	e.kem = q.v.(Ptr)
	if e.kem.obj == nil || !e.kem.off.isCV(0) {
		unsup("constructor result")
	}
	e.own = []*Obj{e.kem.obj}
	e.havoc(q.st)
	return e, q.st
}

// havoc: the buffers hold anything and the hash object has any history.
func (e *sikeEnv) havoc(st *State) {
	e.own = append(e.own, e.x.havocFields(st, e.kem.obj, int64(e.kem.off.k), e.T)...)
	e.x.shakeForget(st)
}

// havocFields gives the buffers (arrays and slices of numbers) of a struct any contents and returns
// the objects it refers to.
func (x *Exec) havocFields(st *State, o *Obj, at int64, T types.Type) (own []*Obj) {
	u := T.Underlying().(*types.Struct)
	offs := x.fieldOffs(u)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if _, ok := f.Type().Underlying().(*types.Struct); ok {
			own = append(own, x.havocFields(st, o, at+offs[i], f.Type())...)
			continue
		}
		switch v := x.load(st, Ptr{o, x.C.I(at + offs[i])}, f.Type()).(type) {
		case Slice:
			if v.p.obj == nil {
				continue
			}
			own = append(own, v.p.obj)
			et := f.Type().Underlying().(*types.Slice).Elem()
			if v.len.isC() && v.p.off.isC() && v.p.obj.size >= 0 {
				n := x.sizeof(et)
				for k := int64(0); k < int64(v.len.k); k++ {
					x.havocAt(st, v.p.obj, int64(v.p.off.k)+k*n, et, fmt.Sprintf("old%d.%s%d", x.C.nextID(), f.Name(), k))
				}
			}
		case Iface:
			if p, ok := v.v.(Ptr); ok && p.obj != nil {
				own = append(own, p.obj)
			}
		case *Agg:
			x.havocAt(st, o, at+offs[i], f.Type(), fmt.Sprintf("old%d.%s", x.C.nextID(), f.Name()))
		}
	}
	return own
}

func (e *sikeEnv) pub(st *State, name string) (*State, *sidhKey) {
	return sidhNewKey(e.x, st, e.F, "PublicKey", kvSike, "New", name)
}
func (e *sikeEnv) prv(st *State, name string) (*State, *sidhKey) {
	return sidhNewKey(e.x, st, e.F, "PrivateKey", kvSike, "New", name)
}

// setPub makes k the public key that belongs to prv.
func (e *sikeEnv) setPub(st *State, k, prv *sidhKey) {
	w := sidhPub(e.x.C, e.F, 'B', prv.bytesOf(st, prv.sc))
	for i := range w {
		for h := 0; h < 2; h++ {
			for j := 0; j < e.F.n; j++ {
				e.x.storeAt(st, k.o, k.at+int64(192*i+96*h+8*j), 8, w[i][h*e.F.n+j])
			}
		}
	}
}

func (e *sikeEnv) canon(st *State, k *sidhKey) (w [3][]*T, enc []*T) {
	for i := range w {
		m, _ := k.elem(st, i)
		w[i] = montUF(e.x, e.F, "FromMontgomery", m)
		enc = append(enc, leBytes(e.x.C, e.F, w[i])...)
	}
	return
}

func (e *sikeEnv) decode(b []*T) (w [3][]*T) {
	for i := range w {
		w[i] = leWords(e.x.C, e.F, b[2*i*e.F.bl:2*(i+1)*e.F.bl])
	}
	return
}

func (e *sikeEnv) encode(w [3][]*T) (b []*T) {
	for i := range w {
		b = append(b, leBytes(e.x.C, e.F, montUF(e.x, e.F, "FromMontgomery", w[i]))...)
	}
	return
}

func cat(a ...[]*T) (r []*T) {
	for _, b := range a {
		r = append(r, b...)
	}
	return
}

// reenc: the ephemeral scalar, its public key's encoding.
func (e *sikeEnv) ephemeral(seed []*T) (r, c0 []*T) {
	c := e.x.C
	r = sidhScalar(c, e.F, 'A', xof(c, "shake256", seed, 0, (e.F.aBits+7)/8))
	return r, e.encode(sidhPub(c, e.F, 'A', r))
}

func (e *sikeEnv) encapsSpec(m []*T, canon [3][]*T, pk []*T) (ct, K []*T) {
	c := e.x.C
	r, c0 := e.ephemeral(cat(m, pk))
	j := sidhSecret(e.x, e.F, 'A', r, canon)
	c1 := xorB(c, xof(c, "shake256", j, 0, e.F.msg), m)
	ct = cat(c0, c1)
	return ct, xof(c, "shake256", cat(m, ct), 0, e.F.msg)
}

func (e *sikeEnv) fn(n string) Value { return nil }

func (e *sikeEnv) call(st *State, fn string, a ...Value) []*Outcome {
	outs, err := e.x.Call(st, e.x.P.MustFn(e.pkg, fn), a...)
	if err != nil {
		unsup("%v", err)
	}
	return outs
}

// checkEncaps runs Encapsulate from st and compares with the specification.
func (e *sikeEnv) checkEncaps(st *State, pub *sidhKey, extra int64) (Res, []*State, Slice, Slice) {
	x, c := e.x, e.x.C
	ct := x.bufLen(st, "ct", int64(e.ctLen())+extra, int64(e.ctLen())+extra)
	ss := x.bufLen(st, "ss", int64(e.F.msg)+extra, int64(e.F.msg)+extra)
	sn := snap(st)
	p0 := e.g.pos(st)
	canon, pk := e.canon(st, pub)
	var good []*State
	for _, q := range e.call(st, "KEM.Encapsulate", e.kem, ct, ss, pub.ptr()) {
		if q.kind != "ret" {
			return refuted("panics: %s", q.msg), nil, ct, ss
		}
		isNil, okE := errNil(q.v)
		if !okE || isNil == e.g.failed(q.st) {
			return refuted("error returned: %v; random source failed: %v", !isNil, e.g.failed(q.st)), nil, ct, ss
		}
		if !isNil {
			if m := sn.frame(q.st, e.own...); m != "" {
				return refuted("the random source failed, but writes: %s", m), nil, ct, ss
			}
			continue
		}
		if m := sn.frame(q.st, append([]*Obj{ct.p.obj, ss.p.obj}, e.own...)...); m != "" {
			return refuted("frame: %s", m), nil, ct, ss
		}
		if !sn.same(q.st, ct.p.obj, int64(e.ctLen()), int64(e.ctLen())+extra) || !sn.same(q.st, ss.p.obj, int64(e.F.msg), int64(e.F.msg)+extra) {
			return refuted("writes beyond the ciphertext or the secret"), nil, ct, ss
		}
		var m []*T
		for i := 0; i < e.F.msg; i++ {
			m = append(m, e.g.byteAt(q.st, p0+i))
		}
		wct, wss := e.encapsSpec(m, canon, pk)
		if z := eqAll(c, e.r.Seed, "ciphertext byte", x.readBytes(q.st, ct.p, int64(e.ctLen())), wct); z != nil {
			return *z, nil, ct, ss
		}
		if z := eqAll(c, e.r.Seed, "secret byte", x.readBytes(q.st, ss.p, int64(e.F.msg)), wss); z != nil {
			return *z, nil, ct, ss
		}
		good = append(good, q.st)
	}
	if len(good) == 0 {
		return refuted("never succeeds"), nil, ct, ss
	}
	return ok(), good, ct, ss
}

// cmpHolds interprets the recorded comparisons: they must together compare exactly want with got.
func cmpHolds(c *Ctx, seed int64, recs []cmpRec, pairs ...[2][]*T) (eq bool, z *Res) {
	eq = true
	var missing []string
	for k, p := range pairs {
		found := false
		trivial := true
		for i := range p[0] {
			trivial = trivial && p[0][i] == p[1][i]
		}
		for _, r := range recs {
			for _, o := range [][2][]*T{{r.a, r.b}, {r.b, r.a}} {
				if len(o[0]) == len(p[0]) && eqAll(c, seed, "", o[0], p[0]) == nil && eqAll(c, seed, "", o[1], p[1]) == nil {
					found = true
				}
			}
		}
		if !found && !trivial {
			missing = append(missing, fmt.Sprint(k))
		}
	}
	for _, r := range recs {
		eq = eq && r.eq
		known := false
		for _, p := range pairs {
			for _, o := range [][2][]*T{{r.a, r.b}, {r.b, r.a}} {
				known = known || len(o[0]) == len(p[0]) && eqAll(c, seed, "", o[0], p[0]) == nil && eqAll(c, seed, "", o[1], p[1]) == nil
			}
		}
		if !known {
			q := refuted("a comparison of %d bytes is not one of the specification's", len(r.a))
			return false, &q
		}
	}
	if eq && len(missing) > 0 {
		q := refuted("accepts without comparing the re-encrypted ciphertext (part %v)", missing)
		return false, &q
	}
	return eq, nil
}

func (e *sikeEnv) checkDecaps(st *State, prv, pub *sidhKey, ct Slice, extra int64, wantK []*T) Res {
	x, c := e.x, e.x.C
	ss := x.bufLen(st, "ss2", int64(e.F.msg)+extra, int64(e.F.msg)+extra)
	sn := snap(st)
	st.SetG("cmps", nil)
	ctb := x.readBytes(st, ct.p, int64(e.ctLen()))
	_, pk := e.canon(st, pub)
	S, sk := prv.bytesOf(st, prv.sv), prv.bytesOf(st, prv.sc)
	c0, c1 := ctb[:e.pkLen()], ctb[e.pkLen():]
	j := sidhSecret(x, e.F, 'B', sk, e.decode(c0))
	m := xorB(c, xof(c, "shake256", j, 0, len(c1)), c1)
	_, c0x := e.ephemeral(cat(m, pk))
	n := 0
	for _, q := range e.call(st, "KEM.Decapsulate", e.kem, ss, prv.ptr(), pub.ptr(), ct) {
		if q.kind != "ret" {
			return refuted("panics: %s", q.msg)
		}
		if isNil, okE := errNil(q.v); !okE || !isNil {
			return refuted("an error is returned")
		}
		if m := sn.frame(q.st, append([]*Obj{ss.p.obj}, e.own...)...); m != "" {
			return refuted("frame: %s", m)
		}
		if !sn.same(q.st, ss.p.obj, int64(e.F.msg), int64(e.F.msg)+extra) {
			return refuted("writes beyond the secret")
		}
		recs, _ := q.st.G("cmps").([]cmpRec)
		eq, z := cmpHolds(c, e.r.Seed, recs, [2][]*T{c0x, c0})
		if z != nil {
			return *z
		}
		key := S
		if eq {
			key = m
			n++
		}
		got := x.readBytes(q.st, ss.p, int64(e.F.msg))
		if z := eqAll(c, e.r.Seed, fmt.Sprintf("secret byte (re-encryption equal: %v)", eq), got, xof(c, "shake256", cat(key, ctb), 0, e.F.msg)); z != nil {
			return *z
		}
		if wantK != nil {
			if z := eqAll(c, e.r.Seed, "decapsulated secret byte", got, wantK); z != nil {
				return *z
			}
		}
	}
	if n == 0 {
		return refuted("never accepts")
	}
	return ok()
}

func propC18(r *Report) {
	r.Under = []string{"dh/sidh.(*KEM).Encapsulate", "dh/sidh.(*KEM).Decapsulate", "dh/sidh.(*KEM).Allocate", "dh/sidh.(*KEM).Reset", "dh/sidh.(*KEM).generateCiphertext", "dh/sidh.(*KEM).decrypt", "dh/sidh.NewSike434", "dh/sidh.NewSike503", "dh/sidh.NewSike751", "dh/sidh/common.Cpick", "the same functions of kem/mkem"}
	r.Trusted = append(r.Trusted, "contracts of SHAKE256 (C02-C04), of the Montgomery conversions (C14) and of PublicKeyGen/DeriveSecret (C16) as functions of their inputs", "both parties of a key agreement derive the same secret (C21, not decided): used only for 'decapsulation yields the same secret'", "io.ReadFull; subtle.ConstantTimeCompare answers 1 exactly for equal strings", "honest public keys are canonical (components below p)")
	r.Replay = &ReplaySpec{Files: map[string]string{"dh/sidh/zz_verif_test.go": "sidhkeys_test.go", "dh/sidh/zz_verif2_test.go": "sike_test.go"}, Pkg: []string{"./dh/sidh"}, Run: "TestVerifSike"}
	be := "symbolic execution over the hash, key and encoding contracts + normal form"
	var jobs []func()
	for _, pkg := range []string{"dh/sidh", "mkem"} {
		pkg := pkg
		for _, F := range sidhPars {
			F := F
			ob := func(name string, fails bool, f func(e *sikeEnv, st *State) Res) {
				jobs = append(jobs, func() {
					r.Ob(fmt.Sprintf("%s KEM %s: %s", pkg, F.name, name), be, func() Res {
						x := newX("amd64")
						defer x.Close()
						defer r.Merge(x)
						e, st := sikeNew(r, x, pkg, F, fails)
						return f(e, st)
					})
				})
			}
			// earlier operations on the same object
			hist := map[string]func(e *sikeEnv, st *State) *State{
				"any buffer and hash contents": func(e *sikeEnv, st *State) *State { return st },
				"after an encapsulation and a decapsulation with other keys, and Reset": func(e *sikeEnv, st *State) *State {
					st, k := e.pub(st, "hpub")
					st, s := e.prv(st, "hprv")
					x := e.x
					ct := x.bufLen(st, "hct", int64(e.ctLen()), int64(e.ctLen()))
					ss := x.bufLen(st, "hss", int64(e.F.msg), int64(e.F.msg))
					pick := func(outs []*Outcome) *State {
						for _, q := range outs {
							if q.kind == "ret" && !e.g.failed(q.st) {
								return q.st
							}
						}
						unsup("earlier operation fails")
						return nil
					}
					st = pick(e.call(st, "KEM.Encapsulate", e.kem, ct, ss, k.ptr()))
					st = pick(e.call(st, "KEM.Decapsulate", e.kem, ss, s.ptr(), k.ptr(), x.bufLen(st, "hct2", int64(e.ctLen()), int64(e.ctLen()))))
					return pick(e.call(st, "KEM.Reset", e.kem))
				},
			}
			for hn, h := range hist {
				h := h
				for _, extra := range []int64{0, 11} {
					extra := extra
					if extra > 0 && hn != "any buffer and hash contents" {
						continue
					}
					ob(fmt.Sprintf("Encapsulate, %s, buffers longer by %d: ciphertext and secret are the specification's for the message drawn; a failing source is an error before any output", hn, extra), true, func(e *sikeEnv, st *State) Res {
						st = h(e, st)
						st, pub := e.pub(st, "pub")
						z, _, _, _ := e.checkEncaps(st, pub, extra)
						return z
					})
					ob(fmt.Sprintf("Decapsulate, %s, secret buffer longer by %d: for every ciphertext of the right length the secret is H(m'||ct) if re-encryption reproduces c0, else H(S||ct); no error", hn, extra), false, func(e *sikeEnv, st *State) Res {
						st = h(e, st)
						st, pub := e.pub(st, "pub")
						st, prv := e.prv(st, "prv")
						ct := e.x.bufLen(st, "ct", int64(e.ctLen()), int64(e.ctLen()))
						return e.checkDecaps(st, prv, pub, ct, extra, nil)
					})
				}
			}
			ob("decapsulation of an encapsulated ciphertext yields the encapsulated secret, on the same and on another object", false, func(e *sikeEnv, st *State) Res {
				st, pub := e.pub(st, "pub")
				st, prv := e.prv(st, "prv")
				e.setPub(st, pub, prv)
				z, good, ct, ss := e.checkEncaps(st, pub, 0)
				if !z.OK {
					return z
				}
				for _, s := range good {
					K := e.x.readBytes(s, ss.p, int64(e.F.msg))
					t := s.Clone()
					if z := e.checkDecaps(s, prv, pub, ct, 0, K); !z.OK {
						return z
					}
					e.havoc(t)
					if z := e.checkDecaps(t, prv, pub, ct, 0, K); !z.OK {
						return z
					}
				}
				return ok()
			})
			ob("sizes: CiphertextSize, SharedSecretSize", false, func(e *sikeEnv, st *State) Res {
				for fn, n := range map[string]int{"KEM.CiphertextSize": e.ctLen(), "KEM.SharedSecretSize": e.F.msg} {
					for _, q := range e.call(st, fn, e.kem) {
						if t, okT := q.v.(*T); !okT || !t.isCV(uint64(n)) {
							return refuted("%s() is %v, want %d", fn, q.v, n)
						}
					}
				}
				return ok()
			})
			type refusal struct {
				name string
				enc  bool
				f    func(e *sikeEnv, st *State, pub, prv *sidhKey, ct, ss *Slice) *State
			}
			variant := func(e *sikeEnv, st *State, k *sidhKey, v uint64) {
				e.x.storeAt(st, k.o, e.x.fieldOff(k.T, "KeyVariant"), 8, e.x.C.Const(64, v))
			}
			var rs []refusal
			for _, enc := range []bool{true, false} {
				enc := enc
				for _, v := range []uint64{kvA, kvB, 0, 7} {
					v := v
					rs = append(rs, refusal{fmt.Sprintf("public key of variant %d", v), enc, func(e *sikeEnv, st *State, pub, prv *sidhKey, ct, ss *Slice) *State {
						variant(e, st, pub, v)
						return st
					}})
					if !enc {
						rs = append(rs, refusal{fmt.Sprintf("private key of variant %d", v), enc, func(e *sikeEnv, st *State, pub, prv *sidhKey, ct, ss *Slice) *State {
							variant(e, st, prv, v)
							return st
						}})
					}
				}
				rs = append(rs, refusal{"secret buffer too short, any length", enc, func(e *sikeEnv, st *State, pub, prv *sidhKey, ct, ss *Slice) *State {
					*ss = e.x.bufLen(st, "ssshort", 0, int64(e.F.msg)-1)
					return st
				}}, refusal{"ciphertext too short, any length", enc, func(e *sikeEnv, st *State, pub, prv *sidhKey, ct, ss *Slice) *State {
					*ct = e.x.bufLen(st, "ctshort", 0, int64(e.ctLen())-1)
					return st
				}}, refusal{"object that was not allocated", enc, func(e *sikeEnv, st *State, pub, prv *sidhKey, ct, ss *Slice) *State {
					e.x.storeAt(st, e.kem.obj, e.x.fieldOff(e.T, "allocated"), 1, e.x.C.Bool(false))
					return st
				}})
				if !enc {
					rs = append(rs, refusal{"ciphertext too long, any length", enc, func(e *sikeEnv, st *State, pub, prv *sidhKey, ct, ss *Slice) *State {
						*ct = e.x.bufLen(st, "ctlong", int64(e.ctLen())+1, 1<<40)
						return st
					}})
				}
			}
			for _, rf := range rs {
				rf := rf
				op := "Decapsulate"
				if rf.enc {
					op = "Encapsulate"
				}
				ob(fmt.Sprintf("%s refuses (panic or error) before any output: %s", op, rf.name), false, func(e *sikeEnv, st *State) Res {
					st, pub := e.pub(st, "pub")
					st, prv := e.prv(st, "prv")
					x := e.x
					ct := x.bufLen(st, "ct", int64(e.ctLen()), int64(e.ctLen()))
					ss := x.bufLen(st, "ss", int64(e.F.msg), int64(e.F.msg))
					st = rf.f(e, st, pub, prv, &ct, &ss)
					sn := snap(st)
					var outs []*Outcome
					if rf.enc {
						outs = e.call(st, "KEM.Encapsulate", e.kem, ct, ss, pub.ptr())
					} else {
						outs = e.call(st, "KEM.Decapsulate", e.kem, ss, prv.ptr(), pub.ptr(), ct)
					}
					for _, q := range outs {
						if q.kind == "ret" {
							if n, okE := errNil(q.v); !okE || n {
								return refuted("accepted")
							}
						}
						if m := sn.frame(q.st, e.own...); m != "" {
							return refuted("refused, but writes: %s", m)
						}
					}
					return ok()
				})
			}
		}
	}
	Par(8, jobs...)
}
