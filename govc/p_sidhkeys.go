package main

// C17: SIDH key encodings and private key generation.

import (
	"fmt"
	"go/types"
)

func init() { props["C17"] = propC17 }

type sidhPar struct {
	id                       uint64
	name                     string
	bl, n                    int // bytes and words of a field element
	aBits, aLen, bBits, bLen int
	msg                      int
}

var sidhPars = []sidhPar{
	{2, "p434", 55, 7, 216, 27, 217, 28, 16},
	{0, "p503", 63, 8, 250, 32, 252, 32, 24},
	{1, "p751", 94, 12, 372, 47, 378, 48, 32},
}

const (
	kvA, kvB, kvSike = 1, 2, 6
)

var kvName = map[uint64]string{kvA: "SIDH-A", kvB: "SIDH-B", kvSike: "SIKE"}

// montUF: the conversions of C14 as functions of the words; out of Montgomery form inverts into
// Montgomery form on canonical values, and its result is below the prime.
func montContracts(x *Exec) {
	c := x.C
	for _, F := range sidhPars {
		F := F
		for _, nm := range []string{"ToMontgomery", "FromMontgomery"} {
			nm := nm
			x.H[x.P.MustFn("dh/sidh/internal/"+F.name, nm).String()] = func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
				d, s := a[0].(Ptr), a[1].(Ptr)
				var w []*T
				for h := 0; h < 2; h++ {
					for i := 0; i < F.n; i++ {
						w = append(w, x.load(st, Ptr{s.obj, c.Add(s.off, c.I(int64(96*h+8*i)))}, types.Typ[types.Uint64]).(*T))
					}
					for i := F.n; i < 12; i++ {
						if z := x.load(st, Ptr{s.obj, c.Add(s.off, c.I(int64(96*h+8*i)))}, types.Typ[types.Uint64]).(*T); !z.isCV(0) {
							unsup("%s of an element with non-zero padding", nm)
						}
					}
				}
				o := montUF(x, F, nm, w)
				for h := 0; h < 2; h++ {
					for i := 0; i < 12; i++ {
						t := c.I(0)
						if i < F.n {
							t = o[h*F.n+i]
						}
						x.store(st, Ptr{d.obj, c.Add(d.off, c.I(int64(96*h+8*i)))}, types.Typ[types.Uint64], t)
					}
				}
				return []Alt{{st: st}}
			}
		}
	}
}

func montUF(x *Exec, F sidhPar, nm string, w []*T) []*T {
	c := x.C
	if nm == "FromMontgomery" && len(w) > 0 && w[0].op == OUF && w[0].name == F.name+".ToMontgomery.0" {
		in := w[0].a
		ok := len(in) == 2*F.n
		for i, t := range w {
			ok = ok && t == c.UF(64, fmt.Sprintf("%s.ToMontgomery.%d", F.name, i), in...)
		}
		if ok {
			return in // canonical values only
		}
	}
	o := make([]*T, 2*F.n)
	for i := range o {
		if top := 8*F.bl - 64*(F.n-1); nm == "FromMontgomery" && i%F.n == F.n-1 && top < 64 {
			// below the prime, so below 2^(8*bytelen)
			o[i] = c.Zext(c.UF(uint8(top), fmt.Sprintf("%s.%s.%d", F.name, nm, i), w...), 64)
			continue
		}
		o[i] = c.UF(64, fmt.Sprintf("%s.%s.%d", F.name, nm, i), w...)
	}
	return o
}

// leWords decodes two little-endian components of bl bytes.
func leWords(c *Ctx, F sidhPar, b []*T) (w []*T) {
	for h := 0; h < 2; h++ {
		for i := 0; i < F.n; i++ {
			var p []*T
			for k := 7; k >= 0; k-- {
				t := c.Const(8, 0)
				if 8*i+k < F.bl {
					t = b[h*F.bl+8*i+k]
				}
				p = append(p, t)
			}
			w = append(w, c.Concat(p...))
		}
	}
	return w
}

func leBytes(c *Ctx, F sidhPar, w []*T) (b []*T) {
	for h := 0; h < 2; h++ {
		for i := 0; i < F.bl; i++ {
			b = append(b, c.Extract(w[h*F.n+i/8], uint8(8*(i%8)), 8))
		}
	}
	return b
}

type sidhKey struct {
	x      *Exec
	F      sidhPar
	o      *Obj
	kv     uint64
	T      types.Type
	at     int64 // affine3Pt
	sc, sv Slice
}

// sidhNew calls the package's constructor and fills the key with arbitrary content.
func sidhNewKey(x *Exec, st *State, F sidhPar, typ string, kv uint64, via, name string) (*State, *sidhKey) {
	c := x.C
	k := &sidhKey{x: x, F: F, kv: kv, T: x.P.Type("dh/sidh", typ)}
	var p Ptr
	if via == "New" {
		q := oneRet(x.Call(st, x.P.MustFn("dh/sidh", "New"+typ), c.Const(8, F.id), c.Const(64, kv)))
		st, p = q.st, q.v.(Ptr)
	} else {
		p = Ptr{x.NewTyped(st, name, k.T), c.I(0)}
		fn := x.P.Fn("dh/sidh", typ+".Init")
		if fn == nil {
			fn = x.P.MustFn("dh/sidh", "Key.Init") // promoted; Key is the first field
		}
		st = oneRet(x.Call(st, fn, p, c.Const(8, F.id), c.Const(64, kv))).st
	}
	if p.obj == nil || !p.off.isCV(0) {
		unsup("constructor result")
	}
	k.o = p.obj
	if typ == "PublicKey" {
		k.at = x.fieldOff(k.T, "affine3Pt")
		for i := int64(0); i < 6; i++ {
			for j := int64(0); j < 12; j++ {
				t := c.I(0)
				if int(j) < F.n {
					t = c.Var(64, fmt.Sprintf("%s.pt%d.%d.%d", name, i/2, i%2, j))
				}
				x.storeAt(st, k.o, k.at+96*i+8*j, 8, t)
			}
		}
		return st, k
	}
	sl := types.NewSlice(types.Typ[types.Uint8])
	k.sc = x.load(st, Ptr{k.o, c.I(x.fieldOff(k.T, "Scalar"))}, sl).(Slice)
	k.sv = x.load(st, Ptr{k.o, c.I(x.fieldOff(k.T, "S"))}, sl).(Slice)
	for nm, s := range map[string]Slice{"scalar": k.sc, "s": k.sv} {
		for i := int64(0); i < int64(s.len.k); i++ {
			x.store(st, Ptr{s.p.obj, c.Add(s.p.off, c.I(i))}, types.Typ[types.Uint8], c.Var(8, fmt.Sprintf("%s.%s%d", name, nm, i)))
		}
	}
	return st, k
}

func (k *sidhKey) ptr() Ptr { return Ptr{k.o, k.x.C.I(0)} }

// elem returns the words of coordinate i, and whether the padding is zero.
func (k *sidhKey) elem(st *State, i int) (w []*T, padOK bool) {
	padOK = true
	for h := int64(0); h < 2; h++ {
		for j := int64(0); j < 12; j++ {
			t := k.x.loadBits(st, k.o, k.at+192*int64(i)+96*h+8*j, 8)
			if int(j) < k.F.n {
				w = append(w, t)
			} else if !t.isCV(0) {
				padOK = false
			}
		}
	}
	return
}

func (k *sidhKey) bytesOf(st *State, s Slice) []*T {
	if s.len.isCV(0) {
		return nil
	}
	return k.x.readBytes(st, s.p, int64(s.len.k))
}

// sameHeader: everything of the key but the coordinates is unchanged.
func (k *sidhKey) sameHeader(sn snapshot, st *State) bool {
	n := k.x.sizeof(k.T)
	if k.T.(*types.Named).Obj().Name() == "PublicKey" {
		return sn.same(st, k.o, 0, k.at) && sn.same(st, k.o, k.at+3*192, n)
	}
	return sn.same(st, k.o, 0, n)
}

func propC17(r *Report) {
	r.Under = []string{"dh/sidh.(*PublicKey).Import", "dh/sidh.(*PublicKey).Export", "dh/sidh.(*PrivateKey).Import", "dh/sidh.(*PrivateKey).Export", "dh/sidh.NewPublicKey", "dh/sidh.NewPrivateKey", "dh/sidh.(*PrivateKey).Init", "dh/sidh.(*Key).Init", "dh/sidh.(*PrivateKey).Generate", "dh/sidh.GeneratePrivateKey", "dh/sidh/common.BytesToFp2", "dh/sidh/common.Fp2ToBytes"}
	r.Replay = &ReplaySpec{Files: map[string]string{"dh/sidh/zz_verif_test.go": "sidhkeys_test.go"}, Pkg: []string{"./dh/sidh"}, Run: "TestVerifKeys"}
	r.Trusted = append(r.Trusted, "contract of ToMontgomery/FromMontgomery (decided by C14): mutually inverse on canonical values, results of the latter below the prime", "io.ReadFull: fills the buffer and returns a nil error, or returns an error")
	be := "symbolic execution over the Montgomery-conversion contracts + normal form"
	var jobs []func()
	known := make(chan bool, 1000)
	ob := func(name string, f func(x *Exec) Res) {
		jobs = append(jobs, func() {
			r.Ob(name, be, func() Res {
				x := newX("amd64")
				defer x.Close()
				defer r.Merge(x)
				montContracts(x)
				return f(x)
			})
		})
	}
	for _, F := range sidhPars {
		F := F
		size := int64(6 * F.bl)
		for _, kv := range []uint64{kvA, kvB, kvSike} {
			kv := kv
			id := F.name + " " + kvName[kv]
			ob(fmt.Sprintf("%s public key: import of %d bytes stores the Montgomery form of the little-endian components P, Q, P-Q; nothing else changes", id, size), func(x *Exec) Res {
				c := x.C
				st, k := sidhNewKey(x, x.NewState(), F, "PublicKey", kv, "New", "pub")
				buf := x.bufLen(st, "buf", size, size)
				in := x.readBytes(st, buf.p, size)
				sn := snap(st)
				outs, msg := onlyRets(x.Call(st, x.P.MustFn("dh/sidh", "PublicKey.Import"), k.ptr(), buf))
				if msg != "" {
					return refuted("%s", msg)
				}
				for _, q := range outs {
					if n, okE := errNil(q.v); !okE || !n {
						return refuted("import of the right size fails")
					}
					if m := sn.frame(q.st, k.o); m != "" || !k.sameHeader(sn, q.st) {
						return refuted("frame: %s", m)
					}
					for i := 0; i < 3; i++ {
						w, pad := k.elem(q.st, i)
						if !pad {
							return refuted("padding words of coordinate %d not cleared", i)
						}
						if e := eqAll(c, r.Seed, fmt.Sprintf("coordinate %d word", i), w, montUF(x, F, "ToMontgomery", leWords(c, F, in[2*i*F.bl:2*(i+1)*F.bl]))); e != nil {
							return *e
						}
					}
				}
				return ok()
			})
			ob(id+" public key: export writes the little-endian canonical components of P, Q, P-Q, and nothing beyond", func(x *Exec) Res {
				c := x.C
				for _, extra := range []int64{0, 23} {
					st, k := sidhNewKey(x, x.NewState(), F, "PublicKey", kv, "New", "pub")
					buf := x.bufLen(st, "out", size+extra, size+extra)
					sn := snap(st)
					outs, msg := onlyRets(x.Call(st, x.P.MustFn("dh/sidh", "PublicKey.Export"), k.ptr(), buf))
					if msg != "" {
						return refuted("%s", msg)
					}
					for _, q := range outs {
						if m := sn.frame(q.st, buf.p.obj); m != "" {
							return refuted("frame: %s", m)
						}
						if !sn.same(q.st, buf.p.obj, size, size+extra) {
							return refuted("writes beyond the encoding")
						}
						var want []*T
						for i := 0; i < 3; i++ {
							w, _ := k.elem(st, i)
							want = append(want, leBytes(c, F, montUF(x, F, "FromMontgomery", w))...)
						}
						if e := eqAll(c, r.Seed, "byte", x.readBytes(q.st, buf.p, size), want); e != nil {
							return *e
						}
					}
				}
				return ok()
			})
			ob(id+" public key: import then export of a canonical encoding gives the same bytes; export then import gives an equivalent key", func(x *Exec) Res {
				c := x.C
				st, k := sidhNewKey(x, x.NewState(), F, "PublicKey", kv, "New", "pub")
				buf := x.bufLen(st, "buf", size, size)
				out := x.bufLen(st, "out", size, size)
				in := x.readBytes(st, buf.p, size)
				imp, exp := x.P.MustFn("dh/sidh", "PublicKey.Import"), x.P.MustFn("dh/sidh", "PublicKey.Export")
				q := oneRet(x.Call(st, imp, k.ptr(), buf))
				q = oneRet(x.Call(q.st, exp, k.ptr(), out))
				if e := eqAll(c, r.Seed, "byte", x.readBytes(q.st, out.p, size), in); e != nil {
					return *e
				}
				st, a := sidhNewKey(x, x.NewState(), F, "PublicKey", kv, "New", "a")
				st, b := sidhNewKey(x, st, F, "PublicKey", kv, "New", "b")
				out = x.bufLen(st, "out", size, size)
				q = oneRet(x.Call(st, exp, a.ptr(), out))
				q = oneRet(x.Call(q.st, imp, b.ptr(), out))
				for i := 0; i < 3; i++ {
					wa, _ := a.elem(st, i)
					wb, _ := b.elem(q.st, i)
					if e := eqAll(c, r.Seed, "canonical word", montUF(x, F, "FromMontgomery", wb), montUF(x, F, "FromMontgomery", wa)); e != nil {
						return *e
					}
				}
				return ok()
			})
			for _, w := range []keyLens{{0, 0}, {1, size - 1}, {size - 1, size - 1}, {size + 1, size + 1}, {size + 1, 1 << 40}} {
				w := w
				ob(fmt.Sprintf("%s public key: import of %d..%d bytes is an error and changes nothing", id, w.lo, w.hi), func(x *Exec) Res {
					st, k := sidhNewKey(x, x.NewState(), F, "PublicKey", kv, "New", "pub")
					return wrongSize(x, st, k, "PublicKey.Import", w)
				})
			}
			for _, via := range []string{"New", "Init"} {
				via := via
				slen, bits := F.aLen, F.aBits
				if kv != kvA {
					slen, bits = F.bLen, F.bBits
				}
				msg := 0
				if kv == kvSike {
					msg = F.msg
				}
				psize := int64(msg + slen)
				ob(fmt.Sprintf("%s private key (%s): size, import and export of S || scalar", id, via), func(x *Exec) Res {
					c := x.C
					st, k := sidhNewKey(x, x.NewState(), F, "PrivateKey", kv, via, "prv")
					// p434's scalars for A are stored in one byte more than needed
					if sl := int64(k.sc.len.k); !k.sc.len.isC() || sl < int64(slen) || sl > int64(slen)+1 {
						return refuted("scalar of %v bytes, want %d", k.sc.len, slen)
					} else {
						psize = int64(msg) + sl
					}
					if !k.sv.len.isCV(uint64(msg)) {
						return refuted("S of %v bytes, want %d", k.sv.len, msg)
					}
					q := oneRet(x.Call(st, x.P.MustFn("dh/sidh", "PrivateKey.Size"), k.ptr()))
					if t, okT := q.v.(*T); !okT || !t.isCV(uint64(psize)) {
						return refuted("Size() is %v, want %d", q.v, psize)
					}
					imp, exp := x.P.MustFn("dh/sidh", "PrivateKey.Import"), x.P.MustFn("dh/sidh", "PrivateKey.Export")
					for _, extra := range []int64{0, 9} {
						st, k := sidhNewKey(x, x.NewState(), F, "PrivateKey", kv, via, "prv")
						out := x.bufLen(st, "out", psize+extra, psize+extra)
						sn := snap(st)
						q := oneRet(x.Call(st, exp, k.ptr(), out))
						if m := sn.frame(q.st, out.p.obj); m != "" || !sn.same(q.st, out.p.obj, psize, psize+extra) {
							return refuted("Export frame: %s", m)
						}
						want := append(append([]*T(nil), k.bytesOf(st, k.sv)...), k.bytesOf(st, k.sc)...)
						if e := eqAll(c, r.Seed, "exported byte", x.readBytes(q.st, out.p, psize), want); e != nil {
							return *e
						}
					}
					st, k = sidhNewKey(x, x.NewState(), F, "PrivateKey", kv, via, "prv")
					buf := x.bufLen(st, "buf", psize, psize)
					in := x.readBytes(st, buf.p, psize)
					sn := snap(st)
					q = oneRet(x.Call(st, imp, k.ptr(), buf))
					if n, okE := errNil(q.v); !okE || !n {
						return refuted("import of the right size fails")
					}
					al := []*Obj{k.o, k.sc.p.obj}
					if k.sv.p.obj != nil {
						al = append(al, k.sv.p.obj)
					}
					if m := sn.frame(q.st, al...); m != "" || !k.sameHeader(sn, q.st) {
						return refuted("Import frame: %s", m)
					}
					if e := eqAll(c, r.Seed, "key byte", append(append([]*T(nil), k.bytesOf(q.st, k.sv)...), k.bytesOf(q.st, k.sc)...), in); e != nil {
						return *e
					}
					for _, w := range []keyLens{{0, 0}, {1, psize - 1}, {psize - 1, psize - 1}, {psize + 1, psize + 1}, {psize + 1, 1 << 40}} {
						st, k := sidhNewKey(x, x.NewState(), F, "PrivateKey", kv, via, "prv")
						if z := wrongSize(x, st, k, "PrivateKey.Import", w); !z.OK {
							return z
						}
					}
					return ok()
				})
				for _, fn := range []string{"PrivateKey.Generate", "GeneratePrivateKey"} {
					fn := fn
					ob(fmt.Sprintf("%s %s (%s), any random stream: S, then the scalar, are the next bytes of the stream, except that bit %d of the scalar is set and the bits above are clear; a failing source is reported", id, fn, via, bits-1), func(x *Exec) Res {
						c := x.C
						g := x.newRng("rng", true)
						st, k := sidhNewKey(x, x.NewState(), F, "PrivateKey", kv, via, "prv")
						sn := snap(st)
						f := x.P.MustFn("dh/sidh", fn)
						outs, msg := onlyRets(x.Call(st, f, k.ptr(), g.iface()))
						if msg != "" {
							return refuted("%s", msg)
						}
						nOK := 0
						for _, q := range outs {
							al := []*Obj{k.sc.p.obj}
							if k.sv.p.obj != nil {
								al = append(al, k.sv.p.obj)
							}
							if m := sn.frame(q.st, al...); m != "" || !k.sameHeader(sn, q.st) {
								return refuted("frame: %s", m)
							}
							if f.Signature.Results().Len() > 0 {
								n, okE := errNil(q.v)
								if !okE || n == g.failed(q.st) {
									return refuted("error reported: %v, source failed: %v", !n, g.failed(q.st))
								}
							} else if g.failed(q.st) {
								known <- true
							}
							if g.failed(q.st) {
								continue
							}
							nOK++
							var sw []*T
							p := 0
							for ; p < msg2(k); p++ {
								sw = append(sw, g.byteAt(q.st, p))
							}
							if e := eqAll(c, r.Seed, "S byte", k.bytesOf(q.st, k.sv), sw); e != nil {
								return *e
							}
							var want []*T
							for i := 0; i < int(k.sc.len.k); i++ {
								b := g.byteAt(q.st, p+i)
								lo := 8 * i
								switch {
								case lo >= bits:
									b = c.Const(8, 0)
								case lo+8 >= bits:
									n := uint8(bits - lo)
									b = c.Or(c.And(b, c.Const(8, mask(n))), c.Const(8, 1<<(n-1)))
								}
								want = append(want, b)
							}
							if e := eqAll(c, r.Seed, "scalar byte", k.bytesOf(q.st, k.sc), want); e != nil {
								return *e
							}
						}
						if nOK == 0 {
							return refuted("never succeeds")
						}
						return okd("%d paths", len(outs))
					})
				}
			}
		}
	}
	Par(8, jobs...)
	close(known)
	for range known {
		r.Known = append(r.Known, "key=sidh-generate-swallows-rng-error dh/sidh.GeneratePrivateKey(prv, rand) has no result and drops the error of a failing random source")
		break
	}
}

func msg2(k *sidhKey) int { return int(k.sv.len.k) }

func wrongSize(x *Exec, st *State, k *sidhKey, fn string, w keyLens) Res {
	buf := x.bufLen(st, "buf", w.lo, w.hi)
	sn := snap(st)
	outs, msg := onlyRets(x.Call(st, x.P.MustFn("dh/sidh", fn), k.ptr(), buf))
	if msg != "" {
		return refuted("%s", msg)
	}
	for _, q := range outs {
		n, okE := errNil(q.v)
		if !okE || n {
			return refuted("%s accepts a buffer of %d..%d bytes", fn, w.lo, w.hi)
		}
		if m := sn.frame(q.st); m != "" {
			return refuted("refused, but writes: %s", m)
		}
	}
	return ok()
}
