package main

import (
	"encoding/json"
	"fmt"
	"go/types"
)

func init() { props["C06"] = propC06 }

func jsonStr(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

// aesExpand is FIPS 197 KeyExpansion over byte terms.
func aesExpand(c *Ctx, key []*T) [][]*T {
	nk := len(key) / 4
	nr := nk + 6
	var w [][]*T
	rcon := byte(1)
	for i := 0; i < 4*(nr+1); i++ {
		if i < nk {
			w = append(w, key[4*i:4*i+4])
			continue
		}
		t := append([]*T(nil), w[i-1]...)
		if i%nk == 0 {
			t = aesSub(c, []*T{t[1], t[2], t[3], t[0]}, false)
			t[0] = c.Xor(t[0], c.Const(8, uint64(rcon)))
			rcon = gmul(rcon, 2)
		} else if nk > 6 && i%nk == 4 {
			t = aesSub(c, t, false)
		}
		n := make([]*T, 4)
		for j := range n {
			n[j] = c.Xor(w[i-nk][j], t[j])
		}
		w = append(w, n)
	}
	var rk [][]*T
	for r := 0; r <= nr; r++ {
		var k []*T
		for j := 0; j < 4; j++ {
			k = append(k, w[4*r+j]...)
		}
		rk = append(rk, k)
	}
	return rk
}

func xorB(c *Ctx, a, b []*T) []*T {
	r := make([]*T, len(a))
	for i := range a {
		r[i] = c.Xor(a[i], b[i])
	}
	return r
}

func aesEnc(c *Ctx, rk [][]*T, in []*T) []*T {
	s := xorB(c, in, rk[0])
	n := len(rk) - 1
	for r := 1; r <= n; r++ {
		s = aesShift(aesSub(c, s, false), false)
		if r < n {
			s = aesMix(c, s, false)
		}
		s = xorB(c, s, rk[r])
	}
	return s
}

func aesDec(c *Ctx, rk [][]*T, in []*T) []*T {
	n := len(rk) - 1
	s := xorB(c, in, rk[n])
	for r := n - 1; r >= 0; r-- {
		s = aesSub(c, aesShift(s, true), true)
		s = xorB(c, s, rk[r])
		if r > 0 {
			s = aesMix(c, s, true)
		}
	}
	return s
}

// concrete self-test of the specification
func aesSpecTest() string {
	c := NewCtx()
	kb := func(n int) (r []*T) {
		for i := 0; i < n; i++ {
			r = append(r, c.Const(8, uint64(i)))
		}
		return
	}
	var pt []*T
	for i := 0; i < 16; i++ {
		pt = append(pt, c.Const(8, uint64(i*0x11)))
	}
	want := map[int]string{16: "69c4e0d86a7b0430d8cdb78070b4c55a", 24: "dda97ca4864cdfe06eaf70a0ec0d7191", 32: "8ea2b7ca516745bfeafc49904b496089"}
	for n, w := range want {
		rk := aesExpand(c, kb(n))
		ct := aesEnc(c, rk, pt)
		s := ""
		for _, t := range ct {
			s += fmt.Sprintf("%02x", t.k)
		}
		if s != w {
			return s
		}
		for i, t := range aesDec(c, rk, ct) {
			if t != pt[i] {
				return "dec"
			}
		}
	}
	return ""
}

func equalBytesNF(c *Ctx, seed int64, got, want []*T) Res {
	sims := NewSims(c, 3, uint64(seed)+11)
	for e := range sims.envs {
		for i := range got {
			if g, w := sims.envs[e].Eval(c, got[i]), sims.envs[e].Eval(c, want[i]); g != w {
				return Res{Status: "refuted", Detail: fmt.Sprintf("byte %d is %#x, specification says %#x", i, g, w), Cex: envJSON(sims.envs[e])}
			}
		}
	}
	nf := NewNF(c)
	for i := range got {
		if !nf.EqualByte(got[i], want[i]) {
			return undecided("byte %d: normal forms differ", i)
		}
	}
	return okd("%d bytes, %d code nodes", len(got), len(reach(got...)))
}

func propC06(r *Report) {
	r.Under = []string{"drbg/internal/aes.(*AES).SetKey/Encrypt/Decrypt", "drbg/internal/aes.(*AESAsm).SetKey/Encrypt/Decrypt (amd64 assembly: expandKeyAsm, encryptBlockAsm, decryptBlockAsm)"}
	r.Replay = &ReplaySpec{Files: map[string]string{"drbg/internal/aes/zz_verif_test.go": "aes_test.go"}, Pkg: []string{"./drbg/internal/aes"}, Run: "TestVerifAES"}
	r.Ob("spec: FIPS 197 specification reproduces the appendix C vectors", "evaluation", func() Res {
		if m := aesSpecTest(); m != "" {
			return undecided("%s", m)
		}
		return ok()
	})
	r.Ob("spec lemma: decryption round inverts encryption round for every state and round key", "byte normal form", func() Res {
		c := NewCtx()
		nf := NewNF(c)
		var s, k []*T
		for i := 0; i < 16; i++ {
			s = append(s, c.Var(8, fmt.Sprintf("s%d", i)))
			k = append(k, c.Var(8, fmt.Sprintf("k%d", i)))
		}
		for _, last := range []bool{false, true} {
			e := aesShift(aesSub(c, s, false), false)
			if !last {
				e = aesMix(c, e, false)
			}
			e = xorB(c, e, k)
			// the matching step of aesDec: remove k, undo the layers
			d := xorB(c, e, k)
			if !last {
				d = aesMix(c, d, true)
			}
			d = aesSub(c, aesShift(d, true), true)
			for i := range d {
				if !nf.EqualByte(d[i], s[i]) {
					return undecided("byte %d", i)
				}
			}
		}
		return ok()
	})
	var jobs []func()
	for _, ty := range []string{"AES", "AESAsm"} {
		ty := ty
		for _, kl := range []int{16, 24, 32} {
			kl := kl
			for _, dir := range []string{"Encrypt", "Decrypt"} {
				dir := dir
				for _, alias := range []bool{false, true} {
					alias := alias
					nm := fmt.Sprintf("%s.SetKey(%d-byte key); %s[dst==src:%v]: ensures dst[:16] == FIPS197(key, src[:16]), assigns only *c and dst[:16]", ty, kl, dir, alias)
					jobs = append(jobs, func() {
						r.Ob(nm, "symbolic execution + byte-level table normal form", func() Res { return aesCase(r, ty, kl, dir, alias) })
					})
				}
			}
		}
		jobs = append(jobs, func() {
			r.Ob(ty+".SetKey: every other key length is refused with an error and assigns nothing", "symbolic execution (symbolic length), z3", func() Res {
				x := newX("amd64")
				defer x.Close()
				defer r.Merge(x)
				st := x.NewState()
				T := x.P.Type("drbg/internal/aes", ty)
				o := x.NewTyped(st, "c", T)
				x.havocAt(st, o, 0, T, "c")
				n := x.C.IdxVar("n", 0, 1<<40)
				for _, k := range []int64{16, 24, 32} {
					st.Assume(x.C.Not(x.C.Eq(n, x.C.I(k))))
				}
				key := x.NewSymBytes(st, "key", n)
				sn := snap(st)
				outs, msg := onlyRets(x.Call(st, x.P.MustFn("drbg/internal/aes", ty+".SetKey"), Ptr{o, x.C.I(0)}, Slice{Ptr{key, x.C.I(0)}, n, n}))
				if msg != "" {
					return refuted("%s", msg)
				}
				for _, q := range outs {
					if f, ok := q.v.(Iface); !ok || f.typ == nil {
						return refuted("a key of another length is accepted: %v", q.v)
					}
					if m := sn.frame(q.st); m != "" {
						return refuted("frame: %s", m)
					}
				}
				return okd("%d paths", len(outs))
			})
		})
		for _, dir := range []string{"Encrypt", "Decrypt"} {
			dir := dir
			jobs = append(jobs, func() {
				r.Ob(ty+"."+dir+": a source or destination shorter than 16 bytes panics and nothing is written", "symbolic execution (symbolic lengths), z3", func() Res {
					for which := 0; which < 2; which++ {
						x := newX("amd64")
						st := x.NewState()
						T := x.P.Type("drbg/internal/aes", ty)
						o := x.NewTyped(st, "c", T)
						if e := aesSetKeyConst(x, st, ty, o); e != "" {
							return undecided("%s", e)
						}
						n := x.C.IdxVar("n", 0, 15)
						m := x.C.IdxVar("m", 0, 1<<40)
						if which == 1 {
							n, m = m, n
						}
						a, b := x.NewObj(st, "src", 16), x.NewObj(st, "dst", 16)
						x.havocAt(st, a, 0, types.NewArray(types.Typ[types.Uint8], 16), "s")
						x.havocAt(st, b, 0, types.NewArray(types.Typ[types.Uint8], 16), "d")
						sn := snap(st)
						outs, err := x.Call(st, x.P.MustFn("drbg/internal/aes", ty+"."+dir), Ptr{o, x.C.I(0)}, Slice{Ptr{b, x.C.I(0)}, m, m}, Slice{Ptr{a, x.C.I(0)}, n, n})
						r.Merge(x)
						x.Close()
						if err != nil {
							return undecided("%v", err)
						}
						for _, q := range outs {
							if q.kind != "panic" {
								return refuted("returns with a short buffer")
							}
							if f := sn.frame(q.st); f != "" {
								return refuted("frame: %s", f)
							}
						}
					}
					return ok()
				})
			})
		}
	}
	for _, ty := range []string{"AES", "AESAsm"} {
		for _, dir := range []string{"Encrypt", "Decrypt"} {
			ty, dir := ty, dir
			jobs = append(jobs, func() {
				r.Ob(ty+"."+dir+": source and destination blocks that overlap at another index panic and nothing is written; adjacent blocks do not panic", "symbolic execution", func() Res {
					x := newX("amd64")
					defer x.Close()
					defer r.Merge(x)
					for d := int64(-17); d <= 17; d++ {
						st := x.NewState()
						o := x.NewTyped(st, "c", x.P.Type("drbg/internal/aes", ty))
						if e := aesSetKeyConst(x, st, ty, o); e != "" {
							return undecided("%s", e)
						}
						buf := x.NewObj(st, "buf", 64)
						x.havocAt(st, buf, 0, types.NewArray(types.Typ[types.Uint8], 64), "b")
						sn := snap(st)
						n := x.C.I(16)
						// the slices may be longer than the block
						dl, sl := x.C.I(20), x.C.I(18)
						if d%2 == 0 {
							dl, sl = n, n
						}
						outs, err := x.Call(st, x.P.MustFn("drbg/internal/aes", ty+"."+dir), Ptr{o, x.C.I(0)}, Slice{Ptr{buf, x.C.I(20 + d)}, dl, dl}, Slice{Ptr{buf, x.C.I(20)}, sl, sl})
						if err != nil {
							return undecided("%v", err)
						}
						for _, q := range outs {
							want := "panic"
							if d == 0 || d <= -16 || d >= 16 {
								want = "ret"
							}
							if q.kind != want {
								return refuted("dst %d bytes behind src: %s, specified %s", d, q.kind, want)
							}
							if f := sn.frame(q.st); want == "panic" && f != "" {
								return refuted("frame: %s", f)
							}
						}
					}
					return ok()
				})
			})
		}
	}
	Par(8, jobs...)
}

func aesSetKeyConst(x *Exec, st *State, ty string, o *Obj) string {
	k, _ := x.bytesSlice(st, "key0", x.constBytes(make([]byte, 32)))
	q := oneRet(x.Call(st, x.P.MustFn("drbg/internal/aes", ty+".SetKey"), Ptr{o, x.C.I(0)}, k))
	if f, ok := q.v.(Iface); !ok || f.typ != nil {
		return "SetKey fails"
	}
	*st = *q.st
	return ""
}

func aesCase(r *Report, ty string, kl int, dir string, alias bool) Res {
	x := newX("amd64")
	defer x.Close()
	defer r.Merge(x)
	c := x.C
	st := x.NewState()
	T := x.P.Type("drbg/internal/aes", ty)
	o := x.NewTyped(st, "c", T)
	x.havocAt(st, o, 0, T, "c")
	key := x.byteVars("key", kl)
	in := x.byteVars("in", 16)
	ks, ko := x.bytesSlice(st, "key", key)
	sn := snap(st)
	q := oneRet(x.Call(st, x.P.MustFn("drbg/internal/aes", ty+".SetKey"), Ptr{o, c.I(0)}, ks))
	if f, ok := q.v.(Iface); !ok || f.typ != nil {
		return refuted("SetKey returns an error for a %d-byte key", kl)
	}
	st = q.st
	if m := sn.frame(st, o); m != "" {
		return refuted("SetKey frame: %s", m)
	}
	_ = ko
	// buffers of any length >= 16; the objects hold exactly the 16 bytes that may be touched
	n, m := c.IdxVar("lensrc", 16, 1<<40), c.IdxVar("lendst", 16, 1<<40)
	so := x.NewBytes(st, "src", in)
	do := so
	if !alias {
		do = x.NewBytes(st, "dst", x.byteVars("old", 16))
	}
	sn = snap(st)
	q = oneRet(x.Call(st, x.P.MustFn("drbg/internal/aes", ty+"."+dir), Ptr{o, c.I(0)}, Slice{Ptr{do, c.I(0)}, m, m}, Slice{Ptr{so, c.I(0)}, n, n}))
	if f := sn.frame(q.st, do); f != "" {
		return refuted("%s frame: %s", dir, f)
	}
	got := x.readBytes(q.st, Ptr{do, c.I(0)}, 16)
	rk := aesExpand(c, key)
	want := aesEnc(c, rk, in)
	if dir == "Decrypt" {
		want = aesDec(c, rk, in)
	}
	return equalBytesNF(c, r.Seed, got, want)
}
