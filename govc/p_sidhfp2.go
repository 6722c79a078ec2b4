package main

// C14: arithmetic in GF(p^2), Montgomery conversions; the contracts of the SIDH field layers.

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C14"] = propC14 }

// sidhLayers replaces the base-field arithmetic by its contracts (C13). Values are raw integers modulo p.
func sidhLayers(x *Exec, R *Ring, F *sidhField) (l1, l2 *FL) {
	p2m1 := new(big.Int).Sub(new(big.Int).Lsh(F.p, 1), big1)
	pRm1 := new(big.Int).Sub(new(big.Int).Mul(F.p, F.R), big1)
	pm1 := new(big.Int).Sub(F.p, big1)
	inMax := new(big.Int).Sub(pow2(uint(8*F.bytelen)), big1)
	Rinv := new(big.Int).ModInverse(F.R, F.p)
	l1 = NewFL(x, R, iota0(F.n), p2m1)
	l2 = NewFL(x, R, iota0(2*F.n), pRm1)
	l2.deps = []*FL{l1}
	pre := modPath + "/" + F.pkg + "."
	nm := func(s string) string { return pre + s + F.name }
	l1.bin(nm("addP"), p2m1, p2m1, R.Add)
	l1.bin(nm("subP"), p2m1, p2m1, R.Sub)
	l2.bin(nm("sulP"), pRm1, pRm1, R.Sub)
	x.H[nm("adlP")] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
		u, v := l2.Read(st, a[1]), l2.Read(st, a[2])
		l2.pre(u, pRm1, "adlP")
		l2.pre(v, pRm1, "adlP")
		m := new(big.Int).Add(u.max, v.max)
		l2.Write(st, a[0], "adl", R.Add(u.v, v.v), m)
		return []Alt{{st: st}}
	}
	x.H[nm("mulP")] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
		u, v := l1.Read(st, a[1]), l1.Read(st, a[2])
		l1.pre(u, inMax, "mulP")
		l1.pre(v, inMax, "mulP")
		l2.Write(st, a[0], "prod", R.Mul(u.v, v.v), new(big.Int).Mul(u.max, v.max))
		return []Alt{{st: st}}
	}
	x.H[nm("rdcP")] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
		u := l2.Read(st, a[1])
		l2.pre(u, pRm1, "rdcP")
		l1.Write(st, a[0], "red", R.Scale(u.v, Rinv), p2m1)
		// the operand is destroyed
		q, off := l2.ptrOff(a[1])
		for i := 0; i < 2*F.n; i++ {
			x.storeAt(st, q.obj, off+int64(8*i), 8, x.C.Var(64, fmt.Sprintf("destroyed#%d", x.C.n)))
		}
		return []Alt{{st: st}}
	}
	x.H[nm("modP")] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
		u := l1.Read(st, a[0])
		l1.pre(u, p2m1, "modP")
		l1.Write(st, a[0], "can", u.v, pm1)
		return []Alt{{st: st}}
	}
	x.H[nm("cswapP")] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
		return cswapContract(x, st, l1, a[0], a[1], a[2])
	}
	return
}

// cswapContract exchanges two groups of words when the choice is 1.
func cswapContract(x *Exec, st *State, l *FL, p, q, ch Value) []Alt {
	t, ok := ch.(*T)
	if !ok {
		unsup("choice is %T", ch)
	}
	if !t.isC() {
		unsup("conditional swap on a symbolic choice")
	}
	if t.k == 0 {
		return []Alt{{st: st}}
	}
	if t.k != 1 {
		l.errs = append(l.errs, fmt.Sprintf("conditional swap called with choice %d", t.k))
	}
	a, ao := l.ptrOff(p)
	b, bo := l.ptrOff(q)
	u, v := l.words(st, a.obj, ao), l.words(st, b.obj, bo)
	for i, k := range l.offs {
		x.storeAt(st, a.obj, ao+int64(8*k), 8, v[i])
		x.storeAt(st, b.obj, bo+int64(8*k), 8, u[i])
	}
	return []Alt{{st: st}}
}

// fp2Offs: the words of an Fp2.
func fp2Offs(n int) []int {
	o := iota0(n)
	for i := 0; i < n; i++ {
		o = append(o, fpMaxWords+i)
	}
	return o
}

// padZero: words beyond the field's width stay zero.
func padZero(x *Exec, st *State, p Ptr, n, elems int) string {
	for e := 0; e < elems; e++ {
		for k := n; k < fpMaxWords; k++ {
			if !x.loadBits(st, p.obj, int64(8*(e*fpMaxWords+k)), 8).isCV(0) {
				return fmt.Sprintf("word %d of component %d is not left at zero", k, e)
			}
		}
	}
	return ""
}

type fp2Arg struct {
	name  string
	fp2   bool // GF(p^2) (else GF(p))
	out   bool
	max   *big.Int
	fixed uint64 // with w: a byte
	w     uint8
}

func propC14(r *Report) {
	r.Replay = sidhReplay("TestVerifFp2")
	var jobs []func()
	for _, F := range sidhFields {
		F := F
		pm1 := new(big.Int).Sub(F.p, big1)
		p2m1 := new(big.Int).Sub(new(big.Int).Lsh(F.p, 1), big1)
		inMax := new(big.Int).Sub(pow2(uint(8*F.bytelen)), big1)
		Rinv := new(big.Int).ModInverse(F.R, F.p)
		type fe2 [2]*FE
		// want maps the raw values of the arguments to raw values of the outputs
		ob := func(fn, ens string, args []fp2Arg, alias []int, outMax *big.Int, want func(R *Ring, v []fe2) map[int]fe2) {
			var an []string
			seen := map[int][]string{}
			for i, a := range alias {
				seen[a] = append(seen[a], args[i].name)
			}
			for i := range args {
				if len(seen[i]) > 1 {
					an = append(an, strings.Join(seen[i], "=="))
				}
			}
			nm := fmt.Sprintf("p%s.%s", F.name, fn)
			if len(an) > 0 {
				nm += " [" + strings.Join(an, ", ") + "]"
			}
			jobs = append(jobs, func() {
				r.Ob(nm+": "+ens, "symbolic execution over field contracts + polynomial identity", func() Res {
					x := newX("amd64")
					defer x.Close()
					defer r.Merge(x)
					f := x.P.Fn(F.pkg, fn)
					if f == nil {
						return okd("no such function: its code is checked where it is used")
					}
					R := NewRing(F.p)
					l1, l2 := sidhLayers(x, R, F)
					if fn != "mulP" {
						fpContracts(x, R, l1, F, fn)
					}
					st := x.NewState()
					vals := make([]fe2, len(args))
					ptrs := make([]Value, len(args))
					var outs []*Obj
					for i, a := range args {
						if alias[i] != i {
							vals[i], ptrs[i] = vals[alias[i]], ptrs[alias[i]]
							continue
						}
						if a.w > 0 {
							ptrs[i] = x.C.Const(a.w, a.fixed)
							continue
						}
						mx := p2m1
						for j, b := range args {
							if alias[j] == i && b.max != nil {
								mx = b.max
							}
						}
						n := 1
						if a.fp2 {
							n = 2
						}
						p := l1.Obj(st, a.name, nil, n*fpMaxWords)
						for k := 0; k < n; k++ {
							vals[i][k] = R.Var(fmt.Sprintf("%s.%c", a.name, 'A'+k))
							l1.Write(st, Ptr{p.obj, x.C.I(int64(8 * k * fpMaxWords))}, a.name, vals[i][k], mx)
						}
						ptrs[i] = p
					}
					for i, a := range args {
						if a.out {
							outs = append(outs, ptrs[i].(Ptr).obj)
						}
					}
					sn := snap(st)
					qs, msg := onlyRets(x.Call(st, f, ptrs...))
					if msg != "" {
						return refuted("%s", msg)
					}
					ws := want(R, vals)
					for _, q := range qs {
						if m := sn.frame(q.st, outs...); m != "" {
							return refuted("frame: %s", m)
						}
						for i, a := range args {
							w, ok := ws[i]
							if !ok {
								continue
							}
							p := ptrs[i].(Ptr)
							n := 1
							if a.fp2 {
								n = 2
							}
							if m := padZero(x, q.st, p, F.n, n); m != "" {
								return refuted("%s: %s", a.name, m)
							}
							for k := 0; k < n; k++ {
								got := l1.Read(q.st, Ptr{p.obj, x.C.I(int64(8 * k * fpMaxWords))})
								for _, l := range []*FL{l1, l2} {
									if len(l.errs) > 0 {
										return refuted("%s", l.errs[0])
									}
								}
								if z, ok := R.feDiff(got.v, w[k], uint64(r.Seed)); !ok {
									z.Detail = fmt.Sprintf("%s.%c: %s", a.name, 'A'+k, z.Detail)
									return z
								}
								if got.max == nil || got.max.Cmp(outMax) > 0 {
									return refuted("%s.%c may reach %#x, specified at most %#x", a.name, 'A'+k, got.max, outMax)
								}
							}
						}
					}
					return okd("%d paths, %d field operations", len(qs), l1.n+l2.n)
				})
			})
		}
		fp := func(n string, out bool) fp2Arg { return fp2Arg{name: n, out: out} }
		f2 := func(n string, out bool) fp2Arg { return fp2Arg{name: n, fp2: true, out: out} }
		al3 := [][]int{{0, 1, 2}, {0, 0, 2}, {0, 1, 0}, {0, 1, 1}, {0, 0, 0}}
		al2 := [][]int{{0, 1}, {0, 0}}
		for _, al := range al3 {
			ob("mulP", "dest == lhs*rhs/R mod p, < 2p", []fp2Arg{fp("dest", true), fp("lhs", false), fp("rhs", false)}, al, p2m1, func(R *Ring, v []fe2) map[int]fe2 {
				return map[int]fe2{0: {R.Scale(R.Mul(v[1][0], v[2][0]), Rinv)}}
			})
			bin := func(fn, ens string, op func(R *Ring, a, b fe2) fe2) {
				ob(fn, ens, []fp2Arg{f2("dest", true), f2("lhs", false), f2("rhs", false)}, al, p2m1, func(R *Ring, v []fe2) map[int]fe2 {
					return map[int]fe2{0: op(R, v[1], v[2])}
				})
			}
			bin("add", "dest == lhs+rhs in GF(p^2)", func(R *Ring, a, b fe2) fe2 { return fe2{R.Add(a[0], b[0]), R.Add(a[1], b[1])} })
			bin("sub", "dest == lhs-rhs in GF(p^2)", func(R *Ring, a, b fe2) fe2 { return fe2{R.Sub(a[0], b[0]), R.Sub(a[1], b[1])} })
			bin("mul", "dest == lhs*rhs in GF(p^2), Montgomery domain", func(R *Ring, a, b fe2) fe2 {
				return fe2{R.Scale(R.Sub(R.Mul(a[0], b[0]), R.Mul(a[1], b[1])), Rinv), R.Scale(R.Add(R.Mul(a[0], b[1]), R.Mul(a[1], b[0])), Rinv)}
			})
		}
		for _, al := range al2 {
			ob("p34", "dest == x^((p-3)/4), Montgomery domain", []fp2Arg{fp("dest", true), fp("x", false)}, al, p2m1, func(R *Ring, v []fe2) map[int]fe2 {
				e := new(big.Int).Rsh(new(big.Int).Sub(F.p, big.NewInt(3)), 2)
				return map[int]fe2{0: {R.Scale(R.PowBig(R.Scale(v[1][0], Rinv), e), F.R)}}
			})
			ob("sqr", "dest == x^2 in GF(p^2), Montgomery domain", []fp2Arg{f2("dest", true), f2("x", false)}, al, p2m1, func(R *Ring, v []fe2) map[int]fe2 {
				a, b := v[1][0], v[1][1]
				return map[int]fe2{0: {R.Scale(R.Sub(R.Sqr(a), R.Sqr(b)), Rinv), R.Scale(R.Scale(R.Mul(a, b), big.NewInt(2)), Rinv)}}
			})
			ob("inv", "dest == 1/x in GF(p^2), Montgomery domain", []fp2Arg{f2("dest", true), f2("x", false)}, al, p2m1, func(R *Ring, v []fe2) map[int]fe2 {
				a, b := R.Scale(v[1][0], Rinv), R.Scale(v[1][1], Rinv)
				n := R.Add(R.Sqr(a), R.Sqr(b))
				return map[int]fe2{0: {R.Scale(R.Div(a, n), F.R), R.Scale(R.Div(R.Scale(b, bigM1), n), F.R)}}
			})
			args := []fp2Arg{f2("out", true), f2("in", false)}
			args[1].max = inMax
			ob("ToMontgomery", fmt.Sprintf("in < 2^%d ==> out == in*R mod p, < 2p", 8*F.bytelen), args, al, p2m1, func(R *Ring, v []fe2) map[int]fe2 {
				return map[int]fe2{0: {R.Scale(v[1][0], F.R), R.Scale(v[1][1], F.R)}}
			})
			ob("FromMontgomery", "out == in/R mod p, < p", []fp2Arg{f2("out", true), f2("in", false)}, al, pm1, func(R *Ring, v []fe2) map[int]fe2 {
				return map[int]fe2{0: {R.Scale(v[1][0], Rinv), R.Scale(v[1][1], Rinv)}}
			})
		}
		for ch := uint64(0); ch < 2; ch++ {
			ch := ch
			args := []fp2Arg{f2("xPx", true), f2("xPz", true), f2("xQx", true), f2("xQz", true), {name: "choice", w: 8, fixed: ch}}
			ob("cswap", fmt.Sprintf("choice %d: points %s", ch, []string{"unchanged", "exchanged"}[ch]), args, []int{0, 1, 2, 3, 4}, p2m1, func(R *Ring, v []fe2) map[int]fe2 {
				if ch == 0 {
					return map[int]fe2{0: v[0], 1: v[1], 2: v[2], 3: v[3]}
				}
				return map[int]fe2{0: v[2], 1: v[3], 2: v[0], 3: v[1]}
			})
		}
		jobs = append(jobs, func() { sidhConsts(r, F) })
		jobs = append(jobs, func() { sidhBatchInv(r, F) })
	}
	Par(8, jobs...)
}

// fpContracts: mulP and p34 by contract, except inside the function under proof.
func fpContracts(x *Exec, R *Ring, l *FL, F *sidhField, self string) {
	Rinv := new(big.Int).ModInverse(F.R, F.p)
	e := new(big.Int).Rsh(new(big.Int).Sub(F.p, big.NewInt(3)), 2)
	pre := modPath + "/" + F.pkg + "."
	p2m1 := new(big.Int).Sub(new(big.Int).Lsh(F.p, 1), big1)
	if self != "mulP" && sameSig(x, F.pkg, "mulP", 3) {
		l.bin(pre+"mulP", p2m1, p2m1, func(a, b *FE) *FE { return R.Scale(R.Mul(a, b), Rinv) })
		// operands outside the range of the contract: the body decides
		con := x.H[pre+"mulP"]
		x.H[pre+"mulP"] = func(x *Exec, st *State, a []Value, cc *ssa.CallCommon) []Alt {
			if l.Read(st, a[1]).max.Cmp(p2m1) > 0 || l.Read(st, a[2]).max.Cmp(p2m1) > 0 {
				return nil
			}
			return con(x, st, a, cc)
		}
	}
	if self != "p34" && sameSig(x, F.pkg, "p34", 2) {
		l.un(pre+"p34", p2m1, p2m1, func(a *FE) *FE { return R.Scale(R.PowBig(R.Scale(a, Rinv), e), F.R) })
	}
}

// sameSig: a function with n parameters and no result.
func sameSig(x *Exec, pkg, fn string, n int) bool {
	f := x.P.Fn(pkg, fn)
	return f != nil && len(f.Params) == n && f.Signature.Results().Len() == 0
}

func sidhConsts(r *Report, F *sidhField) {
	r.Ob("p"+F.name+": constants p, 2p, p+1, R^2, R, R/2, 6R", "evaluation", func() Res {
		x := newX("amd64")
		defer x.Close()
		st := x.NewState()
		m := func(v *big.Int) *big.Int { return new(big.Int).Mod(v, F.p) }
		k := func(n int64) *big.Int { return m(new(big.Int).Mul(big.NewInt(n), F.R)) }
		p2m1 := new(big.Int).Sub(new(big.Int).Lsh(F.p, 1), big1)
		half := new(big.Int).ModInverse(big.NewInt(2), F.p)
		n := 0
		for _, c := range []struct {
			name string
			fp2  bool
			v    *big.Int
		}{
			{"P" + F.name, false, F.p}, {"P" + F.name + "x2", false, new(big.Int).Lsh(F.p, 1)}, {"P" + F.name + "p1", false, new(big.Int).Add(F.p, big1)},
			{"P" + F.name + "R2", false, m(new(big.Int).Mul(F.R, F.R))},
			{"one", true, k(1)}, {"half", true, m(new(big.Int).Mul(half, F.R))}, {"six", true, k(6)},
		} {
			w := fpMaxWords
			if c.fp2 {
				w *= 2
			}
			v, ok := x.globalWords(st, F.pkg, c.name, 0, w)
			if !ok {
				continue // renamed or gone: its value is checked where it is used
			}
			n++
			if v.Cmp(c.v) != 0 && !(c.fp2 && v.Cmp(p2m1) <= 0 && m(v).Cmp(c.v) == 0) {
				return refuted("%s is %#x, not %#x", c.name, v, c.v)
			}
		}
		return okd("%d constants", n)
	})
}

// fp2Layer: GF(p^2) operations by contract; the values are field elements (without the Montgomery factor).
func fp2Layer(x *Exec, R *Ring, F *sidhField, self string) *FL {
	R.ord = new(big.Int).Sub(new(big.Int).Mul(F.p, F.p), big1)
	p2m1 := new(big.Int).Sub(new(big.Int).Lsh(F.p, 1), big1)
	l := NewFL(x, R, fp2Offs(F.n), p2m1)
	Rinv := new(big.Int).ModInverse(F.R, F.p)
	l.nodec = true
	consts := map[string]*FE{}
	l.kcon = func(ws []*big.Int) *FE {
		var ab [2]*big.Int
		for h := 0; h < 2; h++ {
			v := new(big.Int)
			for i := F.n - 1; i >= 0; i-- {
				v.Lsh(v, 64).Or(v, ws[h*F.n+i])
			}
			if v.Cmp(p2m1) > 0 {
				return nil
			}
			v.Mul(v, Rinv).Mod(v, F.p)
			ab[h] = v
		}
		if ab[1].Sign() == 0 {
			return R.Const(ab[0])
		}
		k := fmt.Sprintf("(%#x+%#xi)", ab[0], ab[1])
		if consts[k] == nil {
			consts[k] = R.Var(k)
		}
		return consts[k]
	}
	pre := modPath + "/" + F.pkg + "."
	bin := func(n string, op func(a, b *FE) *FE) {
		if n != self && sameSig(x, F.pkg, n, 3) {
			l.bin(pre+n, p2m1, p2m1, op)
		}
	}
	bin("add", R.Add)
	bin("sub", R.Sub)
	bin("mul", R.Mul)
	if self != "sqr" && sameSig(x, F.pkg, "sqr", 2) {
		l.un(pre+"sqr", p2m1, p2m1, R.Sqr)
	}
	if self != "inv" && sameSig(x, F.pkg, "inv", 2) {
		l.un(pre+"inv", p2m1, p2m1, R.Inv)
	}
	if sameSig(x, F.pkg, "cswap", 5) {
		x.H[pre+"cswap"] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
			r := cswapContract(x, st, l, a[0], a[2], a[4])
			return append(r[:0], cswapContract(x, st, l, a[1], a[3], a[4])...)
		}
	}
	return l
}

func sidhBatchInv(r *Report, F *sidhField) {
	r.Ob("p"+F.name+".Fp2Batch3Inv: yi == 1/xi", "symbolic execution over field contracts + polynomial identity", func() Res {
		x := newX("amd64")
		defer x.Close()
		defer r.Merge(x)
		f := x.P.Fn(F.pkg, "Fp2Batch3Inv")
		if f == nil {
			return okd("no such function")
		}
		R := NewRing(F.p)
		l := fp2Layer(x, R, F, "")
		st := x.NewState()
		var ps []Value
		var vs []*FE
		var outs []*Obj
		for i := 0; i < 6; i++ {
			v := R.Var(fmt.Sprintf("%c%d", "xy"[i/3], i%3+1))
			p := l.Obj(st, fmt.Sprintf("%c%d", "xy"[i/3], i%3+1), v, 2*fpMaxWords)
			vs, ps = append(vs, v), append(ps, p)
			if i >= 3 {
				outs = append(outs, p.obj)
			}
		}
		sn := snap(st)
		qs, msg := onlyRets(x.Call(st, f, ps...))
		if msg != "" {
			return refuted("%s", msg)
		}
		for _, q := range qs {
			if m := sn.frame(q.st, outs...); m != "" {
				return refuted("frame: %s", m)
			}
			for i := 3; i < 6; i++ {
				if m := padZero(x, q.st, ps[i].(Ptr), F.n, 2); m != "" {
					return refuted("%s", m)
				}
				got := l.Read(q.st, ps[i])
				if z, ok := R.feDiff(got.v, R.Inv(vs[i-3]), uint64(r.Seed)); !ok {
					return z
				}
			}
			if len(l.errs) > 0 {
				return refuted("%s", l.errs[0])
			}
		}
		return okd("%d paths", len(qs))
	})
}
