package main

// C13: base-field arithmetic of the SIDH primes p434, p503 and p751.

import (
	"fmt"
	"math/big"
)

func init() { props["C13"] = propC13 }

type sidhField struct {
	name    string // "434"
	pkg     string
	e2, e3  uint
	n       int // FpWords
	bytelen int
	p       *big.Int
	R       *big.Int
	cfgs    []fpCfg
}

var sidhFields = func() []*sidhField {
	mk := func(name string, e2, e3 uint, n int) *sidhField {
		p := new(big.Int).Exp(big.NewInt(3), big.NewInt(int64(e3)), nil)
		p.Lsh(p, e2).Sub(p, big1)
		f := &sidhField{name: name, pkg: "dh/sidh/internal/p" + name, e2: e2, e3: e3, n: n, p: p, R: pow2(uint(64 * n)), bytelen: (p.BitLen() + 7) / 8}
		f.cfgs = []fpCfg{
			{"amd64, no BMI2", "amd64", map[string]bool{"HasBMI2": false, "HasADXandBMI2": false}},
			{"amd64, BMI2+ADX", "amd64", map[string]bool{"HasBMI2": true, "HasADXandBMI2": true}},
		}
		if name == "434" {
			f.cfgs = append(f.cfgs, fpCfg{"generic", "generic", nil})
		} else {
			f.cfgs = append(f.cfgs, fpCfg{"amd64, BMI2", "amd64", map[string]bool{"HasBMI2": true, "HasADXandBMI2": false}})
			f.cfgs = append(f.cfgs, fpCfg{"noasm", "noasm", nil})
		}
		return f
	}
	return []*sidhField{mk("434", 216, 137, 7), mk("503", 250, 159, 8), mk("751", 372, 239, 12)}
}()

const fpMaxWords = 12

func sidhReplay(run string) *ReplaySpec {
	rs := &ReplaySpec{Files: map[string]string{}, Tags: [][]string{{""}, {"noasm", "./dh/sidh/internal/p503", "./dh/sidh/internal/p751"}}, Run: run}
	for _, n := range []string{"434", "503", "751"} {
		rs.Files["dh/sidh/internal/p"+n+"/zz_verif_test.go"] = "sidh" + n + "_test.go"
		rs.Pkg = append(rs.Pkg, "./dh/sidh/internal/p"+n)
	}
	return rs
}

func propC13(r *Report) {
	r.Replay = sidhReplay("TestVerifField")
	var jobs []func()
	for _, F := range sidhFields {
		F := F
		p := F.p
		p2 := new(big.Int).Lsh(p, 1)
		p2m1 := new(big.Int).Sub(p2, big1)
		pR := new(big.Int).Mul(p, F.R)
		pRm1 := new(big.Int).Sub(pR, big1)
		Rinv := new(big.Int).ModInverse(F.R, p)
		inMax := new(big.Int).Sub(pow2(uint(8*F.bytelen)), big1) // what importing a key stores
		RR := new(big.Int).Mul(F.R, F.R)
		fp := func(name string, max *big.Int, out bool) *fpArg {
			return &fpArg{name: name, n: F.n, pad: fpMaxWords - F.n, max: max, out: out}
		}
		x2 := func(name string, max *big.Int, out bool) *fpArg {
			return &fpArg{name: name, n: 2 * F.n, pad: 2*fpMaxWords - 2*F.n, max: max, out: out}
		}
		for _, cf := range F.cfgs {
			cf := cf
			add := func(f *fpFn, ens string) {
				f.fn += F.name
				f.pkg, f.cfg, f.globals = F.pkg, cf.cfg, cf.globals
				nm := fmt.Sprintf("%s [%s", f.fn, cf.name)
				if a := aliasName(f.args, f.alias); a != "" {
					nm += "; " + a
				}
				nm += "]: " + ens
				jobs = append(jobs, func() {
					r.Ob(nm, "symbolic execution + integer-polynomial carry elimination", func() Res { return f.run(r) })
				})
			}
			// lazily reduced addition and subtraction
			args := func() []*fpArg { return []*fpArg{fp("z", nil, true), fp("x", p2m1, false), fp("y", p2m1, false)} }
			for _, al := range aliasings(args()) {
				for _, sub := range []bool{false, true} {
					sub := sub
					f := &fpFn{fn: "addP", args: args(), alias: al, outs: []int{0}}
					op := func(a, b *bpoly) *bpoly { return a.add(b) }
					ens := "x,y < 2p ==> z == x+y mod 2p, z < 2p"
					if sub {
						f.fn = "subP"
						op = func(a, b *bpoly) *bpoly { return a.sub(b) }
						ens = "x,y < 2p ==> z == x-y mod 2p, z < 2p"
					}
					f.spec = func(b *BN, in, out []*bpoly, _ *T) error {
						return specMod(b, out[0], op(in[1], in[2]), p2, p2m1, 12)
					}
					f.conc = func(in, out []*big.Int, _ uint64) string {
						w := new(big.Int)
						if sub {
							w.Sub(in[1], in[2])
						} else {
							w.Add(in[1], in[2])
						}
						w.Mod(w, p)
						if new(big.Int).Mod(out[0], p).Cmp(w) != 0 || out[0].Cmp(p2) >= 0 {
							return fmt.Sprintf("result %#x, exact value modulo p %#x", out[0], w)
						}
						return ""
					}
					add(f, ens)
				}
			}
			// double-width addition and subtraction
			xargs := func(max *big.Int) []*fpArg {
				return []*fpArg{x2("z", nil, true), x2("x", max, false), x2("y", max, false)}
			}
			for _, al := range aliasings(xargs(nil)) {
				f := &fpFn{fn: "adlP", args: xargs(pRm1), alias: al, outs: []int{0}}
				f.spec = func(b *BN, in, out []*bpoly, _ *T) error {
					return specEq(b, out[0], in[1].add(in[2]), uint(128*F.n), 12)
				}
				f.conc = func(in, out []*big.Int, _ uint64) string {
					w := new(big.Int).Add(in[1], in[2])
					if w.Mod(w, RR).Cmp(out[0]) != 0 {
						return fmt.Sprintf("result %#x, x+y is %#x", out[0], w)
					}
					return ""
				}
				add(f, "x,y < p*R ==> z == x+y")
				f = &fpFn{fn: "sulP", args: xargs(pRm1), alias: al, outs: []int{0}}
				f.spec = func(b *BN, in, out []*bpoly, _ *T) error {
					return specMod(b, out[0], in[1].sub(in[2]), pR, pRm1, 12)
				}
				f.conc = func(in, out []*big.Int, _ uint64) string {
					w := new(big.Int).Sub(in[1], in[2])
					if w.Mod(w, pR).Cmp(out[0]) != 0 {
						return fmt.Sprintf("result %#x, x-y modulo p*R is %#x", out[0], w)
					}
					return ""
				}
				add(f, "x,y < p*R ==> z == x-y mod p*R, z < p*R")
			}
			// canonical reduction
			f := &fpFn{fn: "modP", args: []*fpArg{fp("x", p2m1, false)}, outs: []int{0}}
			f.spec = func(b *BN, in, out []*bpoly, _ *T) error {
				return specMod(b, out[0], in[0], p, new(big.Int).Sub(p, big1), 12)
			}
			f.conc = func(in, out []*big.Int, _ uint64) string {
				w := new(big.Int).Mod(in[0], p)
				if w.Cmp(out[0]) != 0 {
					return fmt.Sprintf("result %#x, canonical value %#x", out[0], w)
				}
				return ""
			}
			add(f, "x < 2p ==> x' == x mod p, x' < p")
			// conditional swap
			sargs := func() []*fpArg {
				return []*fpArg{fp("x", nil, false), fp("y", nil, false), {name: "choice", w: 8}}
			}
			for ch := uint64(0); ch < 2; ch++ {
				ch := ch
				for _, al := range [][]int{{0, 1, 2}, {0, 0, 2}} {
					f := &fpFn{fn: "cswapP", args: sargs(), alias: al, outs: []int{0, 1}, fixArg: map[int]uint64{2: ch}, limit: -1}
					f.spec = func(b *BN, in, out []*bpoly, _ *T) error {
						for i := 0; i < 2; i++ {
							if err := specEq(b, out[i], in[(uint64(i)^ch)&1], uint(64*F.n), 12); err != nil {
								return err
							}
						}
						return nil
					}
					f.conc = func(in, out []*big.Int, _ uint64) string {
						for i := 0; i < 2; i++ {
							if out[i].Cmp(in[(uint64(i)^ch)&1]) != 0 {
								return fmt.Sprintf("choice %d: operand %d becomes %#x", ch, i, out[i])
							}
						}
						return ""
					}
					add(f, map[uint64]string{0: "choice 0 ==> x,y unchanged", 1: "choice 1 ==> x,y exchanged"}[ch])
				}
			}
			// product
			for _, al := range [][]int{{0, 1, 2}, {0, 1, 1}} {
				f = &fpFn{fn: "mulP", args: []*fpArg{x2("z", nil, true), fp("x", inMax, false), fp("y", inMax, false)}, alias: al, outs: []int{0}}
				f.spec = func(b *BN, in, out []*bpoly, _ *T) error {
					return specEq(b, out[0], b.mul(in[1], in[2]), uint(128*F.n), 12)
				}
				f.conc = func(in, out []*big.Int, _ uint64) string {
					w := new(big.Int).Mul(in[1], in[2])
					if w.Cmp(out[0]) != 0 {
						return fmt.Sprintf("result %#x, product %#x", out[0], w)
					}
					return ""
				}
				add(f, fmt.Sprintf("x,y < 2^%d ==> z == x*y", 8*F.bytelen))
			}
			// Montgomery reduction
			f = &fpFn{fn: "rdcP", args: []*fpArg{fp("z", nil, true), x2("x", pRm1, false)}, outs: []int{0}, scratch: []int{1}}
			f.spec = func(b *BN, in, out []*bpoly, _ *T) error {
				return specMod(b, out[0], in[1].scale(Rinv), p, p2m1, 12)
			}
			f.conc = func(in, out []*big.Int, _ uint64) string {
				w := new(big.Int).Mul(in[1], Rinv)
				w.Mod(w, p)
				if new(big.Int).Mod(out[0], p).Cmp(w) != 0 || out[0].Cmp(p2) >= 0 {
					return fmt.Sprintf("result %#x, exact value modulo p %#x", out[0], w)
				}
				return ""
			}
			add(f, "x < p*R ==> z == x/R mod p, z < 2p")
		}
	}
	Par(8, jobs...)
}
