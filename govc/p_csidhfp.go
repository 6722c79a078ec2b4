package main

// C09: CSIDH-512 field arithmetic.

import (
	"fmt"
	"math/big"
)

func init() { props["C09"] = propC09 }

// csidhP is 4*3*5*...*373*587-1.
var csidhPrimes, csidhP = func() ([]int64, *big.Int) {
	var ps []int64
	v := big.NewInt(4)
	for n := int64(3); len(ps) < 73; n += 2 {
		if big.NewInt(n).ProbablyPrime(20) {
			ps = append(ps, n)
		}
	}
	ps = append(ps, 587)
	for _, n := range ps {
		v.Mul(v, big.NewInt(n))
	}
	return ps, v.Sub(v, big1)
}()

type fpCfg struct {
	name    string
	cfg     string
	globals map[string]bool
}

var csidhCfgs = []fpCfg{
	{"amd64, no BMI2", "amd64", map[string]bool{"hasBMI2": false, "hasADXandBMI2": false}},
	{"amd64, BMI2", "amd64", map[string]bool{"hasBMI2": true, "hasADXandBMI2": false}},
	{"amd64, BMI2+ADX", "amd64", map[string]bool{"hasBMI2": true, "hasADXandBMI2": true}},
	{"noasm", "noasm", nil},
}

func csidhReplay(run string) *ReplaySpec {
	return &ReplaySpec{Files: map[string]string{"dh/csidh/zz_verif_test.go": "csidh_test.go"}, Pkg: []string{"./dh/csidh"}, Tags: [][]string{{""}, {"noasm"}}, Run: run}
}

func propC09(r *Report) {
	r.Replay = csidhReplay("TestVerifField")
	p := csidhP
	pm1 := new(big.Int).Sub(p, big1)
	R := pow2(512)
	Rinv := new(big.Int).ModInverse(R, p)
	pk := "dh/csidh"
	arg := func(name string, max *big.Int, out bool) *fpArg { return &fpArg{name: name, n: 8, max: max, out: out} }
	var jobs []func()
	one := func(f *fpFn, cname, ens string) {
		nm := fmt.Sprintf("%s [%s", f.fn, cname)
		if a := aliasName(f.args, f.alias); a != "" {
			nm += "; " + a
		}
		nm += "]: " + ens
		jobs = append(jobs, func() {
			r.Ob(nm, "symbolic execution + integer-polynomial carry elimination", func() Res { return f.run(r) })
		})
	}
	rdc := func(want func(x, y *big.Int) *big.Int) func(in, out []*big.Int, _ uint64) string {
		return func(in, out []*big.Int, _ uint64) string {
			w := want(in[1], in[2])
			w.Mod(w, p)
			if w.Cmp(out[0]) != 0 {
				return fmt.Sprintf("result %#x, exact value %#x", out[0], w)
			}
			return ""
		}
	}
	mod := func(want func(b *BN, x, y *bpoly) *bpoly) func(b *BN, in, out []*bpoly, _ *T) error {
		return func(b *BN, in, out []*bpoly, _ *T) error {
			return specMod(b, out[0], want(b, in[1], in[2]), p, pm1, 12)
		}
	}
	for _, cf := range csidhCfgs {
		cf := cf
		rxy := func(m *big.Int) []*fpArg {
			return []*fpArg{arg("r", nil, true), arg("x", m, false), arg("y", m, false)}
		}
		for _, al := range aliasings(rxy(pm1)) {
			mk := func(fn string) *fpFn {
				return &fpFn{pkg: pk, fn: fn, cfg: cf.cfg, globals: cf.globals, args: rxy(pm1), alias: al, outs: []int{0}}
			}
			f := mk("addRdc")
			f.spec = mod(func(b *BN, x, y *bpoly) *bpoly { return x.add(y) })
			f.conc = rdc(func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) })
			one(f, cf.name, "x,y < p ==> r == x+y mod p, r < p")
			f = mk("subRdc")
			f.spec = mod(func(b *BN, x, y *bpoly) *bpoly { return x.sub(y) })
			f.conc = rdc(func(x, y *big.Int) *big.Int { return new(big.Int).Sub(x, y) })
			one(f, cf.name, "x,y < p ==> r == x-y mod p, r < p")
			f = mk("mulRdc")
			f.spec = mod(func(b *BN, x, y *bpoly) *bpoly { return b.mul(x, y).scale(Rinv) })
			f.conc = rdc(func(x, y *big.Int) *big.Int { z := new(big.Int).Mul(x, y); return z.Mul(z, Rinv) })
			one(f, cf.name, "x,y < p ==> r == x*y/2^512 mod p, r < p")
		}
	}
	for _, cf := range csidhCfgs {
		csidhWordObs(r, cf, &jobs)
	}
	csidhExpObs(r, &jobs)
	jobs = append(jobs, func() { csidhConsts(r) })
	Par(8, jobs...)
}

// csidhWordObs: the other word-level functions.
func csidhWordObs(r *Report, cf fpCfg, jobs *[]func()) {
	pk := "dh/csidh"
	v8 := func(name string, out bool) *fpArg { return &fpArg{name: name, n: 8, out: out} }
	add := func(f *fpFn, ens string) {
		f.pkg, f.cfg, f.globals = pk, cf.cfg, cf.globals
		nm := fmt.Sprintf("%s [%s", f.fn, cf.name)
		if a := aliasName(f.args, f.alias); a != "" {
			nm += "; " + a
		}
		nm += "]: " + ens
		*jobs = append(*jobs, func() {
			r.Ob(nm, "symbolic execution + integer-polynomial carry elimination", func() Res { return f.run(r) })
		})
	}
	m512 := new(big.Int).Sub(pow2(512), big1)
	for _, al := range [][]int{{0, 1, 2}, {0, 0, 2}} {
		f := &fpFn{fn: "mul512", args: []*fpArg{v8("r", true), v8("m1", false), {name: "m2", w: 64}}, alias: al, outs: []int{0}}
		f.spec = func(b *BN, in, out []*bpoly, _ *T) error {
			// modulo 2^512
			return specMod(b, out[0], b.mul(in[1], in[2]), pow2(512), nil, 12)
		}
		f.conc = func(in, out []*big.Int, _ uint64) string {
			w := new(big.Int).Mul(in[1], in[2])
			if w.And(w, m512).Cmp(out[0]) != 0 {
				return fmt.Sprintf("result %#x, product modulo 2^512 %#x", out[0], w)
			}
			return ""
		}
		add(f, "r == m1*m2 mod 2^512")
	}
	f := &fpFn{fn: "mul576", args: []*fpArg{{name: "r", n: 9, out: true}, v8("m1", false), {name: "m2", w: 64}}, outs: []int{0}}
	f.spec = func(b *BN, in, out []*bpoly, _ *T) error {
		return specEq(b, out[0], b.mul(in[1], in[2]), 576, 12)
	}
	f.conc = func(in, out []*big.Int, _ uint64) string {
		w := new(big.Int).Mul(in[1], in[2])
		if w.Cmp(out[0]) != 0 {
			return fmt.Sprintf("result %#x, product %#x", out[0], w)
		}
		return ""
	}
	add(f, "r == m1*m2")
	sargs := []*fpArg{v8("r", true), v8("x", false), v8("y", false)}
	for _, al := range aliasings(sargs) {
		f := &fpFn{fn: "sub512", args: sargs, alias: al, outs: []int{0}}
		f.spec = func(b *BN, in, out []*bpoly, ret *T) error {
			if ret == nil {
				return fmt.Errorf("no borrow returned")
			}
			// r - 2^512*borrow == x - y
			return specEq(b, out[0].sub(b.Val(ret).shl(512)), in[1].sub(in[2]), 0, 12)
		}
		f.conc = func(in, out []*big.Int, ret uint64) string {
			w := new(big.Int).Sub(in[1], in[2])
			bor := uint64(0)
			if w.Sign() < 0 {
				w.Add(w, pow2(512))
				bor = 1
			}
			if w.Cmp(out[0]) != 0 || bor != ret {
				return fmt.Sprintf("result %#x borrow %d, expected %#x borrow %d", out[0], ret, w, bor)
			}
			return ""
		}
		add(f, "r - 2^512*borrow == x - y")
	}
	for ch := uint64(0); ch < 2; ch++ {
		ch := ch
		for _, al := range [][]int{{0, 1, 2}, {0, 0, 2}} {
			f := &fpFn{fn: "cswap512", args: []*fpArg{v8("x", false), v8("y", false), {name: "choice", w: 8}}, alias: al, outs: []int{0, 1}, fixArg: map[int]uint64{2: ch}, limit: -1}
			f.spec = func(b *BN, in, out []*bpoly, _ *T) error {
				for i := 0; i < 2; i++ {
					if err := specEq(b, out[i], in[(uint64(i)^ch)&1], 512, 12); err != nil {
						return err
					}
				}
				return nil
			}
			f.conc = func(in, out []*big.Int, _ uint64) string {
				for i := 0; i < 2; i++ {
					if out[i].Cmp(in[(uint64(i)^ch)&1]) != 0 {
						return fmt.Sprintf("choice %d: operand %d becomes %#x", ch, i, out[i])
					}
				}
				return ""
			}
			add(f, map[uint64]string{0: "choice 0 ==> x,y unchanged", 1: "choice 1 ==> x,y exchanged"}[ch])
		}
	}
	*jobs = append(*jobs, func() { csidhPreds(r, cf) })
}

// csidhPreds: comparisons; both sides are words, the prover is the SMT solver.
func csidhPreds(r *Report, cf fpCfg) {
	type pred struct {
		fn   string
		args int
		ens  string
		want func(c *Ctx, x, y []*T) *T
		conc func(x, y *big.Int) bool
	}
	lt := func(c *Ctx, x, y []*T) *T {
		r := c.Bool(false)
		for i := 0; i < 8; i++ {
			r = c.Ite(c.Eq(x[i], y[i]), r, c.Ult(x[i], y[i]))
		}
		return r
	}
	eq := func(c *Ctx, x, y []*T) *T {
		r := c.Bool(true)
		for i := 0; i < 8; i++ {
			r = c.And(r, c.Eq(x[i], y[i]))
		}
		return r
	}
	for _, p := range []pred{
		{"isLess", 2, "result == (x < y)", lt, func(x, y *big.Int) bool { return x.Cmp(y) < 0 }},
		{"fp.isZero", 1, "result == (v == 0)", func(c *Ctx, x, y []*T) *T {
			z := make([]*T, 8)
			for i := range z {
				z[i] = c.Const(64, 0)
			}
			return eq(c, x, z)
		}, nil},
		{"fp.equal", 2, "result == (v == in)", eq, nil},
	} {
		p := p
		for _, same := range []bool{false, true} {
			if same && p.args < 2 {
				continue
			}
			nm := fmt.Sprintf("%s [%s", p.fn, cf.name)
			if same {
				nm += "; x==y"
			}
			r.Ob(nm+"]: "+p.ens, "symbolic execution + SMT", func() Res {
				x := newX(cf.cfg)
				defer x.Close()
				defer r.Merge(x)
				c := x.C
				st := x.NewState()
				for k, v := range cf.globals {
					x.setFlag(st, "dh/csidh", k, v)
				}
				vec := func(n string) ([]*T, Value) {
					ws := make([]*T, 8)
					for i := range ws {
						ws[i] = c.Var(64, fmt.Sprintf("%s[%d]", n, i))
					}
					return ws, Ptr{x.wordObj(st, n, ws), c.I(0)}
				}
				xs, xp := vec("x")
				ys, yp := xs, xp
				if !same {
					ys, yp = vec("y")
				}
				args := []Value{xp, yp}[:p.args]
				sn := snap(st)
				outs, msg := onlyRets(x.Call(st, x.P.MustFn("dh/csidh", p.fn), args...))
				if msg != "" {
					return refuted("%s", msg)
				}
				for _, q := range outs {
					if m := sn.frame(q.st); m != "" {
						return refuted("frame: %s", m)
					}
					got, ok := q.v.(*T)
					if !ok {
						return undecided("result is %T", q.v)
					}
					if got.w != 1 {
						got = c.Not(c.Eq(got, c.Const(got.w, 0)))
					}
					if z := x.proveEq(r, q.st, got, p.want(c, xs, ys), "result"); !z.OK {
						return z
					}
				}
				return okd("%d paths", len(outs))
			})
		}
	}
}

// proveEq decides the equality of two terms under the path condition; a failure is looked for by evaluation first.
func (x *Exec) proveEq(r *Report, st *State, got, want *T, what string) Res {
	if got == want {
		return Res{OK: true}
	}
	for k := uint64(0); k < 600; k++ {
		e := RandEnv(k + 1000*uint64(r.Seed))
		ok := true
		for _, p := range st.pc {
			ok = ok && e.Eval(x.C, p) == 1
		}
		if !ok {
			continue
		}
		a, b := e.Eval(x.C, got), e.Eval(x.C, want)
		if a != b {
			m := map[string]string{}
			for _, t := range reach(got, want) {
				if t.op == OVar {
					m[t.name] = fmt.Sprintf("%#x", e.Eval(x.C, t))
				}
			}
			return Res{Status: "refuted", Detail: fmt.Sprintf("%s is %#x, specified %#x, for %v", what, a, b, m), Cex: jsonStr(m)}
		}
	}
	if x.Prove(st, x.C.Eq(got, want)) {
		return Res{OK: true}
	}
	return undecided("%s: equality with the specification not proved", what)
}

// csidhLayer replaces the field arithmetic by its contracts.
func csidhLayer(x *Exec, R *Ring) *FL {
	p := csidhP
	pm1 := new(big.Int).Sub(p, big1)
	Rinv := new(big.Int).ModInverse(pow2(512), p)
	l := NewFL(x, R, iota0(8), pm1)
	pre := modPath + "/dh/csidh."
	l.bin(pre+"mulRdc", pm1, pm1, func(a, b *FE) *FE { return R.Scale(R.Mul(a, b), Rinv) })
	l.bin(pre+"addRdc", pm1, pm1, R.Add)
	l.bin(pre+"subRdc", pm1, pm1, R.Sub)
	return l
}

// csidhExpObs: exponentiation and the quadratic-residue test, over the contract of mulRdc.
func csidhExpObs(r *Report, jobs *[]func()) {
	p := csidhP
	M := pow2(512)
	for _, cf := range []fpCfg{csidhCfgs[2], csidhCfgs[3]} {
		cf := cf
		for _, fn := range []string{"modExpRdc512", "modExpRdc64"} {
			for _, same := range []bool{false, true} {
				fn, same := fn, same
				nm := fn + " [" + cf.name
				if same {
					nm += "; r==b"
				}
				*jobs = append(*jobs, func() {
					r.Ob(nm+"]: r == b^e in the Montgomery domain, for every e", "symbolic execution over field contracts", func() Res {
						x := newX(cf.cfg)
						defer x.Close()
						defer r.Merge(x)
						R := NewRing(p)
						l := csidhLayer(x, R)
						st := x.NewState()
						B := R.Var("b")
						bp := l.Obj(st, "b", R.Scale(B, M), 8)
						rp := bp
						if !same {
							rp = l.Obj(st, "r", nil, 8)
						}
						var es []*T
						var ev Value
						n := 8
						if fn == "modExpRdc64" {
							n = 1
						}
						for i := 0; i < n; i++ {
							es = append(es, x.C.Var(64, fmt.Sprintf("e[%d]", i)))
						}
						ev = es[0]
						var eo *Obj
						if n == 8 {
							eo = x.wordObj(st, "e", es)
							ev = Ptr{eo, x.C.I(0)}
						}
						sn := snap(st)
						outs, msg := onlyRets(x.Call(st, x.P.MustFn("dh/csidh", fn), rp, bp, ev))
						if msg != "" {
							return refuted("%s", msg)
						}
						want := eI(new(big.Int))
						for i, t := range es {
							want = want.add(l.bitExpo(t), pow2(uint(64*i)))
						}
						for _, q := range outs {
							if m := sn.frame(q.st, rp.obj); m != "" {
								return refuted("frame: %s", m)
							}
							got := l.Read(q.st, rp)
							w := R.Const(M)
							for k, f := range B.fs {
								w.fs = map[string]ffac{k: {f.p, want}}
							}
							if len(l.errs) > 0 {
								return refuted("%s", l.errs[0])
							}
							if z, ok := R.feDiff(got.v, w, uint64(r.Seed)); !ok {
								return z
							}
							if got.max.Cmp(l.max) > 0 {
								return undecided("result not shown to be below p")
							}
						}
						return okd("%d paths, exponent of %d bits symbolic", len(outs), 64*n)
					})
				})
			}
		}
		*jobs = append(*jobs, func() {
			r.Ob("fp.isNonQuadRes ["+cf.name+"]: 0 iff v^((p-1)/2) == 1", "symbolic execution over field contracts + SMT", func() Res {
				x := newX(cf.cfg)
				defer x.Close()
				defer r.Merge(x)
				R := NewRing(p)
				l := csidhLayer(x, R)
				st := x.NewState()
				V := R.Var("v")
				vp := l.Obj(st, "v", R.Scale(V, M), 8)
				sn := snap(st)
				outs, msg := onlyRets(x.Call(st, x.P.MustFn("dh/csidh", "fp.isNonQuadRes"), vp))
				if msg != "" {
					return refuted("%s", msg)
				}
				want := R.Scale(R.PowBig(V, new(big.Int).Rsh(new(big.Int).Sub(p, big1), 1)), M)
				for _, q := range outs {
					if m := sn.frame(q.st); m != "" {
						return refuted("frame: %s", m)
					}
					got, ok := q.v.(*T)
					if !ok {
						return undecided("result is %T", q.v)
					}
					got = l.simplify(got)
					// the words of the power, which the result compares with 1
					var pw *feVal
					for _, t := range reach(got) {
						if f := l.vars[t]; t.op == OVar && f != nil {
							if pw != nil && pw != f {
								return undecided("result depends on several field elements")
							}
							pw = f
						}
					}
					if pw == nil {
						return refuted("result does not depend on v")
					}
					if z, ok := R.feDiff(pw.v, want, uint64(r.Seed)); !ok {
						return z
					}
					one := new(big.Int).Mod(M, p)
					e := x.C.Bool(true)
					for i, t := range pw.ws {
						w := new(big.Int).And(new(big.Int).Rsh(one, uint(64*i)), bu(mask(64)))
						e = x.C.And(e, x.C.Eq(t, x.C.Const(64, w.Uint64())))
					}
					if z := x.proveEq(r, q.st, got, x.C.Ite(e, x.C.Const(got.w, 0), x.C.Const(got.w, 1)), "result"); !z.OK {
						return z
					}
				}
				return okd("%d paths", len(outs))
			})
		})
	}
}

// csidhConsts: the constants the arithmetic refers to.
func csidhConsts(r *Report) {
	p := csidhP
	M := pow2(512)
	mm := func(k int64) *big.Int {
		v := new(big.Int).Mul(big.NewInt(k), M)
		return v.Mod(v, p)
	}
	for _, cfg := range []string{"amd64", "noasm"} {
		cfg := cfg
		r.Ob("constants of the field ["+cfg+"]: p, R, 2R, -2R, 4R, (p-1)/2, p-2, -1/p, the primes, 4*sqrt(p)", "evaluation", func() Res {
			x := newX(cfg)
			defer x.Close()
			st := x.NewState()
			sq := new(big.Int).Sqrt(new(big.Int).Mul(big.NewInt(16), p))
			for _, k := range []struct {
				n string
				v *big.Int
			}{
				{"p", p}, {"one", mm(1)}, {"two", mm(2)}, {"twoNeg", mm(-2)}, {"four", mm(4)},
				{"pMin1By2", new(big.Int).Rsh(p, 1)}, {"pMin1", new(big.Int).Sub(p, big.NewInt(2))},
				{"pNegInv", new(big.Int).ModInverse(new(big.Int).Neg(p), pow2(64))}, {"fourSqrtP", sq},
			} {
				v, ok := x.globalWords(st, "dh/csidh", k.n, 0, 8)
				if !ok {
					continue // renamed or computed: its uses are checked where they occur
				}
				if v.Cmp(k.v) != 0 && !(k.n == "fourSqrtP" && new(big.Int).Sub(v, k.v).CmpAbs(big.NewInt(1<<20)) <= 0) {
					return refuted("%s is %#x, not %#x", k.n, v, k.v)
				}
			}
			v, ok := x.globalWords(st, "dh/csidh", "primes", 0, 74)
			if ok {
				for i := 0; i < 74; i++ {
					w := new(big.Int).And(new(big.Int).Rsh(v, uint(64*i)), bu(mask(64)))
					if w.Int64() != csidhPrimes[i] {
						return refuted("primes[%d] is %v, not %d", i, w, csidhPrimes[i])
					}
				}
			}
			return okd("values equal")
		})
	}
}
