package main

// C10: CSIDH curve arithmetic (points, ladder, odd-degree isogenies) over the field contracts of C09.

import (
	"fmt"
	"go/types"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C10"] = propC10 }

const csidhPkg = "dh/csidh"

// csidhValues: the field layer on values (the Montgomery factor is taken off).
func csidhValues(x *Exec, R *Ring) *FL {
	p := csidhP
	pm1 := new(big.Int).Sub(p, big1)
	Rinv := new(big.Int).ModInverse(pow2(512), p)
	R.ord = pm1
	l := NewFL(x, R, iota0(8), pm1)
	l.kcon = func(ws []*big.Int) *FE {
		v := new(big.Int)
		for i := len(ws) - 1; i >= 0; i-- {
			v.Lsh(v, 64)
			v.Or(v, ws[i])
		}
		if v.Cmp(p) >= 0 {
			return nil
		}
		return R.Const(v.Mul(v, Rinv))
	}
	pre := modPath + "/" + csidhPkg + "."
	lim := func(op func(a, b *FE) *FE) func(a, b *FE) *FE {
		return func(a, b *FE) *FE { return op(R.small(a, b)) }
	}
	l.bin(pre+"mulRdc", pm1, pm1, R.Mul)
	l.bin(pre+"addRdc", pm1, pm1, lim(R.Add))
	l.bin(pre+"subRdc", pm1, pm1, lim(R.Sub))
	if sameSig(x, csidhPkg, "modExpRdc64", 3) {
		x.H[pre+"modExpRdc64"] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
			e, ok := a[2].(*T)
			if !ok || !e.isC() {
				unsup("exponentiation with a symbolic exponent")
			}
			f := l.Read(st, a[1])
			l.pre(f, pm1, "modExpRdc64")
			l.Write(st, a[0], "pow", R.PowBig(f.v, bu(e.k)), pm1)
			return []Alt{{st: st}}
		}
	}
	if sameSig(x, csidhPkg, "modExpRdc512", 3) {
		x.H[pre+"modExpRdc512"] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
			q, off := l.ptrOff(a[2])
			e := new(big.Int)
			for i := 7; i >= 0; i-- {
				w := x.loadBits(st, q.obj, off+int64(8*i), 8)
				if !w.isC() {
					unsup("exponentiation with a symbolic exponent")
				}
				e.Lsh(e, 64)
				e.Or(e, bu(w.k))
			}
			f := l.Read(st, a[1])
			l.pre(f, pm1, "modExpRdc512")
			l.Write(st, a[0], "pow", R.PowBig(f.v, e), pm1)
			return []Alt{{st: st}}
		}
	}
	return l
}

// ---- large sums: the parts of a sum that would have to be expanded to many terms become variables

func feKey(a *FE) string {
	var ks []string
	for k, f := range a.fs {
		e, ok := f.e.con()
		if !ok {
			unsup("symbolic exponent")
		}
		ks = append(ks, fmt.Sprintf("%q^%v", k, e))
	}
	sort.Strings(ks)
	return strings.Join(ks, "*")
}

func feSize(a *FE) float64 {
	n := 1.0
	for _, f := range a.fs {
		e, ok := f.e.con()
		if !ok || e.Sign() < 0 || e.BitLen() > 12 {
			return 1e30
		}
		for i := int64(0); i < e.Int64() && n < 1e12; i++ {
			n *= float64(len(f.p.m))
			if len(f.p.m) == 1 {
				break
			}
		}
	}
	return n
}

// atom: c * variable, the variable standing for the element without its constant factor.
func (R *Ring) atom(a *FE) *FE {
	k := feKey(a)
	if R.atoms == nil {
		R.atoms, R.defs = map[string]int{}, map[int]*FE{}
	}
	v, ok := R.atoms[k]
	if !ok {
		v = R.NewVar(fmt.Sprintf("atom%d", len(R.atoms)))
		R.atoms[k] = v
		R.defs[v] = &FE{big1, a.fs}
	}
	return R.Scale(R.At(v), a.c)
}

// small prepares the operands of a sum; a common factor is kept outside.
func (R *Ring) small(a, b *FE) (*FE, *FE) {
	if a.zero() || b.zero() {
		return a, b
	}
	com, x, y := &FE{big1, map[string]ffac{}}, &FE{a.c, map[string]ffac{}}, &FE{b.c, map[string]ffac{}}
	for k, f := range a.fs {
		e, ok := f.e.con()
		d := new(big.Int)
		if g, has := b.fs[k]; has {
			var ok2 bool
			d, ok2 = g.e.con()
			ok = ok && ok2
		}
		if !ok {
			return a, b
		}
		lo := e
		if d.Cmp(e) < 0 {
			lo = d
		}
		if lo.Sign() != 0 {
			com.fs[k] = ffac{f.p, eI(lo)}
		}
		if r := new(big.Int).Sub(e, lo); r.Sign() != 0 {
			x.fs[k] = ffac{f.p, eI(r)}
		}
		if r := new(big.Int).Sub(d, lo); r.Sign() != 0 {
			y.fs[k] = ffac{f.p, eI(r)}
		}
	}
	for k, g := range b.fs {
		if _, has := a.fs[k]; !has {
			e, ok := g.e.con()
			if !ok {
				return a, b
			}
			if e.Sign() < 0 {
				com.fs[k] = g
				x.fs[k] = ffac{g.p, eI(new(big.Int).Neg(e))}
			} else {
				y.fs[k] = g
			}
		}
	}
	if feSize(x) <= 300 && feSize(y) <= 300 {
		return a, b
	}
	return R.Mul(com, R.atom(x)), R.Mul(com, R.atom(y))
}

// point picks values for all variables, those of atoms by their definition.
func (R *Ring) point(rng *rand.Rand) []*big.Int {
	at := make([]*big.Int, len(R.names))
	for i := range at {
		if d := R.defs[i]; d != nil {
			at[i] = R.Eval(d, at, nil)
		} else {
			at[i] = new(big.Int).Rand(rng, R.p)
		}
	}
	return at
}

// csEnv: one run over abstract field elements.
func newCsEnv(r *Report) *curveEnv {
	x := newX("amd64")
	R := NewRing(csidhP)
	e := &curveEnv{r: r, F: &sidhField{pkg: csidhPkg, n: 8}, x: x, R: R, st: x.NewState()}
	e.l = csidhValues(x, R)
	return e
}

var csFields = map[string][]string{"point": {"x", "z"}, "coeff": {"a", "c"}, "fp": {""}}

func (e *curveEnv) csType(typ string) types.Type { return e.x.P.Type(csidhPkg, typ) }

func (e *curveEnv) csAt(p Ptr, typ string, i int) Ptr {
	f := csFields[typ][i]
	if f == "" {
		return p
	}
	return Ptr{p.obj, e.x.C.Add(p.off, e.x.C.I(e.x.fieldOff(e.csType(typ), f)))}
}

func (e *curveEnv) csObj(typ, name string, vals ...*FE) Ptr {
	p := Ptr{e.x.NewTyped(e.st, name, e.csType(typ)), e.x.C.I(0)}
	for i, v := range vals {
		e.l.Write(e.st, e.csAt(p, typ, i), name, v, e.l.max)
	}
	return p
}

func (e *curveEnv) csElems(st *State, p Value, typ string) (a, b *FE) {
	q := p.(Ptr)
	a = e.l.Read(st, e.csAt(q, typ, 0)).v
	if len(csFields[typ]) > 1 {
		b = e.l.Read(st, e.csAt(q, typ, 1)).v
	}
	return
}

// csRange: the results are below p.
func (e *curveEnv) csRange(st *State, p Ptr, typ string) *Res {
	for i := range csFields[typ] {
		if f := e.l.Read(st, e.csAt(p, typ, i)); f.max == nil || f.max.Cmp(e.l.max) > 0 {
			z := refuted("a component of the result is not reduced")
			return &z
		}
	}
	return nil
}

// csProj: (X : Z) is the point (N : D); identities by expansion, else at random points (total degree below
// 2^20, field of 511 bits: the probability of accepting a wrong identity is below 2^-480 per point).
func (e *curveEnv) csProj(what string, X, Z, N, D *FE, units ...*FE) *Res {
	R := e.R
	rng := rand.New(rand.NewSource(int64(e.r.Seed) + 77))
	zero := true
	for k := 0; k < 3; k++ {
		at := R.point(rng)
		x, z, n, d := R.Eval(X, at, nil), R.Eval(Z, at, nil), R.Eval(N, at, nil), R.Eval(D, at, nil)
		zero = zero && x.Sign() == 0 && z.Sign() == 0
		l, q := new(big.Int).Mul(x, d), new(big.Int).Mul(z, n)
		if l.Sub(l, q).Mod(l, R.p).Sign() != 0 {
			var s []string
			for i, nm := range R.names {
				if i < 6 {
					s = append(s, fmt.Sprintf("%s=%#x", nm, at[i]))
				}
			}
			r := refuted("%s: computed (%#x : %#x), specified (%#x : %#x), at %s", what, x, z, n, d, strings.Join(s, " "))
			return &r
		}
	}
	if zero {
		r := refuted("%s: the result is (0:0)", what)
		return &r
	}
	// nowhere (0:0) except where the specification is
	for _, c := range [][2]*FE{{X, N}, {Z, D}} {
		if c[0].zero() || c[1].zero() {
			continue
		}
		lam := R.Div(c[0], c[1])
		un := map[string]bool{}
		for _, u := range units {
			for n := range u.fs {
				un[n] = true
			}
		}
		good := true
		for n := range lam.fs {
			good = good && un[n]
		}
		if good {
			return nil
		}
	}
	// sums of other shapes: the factor by evaluation
	var k0 *big.Int
	for k := 0; k < 3; k++ {
		at := R.point(rng)
		a, b := R.Eval(X, at, nil), R.Eval(N, at, nil)
		if b.Sign() == 0 {
			a, b = R.Eval(Z, at, nil), R.Eval(D, at, nil)
		}
		if b.Sign() == 0 {
			continue
		}
		q := a.Mul(a, b.ModInverse(b, R.p))
		q.Mod(q, R.p)
		if k0 == nil {
			k0 = q
		} else if k0.Cmp(q) != 0 {
			r := refuted("%s: the result is (0:0) or undefined for some operands", what)
			return &r
		}
	}
	return nil
}

func propC10(r *Report) {
	r.Replay = csidhReplay("TestVerifCurve")
	var jobs []func()
	ob := func(nm string, f func(e *curveEnv) *Res) {
		jobs = append(jobs, func() {
			r.Ob(nm, curveBE, func() Res {
				return r.orBounded(func() Res {
					e := newCsEnv(r)
					defer e.x.Close()
					defer r.Merge(e.x)
					if z := f(e); z != nil {
						return *z
					}
					return okd("%d field operations", e.l.n)
				})
			})
		})
	}
	csLadderObs(r, &jobs)
	// the degrees, large ones first
	for i := len(csidhPrimes) - 1; i >= 0; i-- {
		n := csidhPrimes[i]
		ob(fmt.Sprintf("xIso, degree %d: image of the point and of the curve coefficient", n), func(e *curveEnv) *Res { return csIso(e, n) })
	}
	csPointObs(r, ob)
	csLemmas(r, &jobs)
	Par(8, jobs...)
}

func csPointObs(r *Report, ob func(nm string, f func(e *curveEnv) *Res)) {
	ob("xAdd: x(P+Q) from x(P), x(Q), x(P-Q)", func(e *curveEnv) *Res {
		R := e.R
		v := func(s string) *FE { return R.Var(s) }
		Xp, Zp, Xq, Zq, Xd, Zd := v("P.x"), v("P.z"), v("Q.x"), v("Q.z"), v("PdQ.x"), v("PdQ.z")
		o := e.csObj("point", "PaQ", v("g"), v("h"))
		P, Q, D := e.csObj("point", "P", Xp, Zp), e.csObj("point", "Q", Xq, Zq), e.csObj("point", "PdQ", Xd, Zd)
		return e.run("xAdd", []Value{o, P, Q, D}, []Ptr{o}, func(st *State, _ Value) *Res {
			N, S := specAdd(R, Xp, Zp, Xq, Zq, Xd, Zd)
			X, Z := e.csElems(st, o, "point")
			if z := e.csRange(st, o, "point"); z != nil {
				return z
			}
			return e.csProj("x(P+Q)", X, Z, N, S)
		})
	})
	for _, same := range []bool{false, true} {
		same := same
		nm := ""
		if same {
			nm = " (result overwrites the operand)"
		}
		ob("xDbl: x([2]P) on the curve A.x/A.z"+nm, func(e *curveEnv) *Res {
			R := e.R
			v := func(s string) *FE { return R.Var(s) }
			X, Z, A, C := v("P.x"), v("P.z"), v("A.x"), v("A.z")
			P := e.csObj("point", "P", X, Z)
			o := P
			if !same {
				o = e.csObj("point", "Q", v("g"), v("h"))
			}
			return e.run("xDbl", []Value{o, P, e.csObj("point", "A", A, C)}, []Ptr{o}, func(st *State, _ Value) *Res {
				N, D := specDbl(R, X, Z, R.Add(A, R.k(2, C)), R.k(4, C))
				x, z := e.csElems(st, o, "point")
				if z := e.csRange(st, o, "point"); z != nil {
					return z
				}
				return e.csProj("x([2]P)", x, z, N, D)
			})
		})
		ob("xDblAdd: x([2]P) and x(P+Q)"+nm, func(e *curveEnv) *Res {
			R := e.R
			v := func(s string) *FE { return R.Var(s) }
			Xp, Zp, Xq, Zq, Xd, Zd, a, c := v("P.x"), v("P.z"), v("Q.x"), v("Q.z"), v("PdQ.x"), v("PdQ.z"), v("A24.a"), v("A24.c")
			P, Q, S := e.csObj("point", "P", Xp, Zp), e.csObj("point", "Q", Xq, Zq), e.csObj("point", "PdQ", Xd, Zd)
			o1, o2 := P, Q
			if !same {
				o1, o2 = e.csObj("point", "PaP", v("g"), v("h")), e.csObj("point", "PaQ", v("i"), v("j"))
			}
			return e.run("xDblAdd", []Value{o1, o2, P, Q, S, e.csObj("coeff", "A24", a, c)}, []Ptr{o1, o2}, func(st *State, _ Value) *Res {
				N, D := specDbl(R, Xp, Zp, a, c)
				x, z := e.csElems(st, o1, "point")
				if z := e.csProj("x([2]P)", x, z, N, D); z != nil {
					return z
				}
				N, D = specAdd(R, Xp, Zp, Xq, Zq, Xd, Zd)
				x, z = e.csElems(st, o2, "point")
				if z := e.csRange(st, o1, "point"); z != nil {
					return z
				}
				if z := e.csRange(st, o2, "point"); z != nil {
					return z
				}
				return e.csProj("x(P+Q)", x, z, N, D)
			})
		})
	}
	ob("montEval: x^3 + A*x^2 + x", func(e *curveEnv) *Res {
		R := e.R
		A, X := R.Var("A"), R.Var("x")
		o := e.csObj("fp", "res", R.Var("g"))
		return e.run("montEval", []Value{o, e.csObj("fp", "A", A), e.csObj("fp", "x", X)}, []Ptr{o}, func(st *State, _ Value) *Res {
			got, _ := e.csElems(st, o, "fp")
			if z := e.csRange(st, o, "fp"); z != nil {
				return z
			}
			if z, ok := R.feDiff(got, R.poly(R.Pow(X, 3), R.Mul(A, R.Sqr(X)), X), uint64(r.Seed)); !ok {
				return &z
			}
			return nil
		})
	})
	for ch := uint64(0); ch < 2; ch++ {
		ch := ch
		ob(fmt.Sprintf("cswappoint: choice %d", ch), func(e *curveEnv) *Res {
			R := e.R
			v := func(s string) *FE { return R.Var(s) }
			vs := []*FE{v("P1.x"), v("P1.z"), v("P2.x"), v("P2.z")}
			p, q := e.csObj("point", "P1", vs[0], vs[1]), e.csObj("point", "P2", vs[2], vs[3])
			e.x.H[modPath+"/"+csidhPkg+".cswap512"] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
				return cswapContract(x, st, e.l, a[0], a[1], a[2])
			}
			return e.run("cswappoint", []Value{p, q, e.x.C.Const(8, ch)}, []Ptr{p, q}, func(st *State, _ Value) *Res {
				var got []*FE
				for _, o := range []Ptr{p, q} {
					X, Z := e.csElems(st, o, "point")
					got = append(got, X, Z)
				}
				for i := range vs {
					if w := vs[(uint64(i)+2*ch)%4]; !R.Eq(got[i], w) {
						z := refuted("coordinate %d is %s, expected %s", i, R.str(got[i]), R.str(w))
						return &z
					}
				}
				return nil
			})
		})
	}
}

// ---- the ladder

// csCoord: one coordinate of a known multiple of P; id names the projective representative.
type csCoord struct {
	kind byte
	m    mlin
	id   string
}

type csLadder struct {
	e    *curveEnv
	at   map[string]csCoord
	bits *pointLayer
	A, C *FE
	n    int
}

func (l *csLadder) put(st *State, p Ptr, c csCoord) {
	l.n++
	var ws []*T
	for i := 0; i < 8; i++ {
		w := l.e.x.C.Var(64, fmt.Sprintf("pt%d.%c%d", l.n, c.kind, i))
		l.e.x.storeAt(st, p.obj, int64(p.off.k)+int64(8*i), 8, w)
		ws = append(ws, w)
	}
	l.at[wkey(ws)] = c
}

func (l *csLadder) coord(st *State, p Value) csCoord {
	q, off := l.e.l.ptrOff(p)
	if off < 0 {
		unsup("coordinate at a symbolic offset")
	}
	c, ok := l.at[wkey(l.e.l.words(st, q.obj, off))]
	if !ok {
		unsup("a coordinate that is not one of a known point")
	}
	return c
}

func (l *csLadder) putPt(st *State, p Ptr, m mlin) {
	id := fmt.Sprint(l.n)
	l.put(st, l.e.csAt(p, "point", 0), csCoord{'X', m, id})
	l.put(st, l.e.csAt(p, "point", 1), csCoord{'Z', m, id})
}

func (l *csLadder) pt(st *State, p Value) mlin {
	q := p.(Ptr)
	X, Z := l.coord(st, l.e.csAt(q, "point", 0)), l.coord(st, l.e.csAt(q, "point", 1))
	if X.kind != 'X' || Z.kind != 'Z' || X.id != Z.id || !X.m.eq(Z.m) {
		unsup("coordinates that are not those of one known point")
	}
	return X.m
}

func (l *csLadder) sum(p, q, d mlin) mlin {
	// the difference is P itself, which is neither O nor (0,0)
	if !d.eq(mlC(1)) && !d.eq(mlC(-1)) {
		unsup("addition with a difference that may be exceptional")
	}
	// a polynomial whose square is 1: plus or minus 1 for every scalar
	sign := func(m mlin) bool { return len(m) < 9 && m.mul(m).eq(mlC(1)) }
	switch {
	case sign(p.add(q, -1)):
		return p.add(q, 1)
	case sign(p.add(q, 1)):
		return p.add(q, -1)
	}
	unsup("addition of points whose difference is not known to be the third operand")
	return nil
}

func (l *csLadder) curve(what string, a, c, wa, wc *FE) {
	R := l.e.R
	if !R.Eq(R.Mul(a, wc), R.Mul(c, wa)) {
		l.e.l.errs = append(l.e.l.errs, fmt.Sprintf("%s is given the coefficient (%s : %s) instead of (%s : %s)", what, R.str(a), R.str(c), R.str(wa), R.str(wc)))
	}
}

func (l *csLadder) install() {
	e := l.e
	x, R := e.x, e.R
	pre := modPath + "/" + csidhPkg + "."
	if sameSig(x, csidhPkg, "xDbl", 3) {
		x.H[pre+"xDbl"] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
			m := l.pt(st, a[1])
			A, C := e.csElems(st, a[2], "point")
			l.curve("xDbl", A, C, l.A, l.C)
			l.putPt(st, a[0].(Ptr), m.add(m, 1))
			return []Alt{{st: st}}
		}
	}
	if sameSig(x, csidhPkg, "xAdd", 4) {
		x.H[pre+"xAdd"] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
			s := l.sum(l.pt(st, a[1]), l.pt(st, a[2]), l.pt(st, a[3]))
			l.putPt(st, a[0].(Ptr), s)
			return []Alt{{st: st}}
		}
	}
	if sameSig(x, csidhPkg, "xDblAdd", 6) {
		x.H[pre+"xDblAdd"] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
			p, q, d := l.pt(st, a[2]), l.pt(st, a[3]), l.pt(st, a[4])
			A, C := e.csElems(st, a[5], "coeff")
			l.curve("xDblAdd", A, C, R.Add(l.A, R.k(2, l.C)), R.k(4, l.C))
			s := l.sum(p, q, d)
			// proved for results that overwrite the operands in place, or separate ones
			for i, o := range []int{0, 1} {
				for j, u := range []int{2, 3, 4, 5} {
					if i != j && a[o].(Ptr).obj == a[u].(Ptr).obj && a[o].(Ptr).off == a[u].(Ptr).off {
						unsup("xDblAdd with a result over another operand")
					}
				}
			}
			l.putPt(st, a[0].(Ptr), p.add(p, 1))
			l.putPt(st, a[1].(Ptr), s)
			return []Alt{{st: st}}
		}
	}
	if sameSig(x, csidhPkg, "cswap512", 3) {
		x.H[pre+"cswap512"] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
			p, q := l.coord(st, a[0]), l.coord(st, a[1])
			c := l.bits.choice(a[2].(*T))
			if p.kind != q.kind {
				unsup("exchange of different coordinates")
			}
			d := q.m.add(p.m, -1).mul(c)
			k := fmt.Sprintf("%d", a[2].(*T).id)
			l.put(st, a[0].(Ptr), csCoord{p.kind, p.m.add(d, 1), "(" + p.id + "|" + q.id + "?" + k + ")"})
			l.put(st, a[1].(Ptr), csCoord{q.kind, q.m.add(d, -1), "(" + q.id + "|" + p.id + "?" + k + ")"})
			return []Alt{{st: st}}
		}
	}
}

// csMul runs xMul for the scalars with top bit top.
func csMul(r *Report, top int, alias bool) *Res {
	e := newCsEnv(r)
	defer e.x.Close()
	defer r.Merge(e.x)
	x, c, R := e.x, e.x.C, e.R
	x.morePaths = -3990 // a ladder that branches on the scalar's bits is not followed here
	l := &csLadder{e: e, at: map[string]csCoord{}, bits: &pointLayer{e: e, bits: map[*T]mlin{}}, A: R.Var("A"), C: R.Var("C")}
	l.install()
	P := Ptr{x.NewTyped(e.st, "P", e.csType("point")), c.I(0)}
	l.putPt(e.st, P, mlC(1))
	kP := P
	if !alias {
		kP = Ptr{x.NewTyped(e.st, "kP", e.csType("point")), c.I(0)}
		l.putPt(e.st, kP, mlBit(600)) // some other point
	}
	co := e.csObj("coeff", "co", l.A, l.C)
	want := mlC(0).add(mlC(1), 0)
	want[""] = pow2(uint(top))
	var ws []*T
	for i := 0; i < 8; i++ {
		n := top - 64*i // number of free bits of this word
		switch {
		case n < 0:
			ws = append(ws, c.Const(64, 0))
			continue
		case n > 64:
			n = 64
		}
		v := c.Var(64, fmt.Sprintf("k[%d]", i))
		for j := 0; j < n; j++ {
			l.bits.bits[c.Extract(v, uint8(j), 1)] = mlBit(64*i + j)
			want[string([]byte{byte((64*i + j) >> 8), byte(64*i + j)})] = pow2(uint(64*i + j))
		}
		switch {
		case n == 64:
			ws = append(ws, v)
		case n == 0:
			ws = append(ws, c.Const(64, 1))
		default:
			ws = append(ws, c.Concat(c.Const(uint8(64-n), 1), c.Extract(v, 0, uint8(n))))
		}
	}
	k := Ptr{x.wordObj(e.st, "k", ws), c.I(0)}
	return e.run("xMul", []Value{kP, P, co, k}, []Ptr{kP}, func(st *State, _ Value) *Res {
		g := l.pt(st, kP)
		if g.eq(want) || mlC(0).add(g, -1).eq(want) {
			return nil
		}
		z := refuted("the result is not [k]P: %s", ptDiff(ghostPt{g, mlC(0)}, ghostPt{want, mlC(0)}))
		return &z
	})
}

func csLadderObs(r *Report, jobs *[]func()) {
	for part := 0; part < 16; part++ {
		part := part
		for _, alias := range []bool{false, true} {
			alias := alias
			nm := fmt.Sprintf("xMul: kP == [k]P, scalars of %d, %d, ... %d bits", 512-part, 496-part, 16-part)
			if alias {
				nm += " (result overwrites the operand)"
			}
			*jobs = append(*jobs, func() {
				r.Ob(nm, "symbolic execution over point contracts + identities in the scalar's bits", func() Res {
					return r.orBounded(func() Res {
						for top := 511 - part; top >= 0; top -= 16 {
							if z := csMul(r, top, alias); z != nil {
								z.Detail = fmt.Sprintf("scalars of %d bits: %s", top+1, z.Detail)
								return *z
							}
						}
						return okd("32 lengths")
					})
				})
			})
		}
	}
}

// ---- isogenies

// csIso: xIso for one degree, over the contracts of xDbl and xAdd on multiples of the kernel point.
func csIso(e *curveEnv, n int64) *Res {
	R, x := e.R, e.x
	A, C, X, Z := R.Var("A"), R.Var("C"), R.Var("img.x"), R.Var("img.z")
	half := (n - 1) / 2
	type mult struct{ X, Z *FE }
	mul := make([]mult, half+1)
	known := map[string]int64{}
	key := func(X, Z *FE) string { return feKey(X) + X.c.String() + "|" + feKey(Z) + Z.c.String() }
	for i := int64(1); i <= half; i++ {
		mul[i] = mult{R.Var(fmt.Sprintf("X%d", i)), R.Var(fmt.Sprintf("Z%d", i))}
	}
	known[key(mul[1].X, mul[1].Z)] = 1
	seen := map[int64]bool{1: true}
	var units []*FE
	norm := func(m int64) int64 {
		m = ((m % n) + n) % n
		if m > half {
			m = n - m
		}
		return m
	}
	give := func(st *State, o Value, m int64) {
		p := mul[m]
		if seen[m] {
			// another representative
			u := R.Var(fmt.Sprintf("u%d", len(units)))
			units = append(units, u)
			p = mult{R.Mul(p.X, u), R.Mul(p.Z, u)}
		}
		seen[m] = true
		known[key(p.X, p.Z)] = m
		q := o.(Ptr)
		e.l.Write(st, e.csAt(q, "point", 0), "mult", p.X, e.l.max)
		e.l.Write(st, e.csAt(q, "point", 1), "mult", p.Z, e.l.max)
	}
	pre := modPath + "/" + csidhPkg + "."
	generic := func(st *State, o Value, N, D *FE) {
		u := R.Var(fmt.Sprintf("u%d", len(units)))
		units = append(units, u)
		q := o.(Ptr)
		e.l.Write(st, e.csAt(q, "point", 0), "pt", R.Mul(N, u), e.l.max)
		e.l.Write(st, e.csAt(q, "point", 1), "pt", R.Mul(D, u), e.l.max)
	}
	if sameSig(x, csidhPkg, "xDbl", 3) {
		x.H[pre+"xDbl"] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
			px, pz := e.csElems(st, a[1], "point")
			ca, cc := e.csElems(st, a[2], "point")
			m, ok := known[key(px, pz)]
			if ok && R.Eq(R.Mul(ca, C), R.Mul(cc, A)) {
				give(st, a[0], norm(2*m))
				return []Alt{{st: st}}
			}
			if ok {
				e.l.errs = append(e.l.errs, fmt.Sprintf("xDbl on a multiple of the kernel point is given the coefficient (%s : %s)", R.str(ca), R.str(cc)))
			}
			N, D := specDbl(R, px, pz, R.Add(ca, R.k(2, cc)), R.k(4, cc))
			generic(st, a[0], N, D)
			return []Alt{{st: st}}
		}
	}
	add := func(st *State, o Value, px, pz, qx, qz, dx, dz *FE) {
		p, ok1 := known[key(px, pz)]
		q, ok2 := known[key(qx, qz)]
		d, ok3 := known[key(dx, dz)]
		if !ok1 || !ok2 || !ok3 {
			N, D := specAdd(R, px, pz, qx, qz, dx, dz)
			generic(st, o, N, D)
			return
		}
		var s int64
		switch d {
		case norm(p - q):
			s = norm(p + q)
		case norm(p + q):
			s = norm(p - q)
		default:
			e.l.errs = append(e.l.errs, fmt.Sprintf("degree %d: differential addition of [%d]K and [%d]K is given [%d]K as the difference", n, p, q, d))
			N, D := specAdd(R, px, pz, qx, qz, dx, dz)
			generic(st, o, N, D)
			return
		}
		if s == 0 {
			unsup("a multiple of the kernel point that is O")
		}
		give(st, o, s)
	}
	if sameSig(x, csidhPkg, "xAdd", 4) {
		x.H[pre+"xAdd"] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
			px, pz := e.csElems(st, a[1], "point")
			qx, qz := e.csElems(st, a[2], "point")
			dx, dz := e.csElems(st, a[3], "point")
			add(st, a[0], px, pz, qx, qz, dx, dz)
			return []Alt{{st: st}}
		}
	}
	img, co := e.csObj("point", "img", X, Z), e.csObj("coeff", "co", A, C)
	kern := e.csObj("point", "kern", mul[1].X, mul[1].Z)
	return e.run("xIso", []Value{img, co, kern, x.C.Const(64, uint64(n))}, []Ptr{img, co}, func(st *State, _ Value) *Res {
		// the image: X prod(X X_i - Z Z_i)^2 : Z prod(X Z_i - Z X_i)^2
		N, D := X, Z
		pa, pc := R.Int(1), R.Int(1)
		for i := int64(1); i <= half; i++ {
			m := mul[i]
			N = R.Mul(N, R.Sqr(R.Sub(R.Mul(X, m.X), R.Mul(Z, m.Z))))
			D = R.Mul(D, R.Sqr(R.Sub(R.Mul(X, m.Z), R.Mul(Z, m.X))))
			pa = R.Mul(pa, R.Add(m.X, m.Z))
			pc = R.Mul(pc, R.Sub(m.X, m.Z))
		}
		un := append([]*FE(nil), units...)
		x, z := e.csElems(st, img, "point")
		if z := e.csRange(st, img, "point"); z != nil {
			return z
		}
		if z := e.csProj("image of the point", x, z, N, D, un...); z != nil {
			return z
		}
		// the codomain: A'+2C' : A'-2C' = (A+2C)^n prod(X_i+Z_i)^8 : (A-2C)^n prod(X_i-Z_i)^8
		a := R.Mul(R.Pow(R.Add(A, R.k(2, C)), n), R.Pow(pa, 8))
		d := R.Mul(R.Pow(R.Sub(A, R.k(2, C)), n), R.Pow(pc, 8))
		u, v := R.small(a, d)
		cN, cD := R.k(2, R.Add(u, v)), R.Sub(u, v)
		ca, cc := e.csElems(st, co, "coeff")
		if z := e.csRange(st, co, "coeff"); z != nil {
			return z
		}
		return e.csProj("coefficient of the image curve", ca, cc, cN, cD, un...)
	})
}

// ---- lemmas

// csWalk: arithmetic on numbers.
type csNum struct{ p *big.Int }

func (f csNum) mod(a *big.Int) *big.Int    { return a.Mod(a, f.p) }
func (f csNum) n(v int64) *big.Int         { return f.mod(big.NewInt(v)) }
func (f csNum) add(a, b *big.Int) *big.Int { return f.mod(new(big.Int).Add(a, b)) }
func (f csNum) sub(a, b *big.Int) *big.Int { return f.mod(new(big.Int).Sub(a, b)) }
func (f csNum) mul(as ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, a := range as {
		r.Mul(r, a).Mod(r, f.p)
	}
	return r
}
func (f csNum) inv(a *big.Int) *big.Int { return new(big.Int).ModInverse(a, f.p) }
func (f csNum) rhs(x, A *big.Int) *big.Int {
	return f.mul(x, f.add(f.mul(x, f.add(x, A)), f.n(1)))
}

type csPt struct{ x, z *big.Int }

func (f csNum) dbl(P csPt, A *big.Int) csPt {
	s, d := f.add(P.x, P.z), f.sub(P.x, P.z)
	s, d = f.mul(s, s), f.mul(d, d)
	t := f.sub(s, d) // 4xz
	return csPt{f.mul(f.n(4), s, d), f.mul(t, f.add(f.mul(f.n(4), d), f.mul(f.add(A, f.n(2)), t)))}
}
func (f csNum) add3(P, Q, D csPt) csPt {
	u := f.sub(f.mul(P.x, Q.x), f.mul(P.z, Q.z))
	v := f.sub(f.mul(P.x, Q.z), f.mul(P.z, Q.x))
	return csPt{f.mul(D.z, u, u), f.mul(D.x, v, v)}
}
func (f csNum) smul(k *big.Int, P csPt, A *big.Int) csPt {
	a, b := P, f.dbl(P, A)
	for i := k.BitLen() - 2; i >= 0; i-- {
		s := f.add3(a, b, P)
		if k.Bit(i) == 0 {
			a, b = f.dbl(a, A), s
		} else {
			a, b = s, f.dbl(b, A)
		}
	}
	return a
}

// kernel: the x-coordinates of K, 2K, ..., (l-1)/2 K for a random point K of order l, on a
// supersingular curve.
func (f csNum) kernel(l int64, A *big.Int, rng *rand.Rand) (xs []*big.Int, err error) {
	n := new(big.Int).Add(f.p, big1)
	n.Div(n, big.NewInt(l))
	for try := 0; try < 100; try++ {
		x := new(big.Int).Rand(rng, f.p)
		K := f.smul(n, csPt{x, f.n(1)}, A)
		if K.z.Sign() == 0 {
			continue
		}
		if O := f.smul(big.NewInt(l), K, A); O.z.Sign() != 0 {
			return nil, fmt.Errorf("the order of a point does not divide p+1")
		}
		k := csPt{f.mul(K.x, f.inv(K.z)), f.n(1)}
		ps := []csPt{k, f.dbl(k, A)}
		for int64(len(ps)) < (l-1)/2 {
			ps = append(ps, f.add3(ps[len(ps)-1], k, ps[len(ps)-2]))
		}
		for _, q := range ps[:(l-1)/2] {
			xs = append(xs, f.mul(q.x, f.inv(q.z)))
		}
		return xs, nil
	}
	return nil, fmt.Errorf("no point of order %d found", l)
}

func (f csNum) codomain(l int64, A *big.Int, xs []*big.Int) *big.Int {
	a, d := f.n(1), f.n(1)
	for _, x := range xs {
		a, d = f.mul(a, f.add(x, f.n(1))), f.mul(d, f.sub(x, f.n(1)))
	}
	e := func(b *big.Int, k int64) *big.Int { return new(big.Int).Exp(b, big.NewInt(k), f.p) }
	a = f.mul(e(f.add(A, f.n(2)), l), e(a, 8))
	d = f.mul(e(f.sub(A, f.n(2)), l), e(d, 8))
	return f.mul(f.n(2), f.add(a, d), f.inv(f.sub(a, d)))
}

// isIsogeny: x -> x prod((x x_i-1)/(x-x_i))^2 with the y-coordinate multiplied by a constant times its derivative
// maps E_A to E_A2, checked at random points: a rational identity of degree below 10^4.
func (f csNum) isIsogeny(A, A2 *big.Int, xs []*big.Int, rng *rand.Rand) bool {
	var kap *big.Int
	for k := 0; k < 3; k++ {
		x := new(big.Int).Rand(rng, f.p)
		ph, ld := x, f.inv(x)
		for _, xi := range xs {
			u, v := f.sub(f.mul(x, xi), f.n(1)), f.sub(x, xi)
			q := f.mul(u, f.inv(v))
			ph = f.mul(ph, q, q)
			ld = f.add(ld, f.mul(f.n(2), f.sub(f.mul(xi, f.inv(u)), f.inv(v))))
		}
		d := f.mul(ph, ld)
		q := f.mul(f.rhs(ph, A2), f.inv(f.mul(f.rhs(x, A), d, d)))
		if kap == nil {
			kap = q
		} else if kap.Cmp(q) != 0 {
			return false
		}
	}
	return kap.Sign() != 0
}

func csLemmas(r *Report, jobs *[]func()) {
	*jobs = append(*jobs, func() {
		groupLawLemmas(r, csidhP)
		lem := func(nm string, f func(R *Ring) bool) {
			r.Ob("lemma: "+nm, "polynomial identity", func() Res {
				if !f(NewRing(csidhP)) {
					return refuted("the identity does not hold")
				}
				return ok()
			})
		}
		lem("differential addition is right when an operand is O or (0,0), and when the sum is O", func(R *Ring) bool {
			x, z, m, A := R.Var("x"), R.Var("z"), R.Var("m"), R.Var("A")
			O := R.Int(0)
			// P + O with difference P
			N, D := specAdd(R, x, z, m, O, x, z)
			if !R.Eq(R.Mul(N, z), R.Mul(D, x)) {
				return false
			}
			// P + (0,0) = (1/x, ...), and so is the difference
			N, D = specAdd(R, x, z, O, m, z, x)
			if !R.Eq(R.Mul(N, x), R.Mul(D, z)) {
				return false
			}
			// P + (-P) with difference 2P
			N, D = specDbl(R, x, z, R.Add(A, R.Int(2)), R.Int(4))
			N, D = specAdd(R, x, z, x, z, N, D)
			return D.zero() && !N.zero()
		})
		lem("multiples of O: doubling and addition keep Z = 0", func(R *Ring) bool {
			a, b, d, A, C := R.Var("a"), R.Var("b"), R.Var("d"), R.Var("A"), R.Var("C")
			O := R.Int(0)
			_, D := specDbl(R, a, O, A, C)
			_, D2 := specAdd(R, a, O, b, O, d, O)
			return D.zero() && D2.zero()
		})
	})
	*jobs = append(*jobs, func() {
		r.Ob("lemma: for every degree the codomain and image formulas are an isogeny with kernel <K>, on a random supersingular curve", "evaluation (polynomial identity testing)", func() Res {
			f := csNum{csidhP}
			rng := rand.New(rand.NewSource(int64(r.Seed) + 5))
			A := f.n(0)
			step := func(l int64) error {
				xs, err := f.kernel(l, A, rng)
				if err != nil {
					return err
				}
				A2 := f.codomain(l, A, xs)
				if !f.isIsogeny(A, A2, xs, rng) {
					return fmt.Errorf("degree %d: not an isogeny", l)
				}
				A = A2
				return nil
			}
			for _, l := range csidhPrimes {
				if err := step(l); err != nil {
					return refuted("%v", err)
				}
			}
			for _, l := range csidhPrimes {
				if err := step(l); err != nil {
					return refuted("%v", err)
				}
			}
			return okd("%d degrees, two rounds", len(csidhPrimes))
		})
	})
}
