package main

// C15: point and isogeny formulas on Montgomery curves over GF(p^2).

import (
	"fmt"
	"go/types"
	"math/big"
	"math/rand"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C15"] = propC15 }

// curveEnv: one run of a function over abstract field elements.
type curveEnv struct {
	r  *Report
	F  *sidhField
	x  *Exec
	R  *Ring
	l  *FL
	st *State
	sn snapshot
}

func newCurveEnv(r *Report, F *sidhField) *curveEnv {
	x := newX("amd64")
	R := NewRing(F.p)
	l := fp2Layer(x, R, F, "")
	return &curveEnv{r: r, F: F, x: x, R: R, l: l, st: x.NewState()}
}

func (e *curveEnv) common(typ string) types.Type {
	return e.x.P.Type("dh/sidh/common", typ)
}

var curveFields = map[string][]string{"ProjectivePoint": {"X", "Z"}, "CurveCoefficientsEquiv": {"A", "C"}, "ProjectiveCurveParameters": {"A", "C"}, "Fp2": {""}}

// obj makes an object of a type of package common holding elements.
func (e *curveEnv) obj(typ, name string, vals ...*FE) Ptr {
	T := e.common(typ)
	o := e.x.NewTyped(e.st, name, T)
	for i, v := range vals {
		e.l.Write(e.st, e.at(Ptr{o, e.x.C.I(0)}, typ, i), name, v, e.l.max)
	}
	return Ptr{o, e.x.C.I(0)}
}

func (e *curveEnv) at(p Ptr, typ string, i int) Ptr {
	f := curveFields[typ][i]
	if f == "" {
		return p
	}
	return Ptr{p.obj, e.x.C.Add(p.off, e.x.C.I(e.x.fieldOff(e.common(typ), f)))}
}

// elems reads the elements of an object, checking the padding.
func (e *curveEnv) elems(st *State, p Ptr, typ string) (vs []*FE, bad string) {
	for i := range curveFields[typ] {
		q := e.at(p, typ, i)
		f := e.l.Read(st, q)
		if e.l.max != nil && (f.max == nil || f.max.Cmp(e.l.max) > 0) {
			return nil, "a component leaves the range [0, 2p)"
		}
		for h := 0; h < 2; h++ {
			for k := e.F.n; k < fpMaxWords; k++ {
				if !e.x.loadBits(st, q.obj, int64(q.off.k)+int64(8*(h*fpMaxWords+k)), 8).isCV(0) {
					return nil, "the words beyond the element are not left at zero"
				}
			}
		}
		vs = append(vs, f.v)
	}
	return vs, ""
}

// result reads a struct result.
func (e *curveEnv) result(st *State, v Value, typ string) ([]*FE, string) {
	T := e.common(typ)
	o := e.x.NewTyped(st, "result", T)
	e.x.store(st, Ptr{o, e.x.C.I(0)}, T, v)
	return e.elems(st, Ptr{o, e.x.C.I(0)}, typ)
}

// run executes fn on every path; only the objects in assigns may change.
func (e *curveEnv) run(fn string, args []Value, assigns []Ptr, check func(st *State, v Value) *Res) *Res {
	f := e.x.P.Fn(e.F.pkg, fn)
	if f == nil {
		return &Res{OK: true, Detail: "no such function: its code is checked where it is used"}
	}
	if len(f.Params) != len(args) {
		z := undecided("%s has another signature", fn)
		return &z
	}
	e.sn = snap(e.st)
	qs, msg := onlyRets(e.x.Call(e.st, f, args...))
	if msg != "" {
		z := refuted("%s", msg)
		return &z
	}
	var os []*Obj
	for _, p := range assigns {
		os = append(os, p.obj)
	}
	for _, q := range qs {
		if m := e.sn.frame(q.st, os...); m != "" {
			z := refuted("frame: %s", m)
			return &z
		}
		if len(e.l.errs) > 0 {
			z := refuted("%s", e.l.errs[0])
			return &z
		}
		if z := check(q.st, q.v); z != nil {
			return z
		}
	}
	return nil
}

// projEq: (X : Z) is the point (N : D), up to a factor made of the given nonzero elements.
func (R *Ring) projEq(what string, X, Z, N, D *FE, seed int64, units ...*FE) *Res {
	if z, ok := R.feDiff(R.Mul(X, D), R.Mul(Z, N), uint64(seed)); !ok {
		z.Detail = what + ", cross product: " + z.Detail
		return &z
	}
	rng := rand.New(rand.NewSource(seed + 11))
	at := make([]*big.Int, len(R.names))
	for i := range at {
		at[i] = new(big.Int).Rand(rng, R.p)
	}
	a, b := X, N
	if N.zero() {
		a, b = Z, D
	}
	va, vb := R.Eval(a, at, nil), R.Eval(b, at, nil)
	if va.Sign() == 0 || vb.Sign() == 0 {
		z := refuted("%s: (%s : %s) is not a point", what, R.str(X), R.str(Z))
		return &z
	}
	k := va.Mul(va, vb.ModInverse(vb, R.p))
	k.Mod(k, R.p)
	if R.Eq(X, R.Scale(N, k)) && R.Eq(Z, R.Scale(D, k)) {
		return nil
	}
	lam := R.Div(a, b)
	un := map[string]bool{}
	for _, u := range units {
		for n := range u.fs {
			un[n] = true
		}
	}
	for n, f := range lam.fs {
		if !un[n] {
			z := refuted("%s: the result is (0:0) or undefined where %s is zero", what, R.pstr(f.p))
			return &z
		}
	}
	return nil
}

func (R *Ring) poly(ts ...*FE) *FE {
	s := R.Int(0)
	for _, t := range ts {
		s = R.Add(s, t)
	}
	return s
}
func (R *Ring) prod(ts ...*FE) *FE {
	s := R.Int(1)
	for _, t := range ts {
		s = R.Mul(s, t)
	}
	return s
}
func (R *Ring) k(n int64, t *FE) *FE { return R.Scale(t, new(big.Int).Mod(big.NewInt(n), R.p)) }

// specDbl: (N : D) of [2](X : Z) on the curve with (A+2C : 4C) = (a : c).
func specDbl(R *Ring, X, Z, a, c *FE) (N, D *FE) {
	s, m := R.Sqr(R.Add(X, Z)), R.Sqr(R.Sub(X, Z))
	xz := R.k(4, R.Mul(X, Z))
	return R.prod(c, s, m), R.Mul(xz, R.Add(R.Mul(c, m), R.Mul(a, xz)))
}

// specAdd: x(P+Q) from x(P), x(Q), x(P-Q).
func specAdd(R *Ring, Xp, Zp, Xq, Zq, Xd, Zd *FE) (N, D *FE) {
	return R.Mul(Zd, R.Sqr(R.Sub(R.Mul(Xp, Xq), R.Mul(Zp, Zq)))), R.Mul(Xd, R.Sqr(R.Sub(R.Mul(Xp, Zq), R.Mul(Zp, Xq))))
}

// specTpl: [3](X : Z) on the curve with (A+2C : A-2C) = (a : c).
func specTpl(R *Ring, X, Z, a, c *FE) (N, D *FE) {
	A, C := R.k(2, R.Add(a, c)), R.Sub(a, c) // A = a'/c' scaled
	p := func(i, j int64) *FE { return R.Mul(R.Pow(X, i), R.Pow(Z, j)) }
	u := R.poly(R.Mul(C, p(4, 0)), R.k(-6, R.Mul(C, p(2, 2))), R.k(-4, R.Mul(A, p(1, 3))), R.k(-3, R.Mul(C, p(0, 4))))
	v := R.poly(R.k(3, R.Mul(C, p(4, 0))), R.k(4, R.Mul(A, p(3, 1))), R.k(6, R.Mul(C, p(2, 2))), R.k(-1, R.Mul(C, p(0, 4))))
	return R.Mul(X, R.Sqr(u)), R.Mul(Z, R.Sqr(v))
}

// specIso3: image of (X : Z) under the isogeny with kernel <(X3 : Z3)> of order 3, and (A'+2C' : A'-2C').
func specIso3(R *Ring, X, Z, X3, Z3 *FE) (N, D *FE) {
	return R.Mul(X, R.Sqr(R.Sub(R.Mul(X, X3), R.Mul(Z, Z3)))), R.Mul(Z, R.Sqr(R.Sub(R.Mul(X, Z3), R.Mul(Z, X3))))
}
func specIso3Curve(R *Ring, X, Z *FE) (a, c *FE) {
	p := func(k, i, j int64) *FE { return R.k(k, R.Mul(R.Pow(X, i), R.Pow(Z, j))) }
	return R.poly(p(1, 0, 4), p(8, 1, 3), p(18, 2, 2), p(-27, 4, 0)), R.poly(p(1, 0, 4), p(-8, 1, 3), p(18, 2, 2), p(-27, 4, 0))
}

// specIso4: the same for a kernel point of order 4 (not above (0,0)); the curve is (A'+2C' : 4C').
func specIso4(R *Ring, X, Z, X4, Z4 *FE) (N, D *FE) {
	s := R.Add(R.Sqr(X4), R.Sqr(Z4))
	xz := R.k(2, R.Mul(X4, Z4))
	n := R.prod(X, R.Sqr(R.Sub(R.Mul(X, X4), R.Mul(Z, Z4))), R.Sub(R.Mul(Z, xz), R.Mul(X, s)))
	d := R.prod(Z, R.Sqr(R.Sub(R.Mul(X, Z4), R.Mul(Z, X4))), R.Sub(R.Mul(X, xz), R.Mul(Z, s)))
	return n, d
}
func specIso4Curve(R *Ring, X, Z *FE) (a, c *FE) { return R.Pow(X, 4), R.Pow(Z, 4) }

const curveBE = "symbolic execution over field contracts + polynomial identity"

func propC15(r *Report) {
	r.Replay = sidhReplay("TestVerifCurve")
	var jobs []func()
	for _, F := range sidhFields {
		F := F
		ob := func(nm string, f func(e *curveEnv) *Res) {
			jobs = append(jobs, func() {
				r.Ob("p"+F.name+"."+nm, curveBE, func() Res {
					e := newCurveEnv(r, F)
					defer e.x.Close()
					defer r.Merge(e.x)
					if z := f(e); z != nil {
						return *z
					}
					return okd("%d field operations", e.l.n)
				})
			})
		}
		sidhCurveObs(r, F, ob)
		ob("Pow2k: for every k, *xP == [2^k]xP", func(e *curveEnv) *Res { return sidhPow(e, "Pow2k", specDbl) })
		ob("Pow3k: for every k, *xP == [3^k]xP", func(e *curveEnv) *Res { return sidhPow(e, "Pow3k", specTpl) })
		for _, v := range []string{"A", "B"} {
			v := v
			ob("ScalarMul3Pt, scalars of the "+v+" torsion: x(P+[k]Q)", func(e *curveEnv) *Res { return sidhLadder(e, v) })
		}
	}
	jobs = append(jobs, func() { curveLemmas(r) })
	Par(8, jobs...)
}

func sidhCurveObs(r *Report, F *sidhField, ob func(nm string, f func(e *curveEnv) *Res)) {
	bad := func(m string) *Res {
		if m == "" {
			return nil
		}
		z := refuted("%s", m)
		return &z
	}
	exact := func(e *curveEnv, what string, got, want *FE) *Res {
		if z, ok := e.R.feDiff(got, want, uint64(r.Seed)); !ok {
			z.Detail = what + ": " + z.Detail
			return &z
		}
		return nil
	}
	// conversions between curve representations
	ob("CalcCurveParamsEquiv4: (A+2C : 4C)", func(e *curveEnv) *Res {
		R := e.R
		A, C := R.Var("A"), R.Var("C")
		p := e.obj("ProjectiveCurveParameters", "cparams", A, C)
		return e.run("CalcCurveParamsEquiv4", []Value{p}, nil, func(st *State, v Value) *Res {
			g, m := e.result(st, v, "CurveCoefficientsEquiv")
			if z := bad(m); z != nil {
				return z
			}
			return R.projEq("(A24 : C24)", g[0], g[1], R.Add(A, R.k(2, C)), R.k(4, C), r.Seed, C)
		})
	})
	ob("CalcCurveParamsEquiv3: (A+2C : A-2C)", func(e *curveEnv) *Res {
		R := e.R
		A, C := R.Var("A"), R.Var("C")
		p := e.obj("ProjectiveCurveParameters", "cparams", A, C)
		return e.run("CalcCurveParamsEquiv3", []Value{p}, nil, func(st *State, v Value) *Res {
			g, m := e.result(st, v, "CurveCoefficientsEquiv")
			if z := bad(m); z != nil {
				return z
			}
			return R.projEq("(A24+ : A24-)", g[0], g[1], R.Add(A, R.k(2, C)), R.Sub(A, R.k(2, C)), r.Seed, C)
		})
	})
	ob("CalcAplus2Over4: (A+2C)/4C", func(e *curveEnv) *Res {
		R := e.R
		A, C := R.Var("A"), R.Var("C")
		p := e.obj("ProjectiveCurveParameters", "cparams", A, C)
		return e.run("CalcAplus2Over4", []Value{p}, nil, func(st *State, v Value) *Res {
			g, m := e.result(st, v, "Fp2")
			if z := bad(m); z != nil {
				return z
			}
			return exact(e, "result", g[0], R.Div(R.Add(A, R.k(2, C)), R.k(4, C)))
		})
	})
	for _, k := range []int{3, 4} {
		k := k
		ob(fmt.Sprintf("RecoverCurveCoefficients%d: the (A : C) of the equivalent pair", k), func(e *curveEnv) *Res {
			R := e.R
			A, C := R.Var("A"), R.Var("C")
			a, c := R.Add(A, R.k(2, C)), R.k(4, C)
			if k == 3 {
				c = R.Sub(A, R.k(2, C))
			}
			p := e.obj("ProjectiveCurveParameters", "cparams", R.Var("oldA"), R.Var("oldC"))
			q := e.obj("CurveCoefficientsEquiv", "coefEq", a, c)
			return e.run(fmt.Sprintf("RecoverCurveCoefficients%d", k), []Value{p, q}, []Ptr{p}, func(st *State, v Value) *Res {
				g, m := e.elems(st, p, "ProjectiveCurveParameters")
				if z := bad(m); z != nil {
					return z
				}
				return R.projEq("(A : C)", g[0], g[1], A, C, r.Seed, C)
			})
		})
	}
	ob("Jinvariant: 256(A^2-3C^2)^3 / C^4(A^2-4C^2)", func(e *curveEnv) *Res {
		R := e.R
		A, C := R.Var("A"), R.Var("C")
		p := e.obj("ProjectiveCurveParameters", "cparams", A, C)
		j := e.obj("Fp2", "j", R.Var("oldj"))
		return e.run("Jinvariant", []Value{p, j}, []Ptr{j}, func(st *State, v Value) *Res {
			g, m := e.elems(st, j, "Fp2")
			if z := bad(m); z != nil {
				return z
			}
			A2, C2 := R.Sqr(A), R.Sqr(C)
			return exact(e, "j", g[0], R.k(256, R.Div(R.Pow(R.Sub(A2, R.k(3, C2)), 3), R.Mul(R.Sqr(C2), R.Sub(A2, R.k(4, C2))))))
		})
	})
	ob("RecoverCoordinateA: A of the curve through P, Q, P-Q", func(e *curveEnv) *Res {
		R := e.R
		oldC := R.Var("oldC")
		p := e.obj("ProjectiveCurveParameters", "curve", R.Var("oldA"), oldC)
		a, b, c := R.Var("xP"), R.Var("xQ"), R.Var("xR")
		pa, pb, pc := e.obj("Fp2", "xp", a), e.obj("Fp2", "xq", b), e.obj("Fp2", "xr", c)
		return e.run("RecoverCoordinateA", []Value{p, pa, pb, pc}, []Ptr{p}, func(st *State, v Value) *Res {
			g, m := e.elems(st, p, "ProjectiveCurveParameters")
			if z := bad(m); z != nil {
				return z
			}
			if z := exact(e, "A", g[0], specRecoverA(R, a, b, c)); z != nil {
				return z
			}
			return exact(e, "C", g[1], oldC)
		})
	})
	// group law
	ob("xDbladd: [2]P and P+Q from P, Q, Q-P, (A+2C)/4C", func(e *curveEnv) *Res {
		R := e.R
		v := func(s string) *FE { return R.Var(s) }
		Xp, Zp, Xq, Zq, Xd, Zd, a := v("Xp"), v("Zp"), v("Xq"), v("Zq"), v("Xd"), v("Zd"), v("a24")
		p, q, d := e.obj("ProjectivePoint", "P", Xp, Zp), e.obj("ProjectivePoint", "Q", Xq, Zq), e.obj("ProjectivePoint", "QmP", Xd, Zd)
		return e.run("xDbladd", []Value{p, q, d, e.obj("Fp2", "a24", a)}, nil, func(st *State, v Value) *Res {
			t, ok := v.(Tuple)
			if !ok || len(t) != 2 {
				z := undecided("results of another shape")
				return &z
			}
			g, m := e.result(st, t[0], "ProjectivePoint")
			if z := bad(m); z != nil {
				return z
			}
			N, D := specDbl(R, Xp, Zp, a, R.Int(1))
			if z := R.projEq("[2]P", g[0], g[1], N, D, r.Seed); z != nil {
				return z
			}
			if g, m = e.result(st, t[1], "ProjectivePoint"); m != "" {
				return bad(m)
			}
			N, D = specAdd(R, Xp, Zp, Xq, Zq, Xd, Zd)
			return R.projEq("P+Q", g[0], g[1], N, D, r.Seed)
		})
	})
	// isogenies
	for _, k := range []int{3, 4} {
		k := k
		ty := fmt.Sprintf("isogeny%d", k)
		cur, img := specIso3Curve, specIso3
		if k == 4 {
			cur, img = specIso4Curve, specIso4
		}
		ob(ty+": GenerateCurve gives the codomain, EvaluatePoint the image of every point", func(e *curveEnv) *Res {
			R, x := e.R, e.x
			if x.P.Fn(F.pkg, ty+".GenerateCurve") == nil || x.P.Fn(F.pkg, ty+".EvaluatePoint") == nil {
				return &Res{OK: true, Detail: "no such function: its code is checked where it is used"}
			}
			T := x.P.Type(F.pkg, ty)
			Xk, Zk, X, Z := R.Var("Xk"), R.Var("Zk"), R.Var("X"), R.Var("Z")
			phi := Ptr{x.NewTyped(e.st, "phi", T), x.C.I(0)}
			// any previous content
			for i := int64(0); i < x.sizeof(T)/(16*fpMaxWords); i++ {
				e.l.Write(e.st, Ptr{phi.obj, x.C.I(16 * fpMaxWords * i)}, "old", R.Var(fmt.Sprintf("old%d", i)), e.l.max)
			}
			kp := e.obj("ProjectivePoint", "kernel", Xk, Zk)
			done := false
			z := e.run(ty+".GenerateCurve", []Value{phi, kp}, []Ptr{phi}, func(st *State, v Value) *Res {
				g, m := e.result(st, v, "CurveCoefficientsEquiv")
				if z := bad(m); z != nil {
					return z
				}
				a, c := cur(R, Xk, Zk)
				if z := R.projEq("codomain", g[0], g[1], a, c, r.Seed); z != nil {
					return z
				}
				// the constants serve any point
				f := *e
				f.st = st
				p := f.obj("ProjectivePoint", "p", X, Z)
				return f.run(ty+".EvaluatePoint", []Value{phi, p}, nil, func(st *State, v Value) *Res {
					done = true
					g, m := e.result(st, v, "ProjectivePoint")
					if z := bad(m); z != nil {
						return z
					}
					N, D := img(R, X, Z, Xk, Zk)
					return R.projEq("image", g[0], g[1], N, D, r.Seed)
				})
			})
			if z == nil && !done {
				return &Res{OK: true, Detail: "no such function: its code is checked where it is used"}
			}
			return z
		})
	}
}

func specRecoverA(R *Ring, a, b, c *FE) *FE {
	ab, ac, bc := R.Mul(a, b), R.Mul(a, c), R.Mul(b, c)
	n := R.Sqr(R.poly(R.Int(1), R.k(-1, ab), R.k(-1, ac), R.k(-1, bc)))
	return R.poly(R.Div(n, R.k(4, R.Mul(ab, c))), R.k(-1, a), R.k(-1, b), R.k(-1, c))
}

// groupLawLemmas: doubling and differential addition are the group law.
func groupLawLemmas(r *Report, p *big.Int) {
	lem := func(nm string, f func(R *Ring) bool) {
		r.Ob("lemma: "+nm, "polynomial identity modulo the curve equation", func() Res {
			if !f(NewRing(p)) {
				return refuted("the identity does not hold")
			}
			return ok()
		})
	}
	// a point (x, y) on y^2 = x^3 + A x^2 + x
	pt := func(R *Ring, n string, A *FE) (x, y *FE) {
		x = R.Var("x" + n)
		v := R.NewVar("y" + n)
		R.rels[v] = R.expand(R.poly(R.Pow(x, 3), R.Mul(A, R.Sqr(x)), x))
		return x, R.At(v)
	}
	dbl := func(R *Ring, x, y, A *FE) *FE {
		l := R.Div(R.poly(R.k(3, R.Sqr(x)), R.k(2, R.Mul(A, x)), R.Int(1)), R.k(2, y))
		return R.poly(R.Sqr(l), R.k(-1, A), R.k(-2, x))
	}
	sum := func(R *Ring, x1, y1, x2, y2, A *FE) *FE {
		l := R.Div(R.Sub(y1, y2), R.Sub(x1, x2))
		return R.poly(R.Sqr(l), R.k(-1, A), R.k(-1, x1), R.k(-1, x2))
	}
	lem("doubling formula is the chord-and-tangent doubling", func(R *Ring) bool {
		A := R.Var("A")
		x, y := pt(R, "", A)
		Z := R.Var("Z")
		C := R.Var("C")
		N, D := specDbl(R, R.Mul(x, Z), Z, R.Mul(R.Add(A, R.Int(2)), C), R.k(4, C))
		return R.Eq(N, R.Mul(D, dbl(R, x, y, A)))
	})
	lem("differential addition formula is the chord-and-tangent addition", func(R *Ring) bool {
		A := R.Var("A")
		x1, y1 := pt(R, "1", A)
		x2, y2 := pt(R, "2", A)
		s := sum(R, x1, y1, x2, y2, A)
		d := sum(R, x1, y1, x2, R.k(-1, y2), A)
		one := R.Int(1)
		N, D := specAdd(R, x1, one, x2, one, d, one)
		return R.Eq(N, R.Mul(D, s))
	})
	lem("differential addition formula is homogeneous in each point", func(R *Ring) bool {
		v := func(s string) *FE { return R.Var(s) }
		x1, x2, xd, z1, z2, zd := v("x1"), v("x2"), v("xd"), v("z1"), v("z2"), v("zd")
		one := R.Int(1)
		N, D := specAdd(R, x1, one, x2, one, xd, one)
		N2, D2 := specAdd(R, R.Mul(x1, z1), z1, R.Mul(x2, z2), z2, R.Mul(xd, zd), zd)
		return R.Eq(R.Mul(N, D2), R.Mul(N2, D))
	})
}

// curveLemmas: the formulas above are the group law and isogenies of Montgomery curves. Points are
// affine, generic; identities of rational functions modulo the curve equation.
func curveLemmas(r *Report) {
	F := sidhFields[2]
	groupLawLemmas(r, F.p)
	lem := func(nm string, f func(R *Ring) bool) {
		r.Ob("lemma: "+nm, "polynomial identity modulo the curve equation", func() Res {
			if !f(NewRing(F.p)) {
				return refuted("the identity does not hold")
			}
			return ok()
		})
	}
	// a point (x, y) on y^2 = x^3 + A x^2 + x
	pt := func(R *Ring, n string, A *FE) (x, y *FE) {
		x = R.Var("x" + n)
		v := R.NewVar("y" + n)
		R.rels[v] = R.expand(R.poly(R.Pow(x, 3), R.Mul(A, R.Sqr(x)), x))
		return x, R.At(v)
	}
	sum := func(R *Ring, x1, y1, x2, y2, A *FE) *FE {
		l := R.Div(R.Sub(y1, y2), R.Sub(x1, x2))
		return R.poly(R.Sqr(l), R.k(-1, A), R.k(-1, x1), R.k(-1, x2))
	}
	lem("tripling formula is doubling followed by addition", func(R *Ring) bool {
		A, x, Z, C := R.Var("A"), R.Var("x"), R.Var("Z"), R.Var("C")
		one := R.Int(1)
		N2, D2 := specDbl(R, x, one, R.Add(A, R.Int(2)), R.Int(4))
		N, D := specAdd(R, N2, D2, x, one, x, one)
		T, U := specTpl(R, R.Mul(x, Z), Z, R.Mul(C, R.Add(A, R.Int(2))), R.Mul(C, R.Sub(A, R.Int(2))))
		return R.Eq(R.Mul(N, U), R.Mul(T, D))
	})
	lem("coefficient recovered from x(P), x(Q), x(P-Q) is that of the curve", func(R *Ring) bool {
		A := R.Var("A")
		x1, y1 := pt(R, "1", A)
		x2, y2 := pt(R, "2", A)
		d := sum(R, x1, y1, x2, R.k(-1, y2), A)
		return R.Eq(specRecoverA(R, x1, x2, d), A)
	})
	lem("j-invariant is c4^3/Delta of the Weierstrass form", func(R *Ring) bool {
		A := R.Var("A")
		b2, b4, b6, b8 := R.k(4, A), R.Int(2), R.Int(0), R.Const(new(big.Int).Sub(R.p, big1))
		c4 := R.Sub(R.Sqr(b2), R.k(24, b4))
		D := R.poly(R.k(-1, R.Mul(R.Sqr(b2), b8)), R.k(-8, R.Pow(b4, 3)), R.k(-27, R.Sqr(b6)), R.k(9, R.prod(b2, b4, b6)))
		A2 := R.Sqr(A)
		j := R.k(256, R.Div(R.Pow(R.Sub(A2, R.Int(3)), 3), R.Sub(A2, R.Int(4))))
		return R.Eq(R.Div(R.Pow(c4, 3), D), j)
	})
	f := func(R *Ring, x, A *FE) *FE { return R.poly(R.Pow(x, 3), R.Mul(A, R.Sqr(x)), x) }
	lem("3-isogeny: a kernel point has order 3, the map sends the curve to the codomain", func(R *Ring) bool {
		x, x3, zk, z := R.Var("x"), R.Var("x3"), R.Var("zk"), R.Var("z")
		p := func(k int64, e int64) *FE { return R.k(k, R.Pow(x3, e)) }
		A := R.Div(R.poly(R.Int(1), p(-6, 2), p(-3, 4)), p(4, 3))
		// [2]K = -K exactly for this coefficient
		N, D := specDbl(R, x3, R.Int(1), R.Add(A, R.Int(2)), R.Int(4))
		if !R.Eq(N, R.Mul(D, x3)) {
			return false
		}
		a, c := specIso3Curve(R, R.Mul(x3, zk), zk)
		A2 := R.Div(R.k(2, R.Add(a, c)), R.Sub(a, c))
		u, v := R.Sub(R.Mul(x, x3), R.Int(1)), R.Sub(x, x3)
		ph := R.Div(R.Mul(x, R.Sqr(u)), R.Sqr(v))
		dph := R.Div(R.Mul(u, R.poly(R.Mul(u, v), R.k(2, R.prod(x, x3, v)), R.k(-2, R.Mul(x, u)))), R.Pow(v, 3))
		if !R.Eq(f(R, ph, A2), R.prod(R.Sqr(x3), f(R, x, A), R.Sqr(dph))) {
			return false
		}
		N, D = specIso3(R, R.Mul(x, z), z, R.Mul(x3, zk), zk)
		return R.Eq(N, R.Mul(D, ph))
	})
	lem("4-isogeny: a kernel point has order 4, the map sends the curve to the codomain", func(R *Ring) bool {
		x, x4, zk, z := R.Var("x"), R.Var("x4"), R.Var("zk"), R.Var("z")
		s := R.Add(R.Sqr(x4), R.Int(1)) // x4^2+1
		A := R.Div(R.k(-1, R.poly(R.Pow(x4, 4), R.k(6, R.Sqr(x4)), R.Int(1))), R.k(2, R.Mul(x4, s)))
		// [2]K is a point of order 2 other than (0,0), [4]K = O
		N, D := specDbl(R, x4, R.Int(1), R.Add(A, R.Int(2)), R.Int(4))
		x2 := R.Div(s, R.k(2, x4))
		if !R.Eq(N, R.Mul(D, x2)) || !R.isZero(R.poly(R.Sqr(x2), R.Mul(A, x2), R.Int(1))) {
			return false
		}
		a, c := specIso4Curve(R, R.Mul(x4, zk), zk)
		A2 := R.Sub(R.Div(R.k(4, a), c), R.Int(2))
		u, v := R.Sub(R.Mul(x, x4), R.Int(1)), R.Sub(x, x4)
		w, t := R.Sub(R.k(2, x4), R.Mul(x, s)), R.Sub(R.k(2, R.Mul(x, x4)), s)
		// phi = x u^2 w / (v^2 t)
		ph := R.Div(R.prod(x, R.Sqr(u), w), R.Mul(R.Sqr(v), t))
		dn := R.poly(R.Mul(R.Sqr(u), w), R.k(2, R.prod(x, u, x4, w)), R.k(-1, R.prod(x, R.Sqr(u), s)))
		dd := R.poly(R.k(2, R.Mul(v, t)), R.k(2, R.Mul(R.Sqr(v), x4)))
		dph := R.Div(R.Sub(R.prod(dn, R.Sqr(v), t), R.prod(x, R.Sqr(u), w, dd)), R.Sqr(R.Mul(R.Sqr(v), t)))
		kap := R.k(-1, R.Div(R.Mul(x4, s), R.Int(2)))
		if !R.Eq(f(R, ph, A2), R.prod(kap, f(R, x, A), R.Sqr(dph))) {
			return false
		}
		N, D = specIso4(R, R.Mul(x, z), z, R.Mul(x4, zk), zk)
		return R.Eq(N, R.Mul(D, ph))
	})
}

// ---- iterated doubling and tripling

// powCut: the body of a loop that applies step to *p once per iteration.
type powCut struct {
	e      *curveEnv
	fn     *ssa.Function
	p      Ptr
	k      *T
	step   func(X, Z *FE) (N, D *FE)
	units  []*FE
	fail   *Res
	strct  string
	done   int
	gen    int
	X0, Z0 *FE
}

type powGhost struct {
	hdr  *ssa.BasicBlock
	snap []*OState
	phis []Value
	base []Value
	j    *T // 64 bits; nil before the generalisation
	X, Z *FE
	nfr  int
	npc  int
}

func (s *powCut) AtHeader(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock, back bool) ([]*State, bool) {
	if s.fail != nil || s.strct != "" {
		return nil, true
	}
	c := x.C
	g, _ := st.G("pow").(*powGhost)
	if !back {
		if g != nil {
			return nil, false
		}
		st.SetG("pow", &powGhost{hdr: h, snap: snap(st).os, phis: append([]Value(nil), phisOf(fr, h)...), nfr: len(st.frames), npc: len(st.pc), X: s.X0, Z: s.Z0})
		return nil, false
	}
	if g == nil || g.hdr != h || g.nfr != len(st.frames) {
		return nil, false
	}
	got, m := s.e.elems(st, s.p, "ProjectivePoint")
	if m != "" {
		z := refuted("%s", m)
		s.fail = &z
		return nil, true
	}
	N, D := s.step(g.X, g.Z)
	if z := s.e.R.projEq("one iteration", got[0], got[1], N, D, s.e.r.Seed, s.units...); z != nil {
		if g.j == nil {
			// perhaps an iteration is something else: left to the bounded check
			s.strct = "first iteration is not one step: " + z.Detail
			return nil, true
		}
		s.fail = z
		return nil, true
	}
	s.done++
	if g.j != nil {
		for i, v := range phisOf(fr, h) {
			want := g.phis[i]
			if t, ok := want.(*T); ok && g.base[i] != nil {
				want = c.Add(t, g.base[i].(*T))
			}
			if !sameVal(v, want) {
				s.strct = "a loop variable does not step regularly"
				return nil, true
			}
		}
		if !x.Prove(st, c.Ult(g.j, c.Zext(s.k, 64))) {
			s.strct = "more iterations than k"
		}
		return nil, true
	}
	ng := &powGhost{hdr: h, nfr: g.nfr, j: c.IdxVar("steps done", 1, 1<<32)}
	for i, v := range phisOf(fr, h) {
		if sameVal(v, g.phis[i]) {
			ng.phis, ng.base = append(ng.phis, v), append(ng.base, nil)
			continue
		}
		a, ok1 := g.phis[i].(*T)
		b, ok2 := v.(*T)
		if !ok1 || !ok2 || a.w != b.w {
			s.strct = "a loop variable is not a counter"
			return nil, true
		}
		d := c.Sub(b, a)
		if !d.isC() {
			s.strct = "a loop variable does not step by a constant"
			return nil, true
		}
		j := ng.j
		if a.w < 64 {
			j = c.Extract(j, 0, a.w)
		}
		nv := c.Add(a, c.Mul(j, d))
		fr.regs[fr.info.idx[h.Instrs[i].(*ssa.Phi)]] = nv
		ng.phis, ng.base = append(ng.phis, nv), append(ng.base, d)
	}
	s.gen++
	// everything else the iteration wrote is unknown
	for id, o := range st.heap {
		if id >= len(g.snap) || o == nil || g.snap[id] == nil || o == g.snap[id] || id == s.p.obj.id {
			continue
		}
		w := st.wos(&Obj{id: id})
		for i := range w.cells {
			if w.cells[i].n > 0 && (g.snap[id].cells[i].n != w.cells[i].n || !sameVal(w.cells[i].v, g.snap[id].cells[i].v)) {
				t, ok := w.cells[i].v.(*T)
				if !ok {
					s.strct = "the loop changes something that is not a number"
					return nil, true
				}
				if !t.isCV(0) {
					w.cells[i].v = c.Fresh(t.w, "loop")
				}
			}
		}
	}
	ng.X, ng.Z = s.e.R.Var(fmt.Sprintf("Xj%d", s.gen)), s.e.R.Var(fmt.Sprintf("Zj%d", s.gen))
	s.e.l.Write(st, s.e.at(s.p, "ProjectivePoint", 0), "xj", ng.X, s.e.l.max)
	s.e.l.Write(st, s.e.at(s.p, "ProjectivePoint", 1), "zj", ng.Z, s.e.l.max)
	pcs := append([]*T(nil), st.pc[:g.npc]...)
	st.pc, st.pcset = nil, map[*T]bool{}
	for _, q := range pcs {
		st.Assume(q)
	}
	st.Assume(c.Not(c.Ult(c.Zext(s.k, 64), ng.j)))
	st.SetG("pow", ng)
	return []*State{st}, true
}

func sidhPow(e *curveEnv, fn string, spec func(R *Ring, X, Z, a, c *FE) (N, D *FE)) *Res {
	f := e.x.P.Fn(e.F.pkg, fn)
	if f == nil {
		return &Res{OK: true, Detail: "no such function: its code is checked where it is used"}
	}
	if len(f.Params) != 3 || e.x.intWidth(f.Params[2].Type()) == 0 {
		z := undecided("%s has another signature", fn)
		return &z
	}
	R, x := e.R, e.x
	X, Z, a, c := R.Var("X"), R.Var("Z"), R.Var("a"), R.Var("c")
	p := e.obj("ProjectivePoint", "xP", X, Z)
	q := e.obj("CurveCoefficientsEquiv", "params", a, c)
	k := x.C.Var(x.intWidth(f.Params[2].Type()), "k")
	if isSigned(f.Params[2].Type()) {
		e.st.Assume(x.C.Ult(k, x.C.Const(k.w, 1<<30)))
	}
	// k is a number of doublings: far below 2^31
	e.st.Assume(x.C.Ult(k, x.C.Const(k.w, 1<<31)))
	s := &powCut{e: e, fn: f, p: p, k: k, X0: X, Z0: Z, units: []*FE{}}
	s.step = func(X, Z *FE) (N, D *FE) { return spec(R, X, Z, a, c) }
	x.cutAll = s
	nret := 0
	z := e.run(fn, []Value{p, q, k}, []Ptr{p}, func(st *State, v Value) *Res {
		g, _ := st.G("pow").(*powGhost)
		got, m := e.elems(st, p, "ProjectivePoint")
		if m != "" {
			z := refuted("%s", m)
			return &z
		}
		nret++
		if g == nil || g.j == nil {
			if !x.Prove(st, x.C.Eq(k, x.C.Const(k.w, 0))) {
				s.strct = "returns without an iteration"
				if nz := x.C.Not(x.C.Eq(k, x.C.Const(k.w, 0))); R.projEq("", got[0], got[1], X, Z, e.r.Seed) == nil && x.Feasible(st, nz) {
					z := refuted("for some k != 0 the point is left as it is")
					s.fail = &z
				}
				return nil
			}
			return R.projEq("k == 0", got[0], got[1], X, Z, e.r.Seed)
		}
		if !x.Prove(st, x.C.Eq(x.C.Zext(k, 64), g.j)) {
			z := refuted("returns after a number of iterations other than k")
			return &z
		}
		return R.projEq("result", got[0], got[1], g.X, g.Z, e.r.Seed)
	})
	if s.fail != nil {
		return s.fail
	}
	if z != nil && s.gen > 0 && s.done >= 2 && s.strct == "" {
		return z
	}
	if z == nil && s.strct == "" && nret > 0 && s.done >= 2 {
		return nil
	}
	why := s.strct
	if z != nil {
		why = z.Detail
	}
	// another loop structure: small k only
	for n := uint64(0); n < 4; n++ {
		f := newCurveEnv(e.r, e.F)
		R := f.R
		X, Z, a, c := R.Var("X"), R.Var("Z"), R.Var("a"), R.Var("c")
		p := f.obj("ProjectivePoint", "xP", X, Z)
		q := f.obj("CurveCoefficientsEquiv", "params", a, c)
		b := f.run(fn, []Value{p, q, f.x.C.Const(k.w, n)}, []Ptr{p}, func(st *State, v Value) *Res {
			got, m := f.elems(st, p, "ProjectivePoint")
			if m != "" {
				z := refuted("%s", m)
				return &z
			}
			// compared at random points: the polynomials get too large
			rng := rand.New(rand.NewSource(e.r.Seed + int64(n)))
			for t := 0; t < 8; t++ {
				at := make([]*big.Int, len(R.names))
				for i := range at {
					at[i] = new(big.Int).Rand(rng, R.p)
				}
				cx := func(v *FE) *FE { return R.Const(R.Eval(v, at, nil)) }
				N, D := cx(X), cx(Z)
				for i := uint64(0); i < n; i++ {
					N, D = spec(R, N, D, cx(a), cx(c))
				}
				if gx, gz := cx(got[0]), cx(got[1]); !R.Eq(R.Mul(gx, D), R.Mul(gz, N)) || gx.zero() && gz.zero() {
					z := refuted("k == %d: (%s : %s) is not the multiple (%s)", n, R.str(gx), R.str(gz), why)
					return &z
				}
			}
			return nil
		})
		f.x.Close()
		if b != nil {
			return b
		}
	}
	return &Res{OK: true, Bounded: "k <= 3, random points (" + why + ")"}
}

// ---- three-point ladder

// mlin: a polynomial in the bits of the scalar (b^2 = b), by monomials of bit numbers.
type mlin map[string]*big.Int

func mlC(n int64) mlin {
	m := mlin{}
	if n != 0 {
		m[""] = big.NewInt(n)
	}
	return m
}
func mlBit(i int) mlin { return mlin{string([]byte{byte(i >> 8), byte(i)}): big1} }
func (a mlin) add(b mlin, k int64) mlin {
	r := mlin{}
	for m, v := range a {
		r[m] = v
	}
	for m, v := range b {
		s := new(big.Int).Mul(v, big.NewInt(k))
		if o := r[m]; o != nil {
			s.Add(s, o)
		}
		if s.Sign() == 0 {
			delete(r, m)
		} else {
			r[m] = s
		}
	}
	return r
}
func (a mlin) mul(b mlin) mlin {
	r := mlin{}
	for m, v := range a {
		for n, w := range b {
			k := mlMono(m, n)
			s := new(big.Int).Mul(v, w)
			if o := r[k]; o != nil {
				s.Add(s, o)
			}
			if s.Sign() == 0 {
				delete(r, k)
			} else {
				r[k] = s
			}
		}
	}
	return r
}
func mlMono(m, n string) string {
	if m == "" {
		return n
	}
	if n == "" || m == n {
		return m
	}
	var b []byte
	i, j := 0, 0
	for i < len(m) && j < len(n) {
		x, y := m[i:i+2], n[j:j+2]
		switch {
		case x == y:
			b = append(b, x...)
			i, j = i+2, j+2
		case x < y:
			b = append(b, x...)
			i += 2
		default:
			b = append(b, y...)
			j += 2
		}
	}
	return string(b) + m[i:] + n[j:]
}
func (a mlin) eq(b mlin) bool { return len(a.add(b, -1)) == 0 }

// ghostPt is a*P + b*Q, up to sign.
type ghostPt struct{ a, b mlin }

func (p ghostPt) add(q ghostPt, k int64) ghostPt { return ghostPt{p.a.add(q.a, k), p.b.add(q.b, k)} }
func (p ghostPt) neg() ghostPt                   { return ghostPt{mlC(0).add(p.a, -1), mlC(0).add(p.b, -1)} }
func mlSign(p ghostPt, s int64) ghostPt {
	if s < 0 {
		return p.neg()
	}
	return p
}
func (p ghostPt) eq(q ghostPt) bool  { return p.a.eq(q.a) && p.b.eq(q.b) }
func (p ghostPt) mul(c mlin) ghostPt { return ghostPt{p.a.mul(c), p.b.mul(c)} }

// pointLayer binds the words of two coordinates to a multiple of the base points.
type pointLayer struct {
	e    *curveEnv
	pts  map[string]ghostPt
	bits map[*T]mlin
	a24  *FE
	n    int
}

func (l *pointLayer) words(st *State, px, pz Ptr) []*T {
	w := l.e.l.words(st, px.obj, int64(px.off.k))
	return append(w, l.e.l.words(st, pz.obj, int64(pz.off.k))...)
}

func (l *pointLayer) get(st *State, px, pz Ptr) ghostPt {
	g, ok := l.pts[wkey(l.words(st, px, pz))]
	if !ok {
		unsup("coordinates that are not those of one known point")
	}
	return g
}

func (l *pointLayer) put(st *State, px, pz Ptr, g ghostPt) {
	l.n++
	var ws []*T
	for h, p := range []Ptr{px, pz} {
		for i, k := range l.e.l.offs {
			w := l.e.x.C.Var(64, fmt.Sprintf("pt%d.%c%d", l.n, "XZ"[h], i))
			l.e.x.storeAt(st, p.obj, int64(p.off.k)+int64(8*k), 8, w)
			ws = append(ws, w)
		}
	}
	l.pts[wkey(ws)] = g
}

// choice: an 8-bit term that is 0 or 1 as a polynomial in the scalar's bits.
func (l *pointLayer) choice(t *T) mlin {
	c := l.e.x.C
	var bit func(t *T) mlin // one bit
	bit = func(t *T) mlin {
		if t.isC() {
			return mlC(int64(t.k))
		}
		if m, ok := l.bits[t]; ok {
			return m
		}
		if t.op == OXor && t.w == 1 {
			r := mlC(0)
			for _, a := range t.a {
				b := bit(a)
				r = r.add(b, 1).add(r.mul(b), -2)
			}
			return r
		}
		if t.op == OXor || t.op == OAnd || t.op == OOr {
			unsup("choice %v", t)
		}
		unsup("choice %v", t)
		return nil
	}
	for i := uint8(1); i < t.w; i++ {
		if !c.Extract(t, i, 1).isCV(0) {
			unsup("a choice that is not 0 or 1")
		}
	}
	return bit(c.Extract(t, 0, 1))
}

// pointContracts: xDbladd and cswap on known points.
func pointContracts(e *curveEnv, a24 *FE) *pointLayer {
	l := &pointLayer{e: e, pts: map[string]ghostPt{}, bits: map[*T]mlin{}, a24: a24}
	x := e.x
	pre := modPath + "/" + e.F.pkg + "."
	X := func(p Value) Ptr { return e.at(p.(Ptr), "ProjectivePoint", 0) }
	Z := func(p Value) Ptr { return e.at(p.(Ptr), "ProjectivePoint", 1) }
	if f := x.P.Fn(e.F.pkg, "xDbladd"); f != nil && len(f.Params) == 4 && f.Signature.Results().Len() == 2 {
		PT := e.common("ProjectivePoint")
		x.H[pre+"xDbladd"] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
			p, q, d := l.get(st, X(a[0]), Z(a[0])), l.get(st, X(a[1]), Z(a[1])), l.get(st, X(a[2]), Z(a[2]))
			if v := e.l.Read(st, a[3]); !e.R.Eq(v.v, l.a24) {
				e.l.errs = append(e.l.errs, "xDbladd is given another curve than (A+2C)/4C: "+e.R.str(v.v))
			}
			// d is the difference of p and q; the sign of either coordinate representative is free
			var s ghostPt
			switch {
			case p.add(q, -1).eq(d) || q.add(p, -1).eq(d):
				s = p.add(q, 1)
			case p.add(q, 1).eq(d) || p.add(q, 1).neg().eq(d):
				s = p.add(q, -1)
			default:
				unsup("xDbladd on points whose difference is not known to be the third")
			}
			if !d.a.mul(d.a).eq(mlC(1)) {
				unsup("xDbladd on a difference that may be exceptional")
			}
			o := x.NewTyped(st, "xDbladd", PT)
			o2 := x.NewTyped(st, "xDbladd", PT)
			r, r2 := Ptr{o, x.C.I(0)}, Ptr{o2, x.C.I(0)}
			l.put(st, X(r), Z(r), p.add(p, 1))
			l.put(st, X(r2), Z(r2), s)
			return []Alt{{st: st, v: Tuple{x.load(st, r, PT), x.load(st, r2, PT)}}}
		}
	}
	if sameSig(x, e.F.pkg, "cswap", 5) {
		x.H[pre+"cswap"] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
			p, q := l.get(st, a[0].(Ptr), a[1].(Ptr)), l.get(st, a[2].(Ptr), a[3].(Ptr))
			c := l.choice(a[4].(*T))
			d := q.add(p, -1).mul(c)
			l.put(st, a[0].(Ptr), a[1].(Ptr), p.add(d, 1))
			l.put(st, a[2].(Ptr), a[3].(Ptr), q.add(d, -1))
			return []Alt{{st: st}}
		}
	}
	return l
}

// scalarBits makes a scalar of n bits with symbolic bytes.
func (l *pointLayer) scalarBits(st *State, n int) (Slice, mlin) {
	x := l.e.x
	c := x.C
	nb := (n + 7) / 8
	var bs []*T
	k := mlC(0)
	for i := 0; i < nb; i++ {
		b := c.Var(8, fmt.Sprintf("scalar%d", i))
		bs = append(bs, b)
		for j := 0; j < 8; j++ {
			m := mlBit(8*i + j)
			l.bits[c.Extract(b, uint8(j), 1)] = m
			if 8*i+j < n {
				k[string([]byte{byte((8*i + j) >> 8), byte(8*i + j)})] = pow2(uint(8*i + j))
			}
		}
	}
	o := x.NewBytes(st, "scalar", bs)
	return Slice{Ptr{o, c.I(0)}, c.I(int64(nb)), c.I(int64(nb))}, k
}

func (F *sidhField) secretBits(v string) int {
	m := map[string]int{"434A": 216, "434B": 217, "503A": 250, "503B": 252, "751A": 372, "751B": 378}
	return m[F.name+v]
}

func sidhLadder(e *curveEnv, v string) *Res { return sidhLadderBits(e, e.F.secretBits(v)) }

func sidhLadderBits(e *curveEnv, n int) *Res {
	// x(P-Q) = x(Q-P): try the representative with either sign
	z := sidhLadderSign(newCurveEnv(e.r, e.F), n, -1)
	if z != nil && !z.OK {
		z = sidhLadderSign(e, n, 1)
	}
	return z
}

func sidhLadderSign(e *curveEnv, n int, sign int64) (res *Res) {
	defer func() {
		if p := recover(); p != nil {
			x, ok := p.(execErr)
			if !ok {
				panic(p)
			}
			z := undecided("%s", x.msg)
			res = &z
		}
	}()
	f := e.x.P.Fn(e.F.pkg, "ScalarMul3Pt")
	if f == nil {
		return &Res{OK: true, Detail: "no such function: its code is checked where it is used"}
	}
	if len(f.Params) != 6 {
		z := undecided("ScalarMul3Pt has another signature")
		return &z
	}
	R := e.R
	A, C := R.Var("A"), R.Var("C")
	cp := e.obj("ProjectiveCurveParameters", "cparams", A, C)
	l := pointContracts(e, R.Div(R.Add(A, R.k(2, C)), R.k(4, C)))
	P := ghostPt{mlC(1), mlC(0)}
	Q := ghostPt{mlC(0), mlC(1)}
	var ps []Ptr
	for i, g := range []ghostPt{P, Q, mlSign(P.add(Q, -1), sign)} {
		p := Ptr{e.x.NewTyped(e.st, []string{"P", "Q", "PmQ"}[i], e.common("ProjectivePoint")), e.x.C.I(0)}
		l.put(e.st, e.at(p, "ProjectivePoint", 0), e.at(p, "ProjectivePoint", 1), g)
		ps = append(ps, p)
	}
	s, k := l.scalarBits(e.st, n)
	want := ghostPt{mlC(1), k}
	z := e.run("ScalarMul3Pt", []Value{cp, ps[0], ps[1], ps[2], e.x.C.Const(e.x.intWidth(f.Params[4].Type()), uint64(n)), s}, nil, func(st *State, v Value) *Res {
		PT := e.common("ProjectivePoint")
		o := Ptr{e.x.NewTyped(st, "result", PT), e.x.C.I(0)}
		e.x.store(st, o, PT, v)
		g := l.get(st, e.at(o, "ProjectivePoint", 0), e.at(o, "ProjectivePoint", 1))
		if g.eq(want) || g.neg().eq(want) {
			return nil
		}
		z := refuted("the result is not P+[k]Q: %s", ptDiff(g, want))
		return &z
	})
	return z
}

// ptDiff: a scalar for which the multiples differ.
func ptDiff(g, w ghostPt) string {
	for _, s := range []struct {
		n string
		d mlin
	}{{"P", g.a.add(w.a, -1)}, {"Q", g.b.add(w.b, -1)}} {
		best := ""
		found := false
		for m := range s.d {
			if !found || len(m) < len(best) || len(m) == len(best) && m < best {
				best, found = m, true
			}
		}
		if found {
			var b []int
			for i := 0; i < len(best); i += 2 {
				b = append(b, int(best[i])<<8|int(best[i+1]))
			}
			return fmt.Sprintf("for the scalar with exactly the bits %v set, the coefficient of %s is off by %v", b, s.n, s.d[best])
		}
	}
	return "coefficients agree"
}
