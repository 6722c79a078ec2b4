package main

// C16: SIDH key generation and key agreement. The bodies of PublicKeyGenA/B and DeriveSecretA/B (and
// what they call in core.go) are executed over the contracts of C14 and C15, with ghost state naming
// every projective point as a point of a curve in a chain of isogenies.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C16"] = propC16 }

// isoPt: the image on curve number curve of the named point of curve 0, times l^m.
type isoPt struct {
	curve int
	base  string
	m     int
}

func (p isoPt) String() string {
	s := p.base
	if p.m > 0 {
		s = fmt.Sprintf("[l^%d]%s", p.m, s)
	}
	if p.curve > 0 {
		s = fmt.Sprintf("image on curve %d of %s", p.curve, s)
	}
	return s
}

type isoLayer struct {
	e     *curveEnv
	l     int64 // 2 or 3
	exp   int   // kernel order l^exp
	step  int   // exponent consumed by one isogeny
	nbits int
	prv   []*T
	pts   map[string]isoPt
	A, C  []*FE // curve k is C y^2 = x^3 + A x^2 + C x up to scaling
	phis  map[string]int
	canon map[string]*FE // words of a canonical (non-Montgomery) element
	bad   string
	xzOf  map[string][2]*FE
	nbs   map[int]bool // other scalar lengths the ladder is used with
}

func (l *isoLayer) fail(f string, a ...interface{}) {
	if l.bad == "" {
		l.bad = fmt.Sprintf(f, a...)
	}
}

func (l *isoLayer) key(X, Z *FE) string { return l.e.R.str(X) + "|" + l.e.R.str(Z) }

func (l *isoLayer) xz(st *State, p Value) (X, Z *FE) {
	q, ok := p.(Ptr)
	if !ok {
		unsup("point through %T", p)
	}
	return l.e.l.Read(st, l.e.at(q, "ProjectivePoint", 0)).v, l.e.l.Read(st, l.e.at(q, "ProjectivePoint", 1)).v
}

func (l *isoLayer) get(st *State, p Value) isoPt {
	X, Z := l.xz(st, p)
	g, ok := l.pts[l.key(X, Z)]
	if !ok {
		unsup("coordinates (%s : %s) that are not those of one known point", l.e.R.str(X), l.e.R.str(Z))
	}
	return g
}

func (l *isoLayer) put(st *State, p Ptr, g isoPt) {
	n := len(l.pts)
	X, Z := l.e.R.Var(fmt.Sprintf("X%d", n)), l.e.R.Var(fmt.Sprintf("Z%d", n))
	l.e.l.Write(st, l.e.at(p, "ProjectivePoint", 0), "X", X, l.e.l.max)
	l.e.l.Write(st, l.e.at(p, "ProjectivePoint", 1), "Z", Z, l.e.l.max)
	l.bind(X, Z, g)
}

func (l *isoLayer) bind(X, Z *FE, g isoPt) {
	k := l.key(X, Z)
	l.pts[k], l.xzOf[k] = g, [2]*FE{X, Z}
}

// form: the pair an algorithm for l-isogenies wants.
func (l *isoLayer) form(A, C *FE) (a, c *FE) {
	R := l.e.R
	a = R.Add(A, R.k(2, C))
	if l.l == 2 {
		return a, R.k(4, C)
	}
	return a, R.Sub(A, R.k(2, C))
}

// unform: (A, C) of such a pair, up to scaling.
func (l *isoLayer) unform(a, c *FE) (A, C *FE) {
	R := l.e.R
	if l.l == 2 {
		return R.Sub(R.k(4, a), R.k(2, c)), c
	}
	return R.k(2, R.Add(a, c)), R.Sub(a, c)
}

// isCurve: (a, c) are the coefficients of curve k.
func (l *isoLayer) isCurve(k int, a, c, wa, wc *FE) bool {
	R := l.e.R
	return !c.zero() && R.Eq(R.Mul(a, wc), R.Mul(c, wa))
}

func (l *isoLayer) curveNo(a, c *FE) int {
	for k := len(l.A) - 1; k >= 0; k-- {
		wa, wc := l.form(l.A[k], l.C[k])
		if l.isCurve(k, a, c, wa, wc) {
			return k
		}
	}
	return -1
}

func (l *isoLayer) slots(st *State, p Ptr, ty string) (offs []int64) {
	n := l.e.x.sizeof(l.e.x.P.Type(l.e.F.pkg, ty)) / (16 * fpMaxWords)
	for i := int64(0); i < n; i++ {
		offs = append(offs, int64(p.off.k)+16*fpMaxWords*i)
	}
	return
}

func (l *isoLayer) phiKey(st *State, p Ptr, ty string) string {
	s := ty
	for _, o := range l.slots(st, p, ty) {
		s += "|" + wkey(l.e.l.words(st, p.obj, o))
	}
	return s
}

// scalar: the low nb bits of s are the private key, modulo the order of Q.
func (l *isoLayer) scalar(st *State, nb int, s Slice) {
	x, c := l.e.x, l.e.x.C
	n := (nb + 7) / 8
	if int(s.len.k) < n {
		l.fail("ScalarMul3Pt is given %d bytes of scalar for %d bits", s.len.k, nb)
		return
	}
	if nb > l.nbits && l.l != 2 {
		l.fail("ScalarMul3Pt uses %d bits of the scalar, not %d", nb, l.nbits)
		return
	}
	if nb != l.nbits {
		if l.nbs == nil {
			l.nbs = map[int]bool{}
		}
		l.nbs[nb] = true
	}
	var bs []*T
	if n > 0 {
		bs = x.readBytes(st, s.p, int64(n))
	}
	for i := 0; i < (l.nbits+7)/8; i++ {
		got := c.Const(8, 0)
		if i < n {
			got = bs[i]
			if i == n-1 && nb%8 != 0 {
				got = c.And(got, c.Const(8, mask(uint8(nb%8))))
			}
		}
		d := c.Xor(got, l.prv[i])
		if r := l.nbits - 8*i; r < 8 {
			d = c.And(d, c.Const(8, mask(uint8(r))))
		}
		if !d.isCV(0) && !x.Prove(st, c.Eq(d, c.Const(8, 0))) {
			l.fail("ScalarMul3Pt is given another scalar than the private key: %d bits, byte %d", nb, i)
			return
		}
	}
}

// ladders proves the ladder for the other lengths it was used with (C15 has the key length).
func (l *isoLayer) ladders(v byte) *Res {
	for nb := range l.nbs {
		if nb == 0 {
			continue
		}
		if z := sidhLadderBits(newCurveEnv(l.e.r, l.e.F), nb); z != nil && !z.OK {
			z.Detail = fmt.Sprintf("ladder of %d bits: %s", nb, z.Detail)
			return z
		}
	}
	return nil
}

// installs the contracts of C15 (and of FromMontgomery, C14) on named points.
func (l *isoLayer) install() {
	e := l.e
	x := e.x
	c := x.C
	pre := modPath + "/" + e.F.pkg + "."
	PT, CT := e.common("ProjectivePoint"), e.common("CurveCoefficientsEquiv")
	sig := func(n string, np, nr int) *ssa.Function {
		f := x.P.Fn(e.F.pkg, n)
		if f == nil || len(f.Params) != np || f.Signature.Results().Len() != nr {
			return nil
		}
		return f
	}
	if f := sig("ScalarMul3Pt", 6, 1); f != nil {
		x.H[f.String()] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
			cp := a[0].(Ptr)
			A, C := e.l.Read(st, e.at(cp, "ProjectiveCurveParameters", 0)).v, e.l.Read(st, e.at(cp, "ProjectiveCurveParameters", 1)).v
			if !l.isCurve(0, A, C, l.A[0], l.C[0]) {
				l.fail("ScalarMul3Pt is given another curve: (%s : %s)", e.R.str(A), e.R.str(C))
			}
			for i, w := range []string{"P", "Q", "P-Q"} {
				g := l.get(st, a[1+i])
				if g != (isoPt{0, w, 0}) {
					l.fail("ScalarMul3Pt is given %v where %s of the own group is expected", g, w)
				}
			}
			nb, s := a[4].(*T), a[5].(Slice)
			if !nb.isC() || !s.len.isC() {
				unsup("ScalarMul3Pt with a symbolic length")
			}
			l.scalar(st, int(nb.k), s)
			o := Ptr{x.NewTyped(st, "xR", PT), c.I(0)}
			l.put(st, o, isoPt{0, "P+[k]Q", 0})
			return []Alt{{st: st, v: x.load(st, o, PT)}}
		}
	}
	for _, pw := range []struct {
		n string
		l int64
	}{{"Pow2k", 2}, {"Pow3k", 3}} {
		pw := pw
		f := sig(pw.n, 3, 0)
		if f == nil || x.intWidth(f.Params[2].Type()) == 0 {
			continue
		}
		x.H[f.String()] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
			g := l.get(st, a[0])
			if pw.l != l.l {
				l.fail("%s is used in the group of order %d^%d", pw.n, l.l, l.exp)
			}
			q := a[1].(Ptr)
			A, C := e.l.Read(st, e.at(q, "CurveCoefficientsEquiv", 0)).v, e.l.Read(st, e.at(q, "CurveCoefficientsEquiv", 1)).v
			if wa, wc := l.form(l.A[g.curve], l.C[g.curve]); !l.isCurve(g.curve, A, C, wa, wc) {
				l.fail("%s is given the coefficients of curve %d for a point of curve %d", pw.n, l.curveNo(A, C), g.curve)
			}
			k := a[2].(*T)
			if !k.isC() {
				unsup("%s with a symbolic count", pw.n)
			}
			g.m += int(k.k)
			if k.k > 0 {
				l.put(st, a[0].(Ptr), g)
			}
			return []Alt{{st: st}}
		}
	}
	for _, iso := range []struct {
		ty   string
		l    int64
		step int
	}{{"isogeny4", 2, 2}, {"isogeny3", 3, 1}} {
		iso := iso
		if f := sig(iso.ty+".GenerateCurve", 2, 1); f != nil {
			x.H[f.String()] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
				phi := a[0].(Ptr)
				g := l.get(st, a[1])
				if iso.l != l.l {
					l.fail("an isogeny of degree %d is used in the group of order %d^%d", map[int64]int{2: 4, 3: 3}[iso.l], l.l, l.exp)
				}
				if g.base != "P+[k]Q" {
					l.fail("the kernel of isogeny %d is generated by %v", g.curve+1, g)
				}
				if ord := l.exp - l.step*g.curve - g.m; ord != l.step {
					l.fail("the kernel of isogeny %d is generated by a point of order %d^%d: %v", g.curve+1, l.l, ord, g)
				}
				to := g.curve + 1
				for _, o := range l.slots(st, phi, iso.ty) {
					e.l.Write(st, Ptr{phi.obj, c.I(o)}, "phi", e.R.Var(fmt.Sprintf("K%d.%d", len(l.phis), o)), e.l.max)
				}
				l.phis[l.phiKey(st, phi, iso.ty)] = to
				var va, vc *FE
				if to == len(l.A) {
					va, vc = e.R.Var(fmt.Sprintf("a%d", to)), e.R.Var(fmt.Sprintf("c%d", to))
					A, C := l.unform(va, vc)
					l.A, l.C = append(l.A, A), append(l.C, C)
				} else {
					// the same subgroup: the same curve, up to the scaling of its coefficients
					u := e.R.Var(fmt.Sprintf("u%d.%d", to, len(l.phis)))
					wa, wc := l.form(l.A[to], l.C[to])
					va, vc = e.R.Mul(u, wa), e.R.Mul(u, wc)
				}
				o := Ptr{x.NewTyped(st, "codomain", CT), c.I(0)}
				e.l.Write(st, e.at(o, "CurveCoefficientsEquiv", 0), "a", va, e.l.max)
				e.l.Write(st, e.at(o, "CurveCoefficientsEquiv", 1), "c", vc, e.l.max)
				return []Alt{{st: st, v: x.load(st, o, CT)}}
			}
		}
		if f := sig(iso.ty+".EvaluatePoint", 2, 1); f != nil {
			x.H[f.String()] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
				to, ok := l.phis[l.phiKey(st, a[0].(Ptr), iso.ty)]
				if !ok {
					unsup("EvaluatePoint of an isogeny that was not generated")
				}
				g := l.get(st, a[1])
				if g.curve != to-1 {
					l.fail("isogeny %d is evaluated on a point of curve %d", to, g.curve)
				}
				g.curve = to
				o := Ptr{x.NewTyped(st, "image", PT), c.I(0)}
				l.put(st, o, g)
				return []Alt{{st: st, v: x.load(st, o, PT)}}
			}
		}
	}
	if f := sig("FromMontgomery", 2, 0); f != nil {
		x.H[pre+"FromMontgomery"] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
			v := e.l.Read(st, a[1]).v
			d := a[0].(Ptr)
			if !d.off.isC() {
				unsup("FromMontgomery at a symbolic index")
			}
			var ws []*T
			for i, k := range e.l.offs {
				w := c.Var(64, fmt.Sprintf("canonical%d.%d", len(l.canon), i))
				if top := uint(8*e.F.bytelen - 64*(e.F.n-1)); i%e.F.n == e.F.n-1 && top < 64 {
					w = c.Zext(c.Extract(w, 0, uint8(top)), 64) // below the prime
				}
				x.storeAt(st, d.obj, int64(d.off.k)+int64(8*k), 8, w)
				ws = append(ws, w)
			}
			l.canon[wkey(ws)] = v
			return []Alt{{st: st}}
		}
	}
}

func (F *sidhField) group(v byte) (l int64, exp, step int) {
	if v == 'A' {
		return 2, int(F.e2), 2
	}
	return 3, int(F.e3), 1
}

func (F *sidhField) par() sidhPar {
	for _, p := range sidhPars {
		if p.name == "p"+F.name {
			return p
		}
	}
	panic("prime")
}

func (e *curveEnv) domain(v byte) (*State, [3]*FE, [3][2]*big.Int, int) {
	x := e.x
	qs, msg := onlyRets(x.Call(e.st, x.P.MustFn("dh/sidh/common", "Params"), x.C.Const(8, e.F.par().id)))
	if msg != "" || len(qs) != 1 {
		unsup("common.Params: %s", msg)
	}
	st, p := qs[0].st, qs[0].v.(Ptr)
	ST, DT := e.common("SidhParams"), e.common("DomainParams")
	at := func(fs ...string) Ptr {
		q := Ptr{p.obj, x.C.Add(p.off, x.C.I(x.fieldOff(ST, fs[0])))}
		if len(fs) > 1 {
			q.off = x.C.Add(q.off, x.C.I(x.fieldOff(DT, fs[1])))
		}
		return q
	}
	var fe [3]*FE
	var con [3][2]*big.Int
	Rinv := new(big.Int).ModInverse(e.F.R, e.F.p)
	for i, n := range []string{"AffineP", "AffineQ", "AffineR"} {
		q := at(string(v), n)
		fe[i] = e.l.Read(st, q).v
		for h := 0; h < 2; h++ {
			w := new(big.Int)
			for k := fpMaxWords - 1; k >= 0; k-- {
				t := x.loadBits(st, q.obj, int64(q.off.k)+int64(8*(h*fpMaxWords+k)), 8)
				if !t.isC() {
					unsup("base points that are not constants")
				}
				w.Lsh(w, 64).Or(w, bu(t.k))
			}
			con[i][h] = w.Mul(w, Rinv).Mod(w, e.F.p)
		}
	}
	n := at(string(v), "SecretByteLen")
	t := x.loadBits(st, n.obj, int64(n.off.k), 8)
	if !t.isC() {
		unsup("a key length that is not a constant")
	}
	return st, fe, con, int(t.k)
}

const isoBE = "symbolic execution over curve and isogeny contracts + polynomial identity"

func isoEnv(r *Report, F *sidhField, v byte, prvLen int) *isoLayer {
	e := newCurveEnv(r, F)
	l := &isoLayer{e: e, pts: map[string]isoPt{}, xzOf: map[string][2]*FE{}, phis: map[string]int{}, canon: map[string]*FE{}}
	ll, ex, st := F.group(v)
	l.l, l.exp, l.step = ll, ex, st
	l.nbits = F.secretBits(string(v))
	for i := 0; i < prvLen; i++ {
		l.prv = append(l.prv, e.x.C.Var(8, fmt.Sprintf("prv%d", i)))
	}
	l.install()
	return l
}

// check runs fn and the conditions common to both operations.
func (l *isoLayer) run(fn string, args []Value, assigns []Ptr, check func(st *State) *Res) *Res {
	z := l.e.run(fn, args, assigns, func(st *State, _ Value) *Res {
		if l.bad != "" {
			z := refuted("%s", l.bad)
			return &z
		}
		if n := l.exp / l.step; len(l.A)-1 != n {
			z := refuted("%d isogenies are composed, not %d", len(l.A)-1, n)
			return &z
		}
		return check(st)
	})
	if z != nil && !z.OK && l.bad != "" {
		w := refuted("%s", l.bad)
		return &w
	}
	return z
}

func sidhPublicKeyGen(r *Report, F *sidhField, v byte) Res {
	e0 := newCurveEnv(r, F)
	_, _, _, blen := e0.domain(v)
	e0.x.Close()
	l := isoEnv(r, F, v, blen)
	e, x, R := l.e, l.e.x, l.e.R
	defer x.Close()
	defer r.Merge(x)
	st, own, _, _ := e.domain(v)
	e.st = st
	o := byte('A' + 'B' - v)
	st, oth, _, _ := e.domain(o)
	e.st = st
	names := []string{"P", "Q", "P-Q"}
	for i := range names {
		l.bind(own[i], R.Int(1), isoPt{0, names[i], 0})
		l.bind(oth[i], R.Int(1), isoPt{0, names[i] + " of the other group", 0})
	}
	l.A, l.C = []*FE{R.Int(6)}, []*FE{R.Int(1)}
	f := x.P.Fn(F.pkg, fmt.Sprintf("PublicKeyGen%c", v))
	if f == nil || len(f.Params) != 2 {
		return undecided("no function PublicKeyGen%c(pub, prv)", v)
	}
	pub := Ptr{x.NewTyped(e.st, "pub3Pt", f.Params[0].Type().Underlying().(*types.Pointer).Elem()), x.C.I(0)}
	for i := 0; i < 3; i++ {
		e.l.Write(e.st, Ptr{pub.obj, x.C.I(int64(192 * i))}, "old", R.Var(fmt.Sprintf("old%d", i)), e.l.max)
	}
	pb := x.NewBytes(e.st, "prv", l.prv)
	prv := Slice{Ptr{pb, x.C.I(0)}, x.C.I(int64(blen)), x.C.I(int64(blen))}
	z := l.run(f.Name(), []Value{pub, prv}, []Ptr{pub}, func(st *State) *Res {
		img := map[isoPt][][2]*FE{}
		for k, g := range l.pts {
			if g.curve == len(l.A)-1 && g.m == 0 {
				img[g] = append(img[g], l.xzOf[k])
			}
		}
		for i, nm := range names {
			q := Ptr{pub.obj, x.C.I(int64(192 * i))}
			if m := padZero(x, st, q, F.n, 1); m != "" {
				z := refuted("public key: %s", m)
				return &z
			}
			got := e.l.Read(st, q)
			if got.max == nil || got.max.Cmp(e.l.max) > 0 {
				z := refuted("public key: coordinate %d leaves the range [0, 2p)", i)
				return &z
			}
			w := img[isoPt{len(l.A) - 1, nm + " of the other group", 0}]
			okk := false
			for _, xz := range w {
				okk = okk || R.Eq(R.Mul(got.v, xz[1]), xz[0])
			}
			if !okk {
				z := refuted("coordinate %d of the public key is not that of the image of %s of the other group: %s", i, nm, l.what(got.v))
				return &z
			}
		}
		return nil
	})
	if z == nil {
		z = l.ladders(v)
	}
	if z != nil {
		return *z
	}
	return okd("%d isogenies, %d points, %d field operations", len(l.A)-1, len(l.pts), e.l.n)
}

// what names a quotient of coordinates.
func (l *isoLayer) what(v *FE) string {
	for k, xz := range l.xzOf {
		if l.e.R.Eq(l.e.R.Mul(v, xz[1]), xz[0]) {
			return "it is x of " + l.pts[k].String()
		}
	}
	return "it is " + l.e.R.str(v)
}

func sidhDeriveSecret(r *Report, F *sidhField, v byte) Res {
	e0 := newCurveEnv(r, F)
	_, _, _, blen := e0.domain(v)
	e0.x.Close()
	l := isoEnv(r, F, v, blen)
	e, x, R := l.e, l.e.x, l.e.R
	c := x.C
	defer x.Close()
	defer r.Merge(x)
	f := x.P.Fn(F.pkg, fmt.Sprintf("DeriveSecret%c", v))
	if f == nil || len(f.Params) != 3 {
		return undecided("no function DeriveSecret%c(ss, prv, pub)", v)
	}
	pub := Ptr{x.NewTyped(e.st, "pub3Pt", f.Params[2].Type().Underlying().(*types.Pointer).Elem()), c.I(0)}
	var ps []*FE
	for i, nm := range []string{"P", "Q", "P-Q"} {
		ps = append(ps, R.Var("x("+nm+")"))
		e.l.Write(e.st, Ptr{pub.obj, c.I(int64(192 * i))}, nm, ps[i], e.l.max)
		l.bind(ps[i], R.Int(1), isoPt{0, nm, 0})
	}
	l.A, l.C = []*FE{specRecoverA(R, ps[0], ps[1], ps[2])}, []*FE{R.Int(1)}
	pb := x.NewBytes(e.st, "prv", l.prv)
	prv := Slice{Ptr{pb, c.I(0)}, c.I(int64(blen)), c.I(int64(blen))}
	n := 2 * F.bytelen
	tail := 16
	var old []*T
	for i := 0; i < n+tail; i++ {
		old = append(old, c.Var(8, fmt.Sprintf("ss%d", i)))
	}
	so := x.NewBytes(e.st, "ss", old)
	ss := Slice{Ptr{so, c.I(0)}, c.I(int64(n + tail)), c.I(int64(n + tail))}
	z := l.run(f.Name(), []Value{ss, prv, pub}, []Ptr{ss.p}, func(st *State) *Res {
		got := x.readBytes(st, ss.p, int64(n+tail))
		for i := n; i < n+tail; i++ {
			if got[i] != old[i] {
				z := refuted("byte %d of the buffer, beyond the secret, is written", i)
				return &z
			}
		}
		k := len(l.A) - 1
		A2, C2 := R.Sqr(l.A[k]), R.Sqr(l.C[k])
		want := R.k(256, R.Div(R.Pow(R.Sub(A2, R.k(3, C2)), 3), R.Mul(R.Sqr(C2), R.Sub(A2, R.k(4, C2)))))
		w := leWords(c, F.par(), got[:n])
		v, okk := l.canon[wkey(w)]
		if !okk {
			z := undecided("the secret is not the encoding of a canonical element: %v", got[0])
			if len(l.canon) > 0 {
				z.Status = "refuted"
			}
			return &z
		}
		if z, okk := R.feDiff(v, want, uint64(r.Seed)); !okk {
			z.Detail = "j-invariant: " + z.Detail
			return &z
		}
		return nil
	})
	if z == nil {
		z = l.ladders(v)
	}
	if z != nil {
		return *z
	}
	return okd("%d isogenies, %d points, %d field operations", len(l.A)-1, len(l.pts), e.l.n)
}

// sidhBasis: the base points of both groups, by evaluation of the library's constants.
func sidhBasis(r *Report, F *sidhField) Res {
	e := newCurveEnv(r, F)
	defer e.x.Close()
	st, _, ca, _ := e.domain('A')
	e.st = st
	_, _, cb, _ := e.domain('B')
	// x-only arithmetic on y^2 = x^3+6x^2+x over GF(p^2)
	f := gf2{F.p}
	six := [2]*big.Int{big.NewInt(6), new(big.Int)}
	for _, g := range []struct {
		n string
		v byte
		c [3][2]*big.Int
	}{{"A", 'A', ca}, {"B", 'B', cb}} {
		ll, ex, _ := F.group(g.v)
		if !f.eq(f.recoverA(g.c[0], g.c[1], g.c[2]), six) {
			return refuted("group %s: x(P), x(Q), x(P-Q) are not on y^2 = x^3+6x^2+x, or not those of P, Q, P-Q", g.n)
		}
		var top [3]gpt
		for i, nm := range []string{"P", "Q", "P-Q"} {
			if !f.onCurve(g.c[i], six) {
				return refuted("group %s: %s is on the twist", g.n, nm)
			}
			q := gpt{g.c[i], f.one()}
			for k := 0; k < ex-1; k++ {
				q = f.mulL(q, ll, six)
			}
			top[i] = q
			if i < 2 && f.zero(q.z) || !f.zero(f.mulL(q, ll, six).z) {
				return refuted("group %s: the order of %s is not %d^%d", g.n, nm, ll, ex)
			}
		}
		if f.same(top[0], top[1]) {
			return refuted("group %s: P and Q do not generate the torsion group", g.n)
		}
		if g.v == 'A' && (f.zero(top[0].x) || !f.zero(top[1].x)) {
			return refuted("group A: the point of order 2 above Q is not (0,0), or that above P is")
		}
	}
	return ok()
}

// gf2 is GF(p)[i].
type gf2 struct{ p *big.Int }
type ge = [2]*big.Int
type gpt struct{ x, z ge }

func (f gf2) n(a *big.Int) *big.Int { return a.Mod(a, f.p) }
func (f gf2) one() ge               { return ge{big.NewInt(1), new(big.Int)} }
func (f gf2) k(a ge, n int64) ge {
	return ge{f.n(new(big.Int).Mul(a[0], big.NewInt(n))), f.n(new(big.Int).Mul(a[1], big.NewInt(n)))}
}
func (f gf2) add(a, b ge) ge {
	return ge{f.n(new(big.Int).Add(a[0], b[0])), f.n(new(big.Int).Add(a[1], b[1]))}
}
func (f gf2) sub(a, b ge) ge { return f.add(a, f.k(b, -1)) }
func (f gf2) mul(a, b ge) ge {
	m := func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }
	return ge{f.n(new(big.Int).Sub(m(a[0], b[0]), m(a[1], b[1]))), f.n(new(big.Int).Add(m(a[0], b[1]), m(a[1], b[0])))}
}
func (f gf2) inv(a ge) ge {
	n := new(big.Int).Add(new(big.Int).Mul(a[0], a[0]), new(big.Int).Mul(a[1], a[1]))
	if f.n(n).Sign() == 0 {
		return ge{new(big.Int), new(big.Int)}
	}
	n.ModInverse(n, f.p)
	return f.mul(ge{a[0], f.n(new(big.Int).Neg(a[1]))}, ge{n, new(big.Int)})
}
func (f gf2) zero(a ge) bool  { return a[0].Sign() == 0 && a[1].Sign() == 0 }
func (f gf2) eq(a, b ge) bool { return f.zero(f.sub(a, b)) }
func (f gf2) same(p, q gpt) bool {
	return f.eq(f.mul(p.x, q.z), f.mul(q.x, p.z))
}
func (f gf2) onCurve(x, A ge) bool {
	v := f.mul(x, f.add(f.mul(x, f.add(x, A)), f.one()))
	n := new(big.Int).Add(new(big.Int).Mul(v[0], v[0]), new(big.Int).Mul(v[1], v[1]))
	return big.Jacobi(f.n(n), f.p) >= 0
}
func (f gf2) recoverA(a, b, c ge) ge {
	ab, ac, bc := f.mul(a, b), f.mul(a, c), f.mul(b, c)
	t := f.sub(f.sub(f.sub(f.one(), ab), ac), bc)
	t = f.mul(f.mul(t, t), f.inv(f.k(f.mul(ab, c), 4)))
	return f.sub(f.sub(f.sub(t, a), b), c)
}
func (f gf2) dbl(p gpt, A ge) gpt {
	xx, zz, xz := f.mul(p.x, p.x), f.mul(p.z, p.z), f.mul(p.x, p.z)
	d := f.sub(xx, zz)
	return gpt{f.mul(d, d), f.mul(f.k(xz, 4), f.add(f.add(xx, zz), f.mul(A, xz)))}
}
func (f gf2) mulL(p gpt, l int64, A ge) gpt {
	d := f.dbl(p, A)
	if l == 2 {
		return d
	}
	u := f.sub(f.mul(d.x, p.x), f.mul(d.z, p.z))
	v := f.sub(f.mul(d.x, p.z), f.mul(d.z, p.x))
	return gpt{f.mul(p.z, f.mul(u, u)), f.mul(p.x, f.mul(v, v))}
}

func propC16(r *Report) {
	r.Replay = sidhReplay("TestVerifIsogeny")
	r.Replay.Files["dh/sidh/zz_verif_test.go"] = "sidhkeys_test.go"
	r.Replay.Pkg = append(r.Replay.Pkg, "./dh/sidh")
	var jobs []func()
	for _, F := range []*sidhField{sidhFields[2], sidhFields[1], sidhFields[0]} {
		F := F
		for _, v := range []byte{'B', 'A'} {
			v := v
			jobs = append(jobs, func() {
				r.Ob(fmt.Sprintf("p%s.PublicKeyGen%c: the images of the other group's P, Q, P-Q under the isogeny with kernel <P+[k]Q>", F.name, v), isoBE, func() Res {
					return r.orBounded(func() Res { return sidhPublicKeyGen(r, F, v) })
				})
			}, func() {
				r.Ob(fmt.Sprintf("p%s.DeriveSecret%c: the encoded j-invariant of the codomain of the isogeny with kernel <P+[k]Q>", F.name, v), isoBE, func() Res {
					return r.orBounded(func() Res { return sidhDeriveSecret(r, F, v) })
				})
			})
		}
		jobs = append(jobs, func() {
			r.Ob(fmt.Sprintf("p%s: the base points generate the torsion groups of y^2 = x^3+6x^2+x", F.name), "evaluation", func() Res { return sidhBasis(r, F) })
		})
	}
	sidhDispatch(r, &jobs)
	Par(8, jobs...)
}

// orBounded: where the code has left the form the contracts can be applied to, the comparison with the
// reference on the real code stands in.
func (r *Report) orBounded(f func() Res) (res Res) {
	defer func() {
		p := recover()
		if p == nil {
			return
		}
		e, isE := p.(execErr)
		if !isE {
			panic(p)
		}
		ro := r.RunReplay(4, nil)
		switch {
		case ro.Failed:
			res = refuted("%s; the comparison with the reference fails", e.msg)
		case ro.Broken || ro.Cases == 0:
			res = undecided("%s", e.msg)
		default:
			res = Res{OK: true, Bounded: fmt.Sprintf("%d native comparisons with a reference (%s)", ro.Cases, e.msg)}
		}
	}()
	return f()
}

// sidhDispatch: the key objects use the operation of their prime and group on their own scalar and
// the peer's coordinates.
func sidhDispatch(r *Report, jobs *[]func()) {
	be := "symbolic execution over the contracts of PublicKeyGen and DeriveSecret + normal form"
	kvs := []uint64{kvA, kvB, kvSike}
	grp := func(kv uint64) byte {
		if kv == kvA {
			return 'A'
		}
		return 'B'
	}
	ob := func(nm string, f func(x *Exec) Res) {
		*jobs = append(*jobs, func() {
			r.Ob(nm, be, func() Res {
				x := newX("amd64")
				defer x.Close()
				defer r.Merge(x)
				sidhOps(x)
				return f(x)
			})
		})
	}
	for _, F := range sidhPars {
		F := F
		for _, api := range []string{"method", "function"} {
			api := api
			gen := func(x *Exec, st *State, prv, pub *sidhKey) []*Outcome {
				if api == "method" {
					return allOuts(x.Call(st, x.P.MustFn("dh/sidh", "PrivateKey.GeneratePublicKey"), prv.ptr(), pub.ptr()))
				}
				return allOuts(x.Call(st, x.P.MustFn("dh/sidh", "GeneratePublicKey"), pub.ptr(), prv.ptr()))
			}
			der := func(x *Exec, st *State, ss Slice, prv, pub *sidhKey) []*Outcome {
				if api == "method" {
					return allOuts(x.Call(st, x.P.MustFn("dh/sidh", "PrivateKey.DeriveSecret"), prv.ptr(), ss, pub.ptr()))
				}
				return allOuts(x.Call(st, x.P.MustFn("dh/sidh", "DeriveSecret"), ss, pub.ptr(), prv.ptr()))
			}
			ob(fmt.Sprintf("%s GeneratePublicKey (%s): the key's own group and scalar; refuses a public key of another prime or variant", F.name, api), func(x *Exec) Res {
				for _, kv := range kvs {
					for _, pv := range kvs {
						for _, G := range sidhPars {
							st, prv := sidhNewKey(x, x.NewState(), F, "PrivateKey", kv, "New", "prv")
							st, pub := sidhNewKey(x, st, G, "PublicKey", pv, "New", "pub")
							what := fmt.Sprintf("private key %s %s, public key %s %s", F.name, kvName[kv], G.name, kvName[pv])
							sn := snap(st)
							for _, q := range gen(x, st, prv, pub) {
								if kv != pv || F.id != G.id {
									if m := sn.frame(q.st); q.kind == "ret" || m != "" {
										return refuted("%s: not refused, or refused after writing: %s", what, m)
									}
									continue
								}
								if q.kind != "ret" {
									return refuted("%s: %s", what, q.msg)
								}
								if m := sn.frame(q.st, pub.o); m != "" || !pub.sameHeader(sn, q.st) {
									return refuted("%s: frame: %s", what, m)
								}
								want := sidhPub(x.C, F, grp(kv), prv.bytesOf(q.st, prv.sc))
								for i := range want {
									got, pad := pub.elem(q.st, i)
									if !pad {
										return refuted("%s: padding", what)
									}
									if e := eqAll(x.C, r.Seed, fmt.Sprintf("%s: coordinate %d word", what, i), got, want[i]); e != nil {
										return *e
									}
								}
							}
						}
					}
				}
				return ok()
			})
			ob(fmt.Sprintf("%s DeriveSecret (%s): the own group and scalar with the peer's coordinates; refuses a public key of another prime or the same variant", F.name, api), func(x *Exec) Res {
				for _, kv := range kvs {
					for _, pv := range kvs {
						for _, G := range sidhPars {
							st, prv := sidhNewKey(x, x.NewState(), F, "PrivateKey", kv, "New", "prv")
							st, pub := sidhNewKey(x, st, G, "PublicKey", pv, "New", "pub")
							what := fmt.Sprintf("private key %s %s, public key %s %s", F.name, kvName[kv], G.name, kvName[pv])
							n := int64(2 * F.bl)
							ss := x.bufLen(st, "ss", n+9, n+9)
							sn := snap(st)
							for _, q := range der(x, st, ss, prv, pub) {
								if kv == pv || F.id != G.id {
									if m := sn.frame(q.st); q.kind == "ret" || m != "" {
										return refuted("%s: not refused, or refused after writing: %s", what, m)
									}
									continue
								}
								if q.kind != "ret" {
									return refuted("%s: %s", what, q.msg)
								}
								if m := sn.frame(q.st, ss.p.obj); m != "" || !sn.same(q.st, ss.p.obj, n, n+9) {
									return refuted("%s: frame: %s", what, m)
								}
								var canon [3][]*T
								for i := range canon {
									w, _ := pub.elem(st, i)
									canon[i] = montUF(x, F, "FromMontgomery", w)
								}
								want := sidhSecret(x, F, grp(kv), prv.bytesOf(q.st, prv.sc), canon)
								if e := eqAll(x.C, r.Seed, what+": byte", x.readBytes(q.st, ss.p, n), want); e != nil {
									return *e
								}
							}
						}
					}
				}
				return ok()
			})
		}
	}
}

func allOuts(q []*Outcome, err error) []*Outcome {
	if err != nil {
		unsup("%v", err)
	}
	return q
}
