//go:build go1.21

package p751

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	. "github.com/henrydcase/nobs/dh/sidh/common"
)

func vEnv() (cex []map[string]string, secs time.Duration, rng *rand.Rand) {
	b, _ := os.ReadFile(os.Getenv("VERIF_CEX"))
	json.Unmarshal(b, &cex)
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if n == 0 {
		n = 1
	}
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return cex, time.Duration(n) * time.Second, rand.New(rand.NewSource(s))
}

func vFail(t *testing.T, f string, a ...interface{}) {
	fmt.Printf("VERIF-FAIL "+f+"\n", a...)
	t.Fatal("mismatch")
}

var vE = map[string][2]int64{"p4" + "34": {216, 137}, "p5" + "03": {250, 159}, "p7" + "51": {372, 239}}["p751"]

var vP = func() *big.Int {
	p := new(big.Int).Exp(big.NewInt(3), big.NewInt(vE[1]), nil)
	return p.Lsh(p, uint(vE[0])).Sub(p, big.NewInt(1))
}()
var vNW = (vP.BitLen() + 63) / 64
var vR = new(big.Int).Lsh(big.NewInt(1), uint(64*vNW))

func vSet(w []uint64, v *big.Int) {
	m := new(big.Int).SetUint64(^uint64(0))
	for i := range w {
		w[i] = new(big.Int).And(new(big.Int).Rsh(v, uint(64*i)), m).Uint64()
	}
}

func vToFp(v *big.Int) (r Fp) { vSet(r[:], v); return }

func vBig(w []uint64) *big.Int {
	v := new(big.Int)
	for i := len(w) - 1; i >= 0; i-- {
		v.Lsh(v, 64).Add(v, new(big.Int).SetUint64(w[i]))
	}
	return v
}

func vKey(c map[string]string, ks ...string) *big.Int {
	for _, k := range ks {
		if s, ok := c[k]; ok {
			v, _ := new(big.Int).SetString(strings.TrimPrefix(s, "0x"), 16)
			if v != nil {
				return v
			}
		}
	}
	return new(big.Int)
}

func vRand(rng *rand.Rand, lim *big.Int) *big.Int {
	n := (lim.BitLen() + 63) / 64
	v := new(big.Int)
	for i := 0; i < n; i++ {
		w := rng.Uint64()
		switch rng.Intn(4) {
		case 0:
			w = 0
		case 1:
			w = ^uint64(0)
		}
		v.Lsh(v, 64).Or(v, new(big.Int).SetUint64(w))
	}
	switch rng.Intn(8) {
	case 0:
		v.SetInt64(rng.Int63n(4))
	case 1:
		v.Sub(lim, big.NewInt(1+rng.Int63n(4)))
	case 2:
		v = new(big.Int).Rand(rng, lim)
	}
	return v.Mod(v, lim)
}

func vFlags(c map[string]string) func() {
	a, b := HasBMI2, HasADXandBMI2
	on := func(s string) bool { return s == "1" || s == "true" || s == "0x1" }
	if s, ok := c["flag:HasBMI2"]; ok {
		HasBMI2 = on(s)
	}
	if s, ok := c["flag:HasADXandBMI2"]; ok {
		HasADXandBMI2 = on(s)
	}
	return func() { HasBMI2, HasADXandBMI2 = a, b }
}

func vCase(t *testing.T, x, y, X, Y, u, v *big.Int) {
	p2 := new(big.Int).Lsh(vP, 1)
	pR := new(big.Int).Mul(vP, vR)
	Ri := new(big.Int).ModInverse(vR, vP)
	bad := func(fn string, al int, got, want, a, b *big.Int) {
		vFail(t, "%s(%#x, %#x) aliasing %d, BMI2 %v ADX %v: %#x, exact %#x", fn, a, b, al, HasBMI2, HasADXandBMI2, got, want)
	}
	for al := 0; al < 5; al++ {
		for op := 0; op < 2; op++ {
			fx, fy := vToFp(x), vToFp(y)
			var fr Fp
			px, py, pr, wy := &fx, &fy, &fr, y
			Fx, Fy, Fr := new(FpX2), new(FpX2), new(FpX2)
			vSet(Fx[:], X)
			vSet(Fy[:], Y)
			WY := Y
			switch al {
			case 1:
				pr, Fr = px, Fx
			case 2:
				pr, Fr = py, Fy
			case 3:
				py, wy, Fy, WY = px, x, Fx, X
			case 4:
				py, wy, pr, Fy, WY, Fr = px, x, px, Fx, X, Fx
			}
			nm, w, W := "addP", new(big.Int).Add(x, wy), new(big.Int).Add(X, WY)
			if op == 0 {
				addP751(pr, px, py)
				adlP751(Fr, Fx, Fy)
				W.Mod(W, new(big.Int).Mul(vR, vR))
			} else {
				nm, w, W = "subP", new(big.Int).Sub(x, wy), new(big.Int).Sub(X, WY)
				subP751(pr, px, py)
				sulP751(Fr, Fx, Fy)
				W.Mod(W, pR)
			}
			w.Mod(w, p2)
			if g := vBig(pr[:]); new(big.Int).Mod(g, vP).Cmp(new(big.Int).Mod(w, vP)) != 0 || g.Cmp(p2) >= 0 {
				bad(nm, al, g, w, x, wy)
			}
			if g := vBig(Fr[:]); g.Cmp(W) != 0 {
				bad(map[int]string{0: "adlP", 1: "sulP"}[op], al, g, W, X, WY)
			}
		}
	}
	fx, fy := vToFp(x), vToFp(y)
	m := fx
	modP751(&m)
	if w := new(big.Int).Mod(x, vP); w.Cmp(vBig(m[:])) != 0 {
		bad("modP", 0, vBig(m[:]), w, x, x)
	}
	for ch := uint8(0); ch < 2; ch++ {
		a, b := fx, fy
		cswapP751(&a, &b, ch)
		if ch == 0 && (a != fx || b != fy) || ch == 1 && (a != fy || b != fx) {
			bad("cswapP", int(ch), vBig(a[:]), vBig(b[:]), x, y)
		}
	}
	fu, fv := vToFp(u), vToFp(v)
	var z FpX2
	mulP751(&z, &fu, &fv)
	if w := new(big.Int).Mul(u, v); w.Cmp(vBig(z[:])) != 0 {
		bad("mulP", 0, vBig(z[:]), w, u, v)
	}
	mulP751(&z, &fu, &fu)
	if w := new(big.Int).Mul(u, u); w.Cmp(vBig(z[:])) != 0 {
		bad("mulP", 3, vBig(z[:]), w, u, u)
	}
	vSet(z[:], X)
	var r Fp
	rdcP751(&r, &z)
	w := new(big.Int).Mul(X, Ri)
	w.Mod(w, vP)
	if g := vBig(r[:]); new(big.Int).Mod(g, vP).Cmp(w) != 0 || g.Cmp(p2) >= 0 {
		bad("rdcP", 0, g, w, X, X)
	}
}

func TestVerifField(t *testing.T) {
	cex, d, rng := vEnv()
	p2 := new(big.Int).Lsh(vP, 1)
	pR := new(big.Int).Mul(vP, vR)
	in := new(big.Int).Lsh(big.NewInt(1), uint(8*((vP.BitLen()+7)/8)))
	n := 0
	for _, c := range cex {
		un := vFlags(c)
		x, y := vKey(c, "x"), vKey(c, "y")
		md := func(v, m *big.Int) *big.Int { return new(big.Int).Mod(v, m) }
		vCase(t, md(x, p2), md(y, p2), md(x, pR), md(y, pR), md(x, in), md(y, in))
		un()
		n++
	}
	type fl struct{ a, b bool }
	fls := []fl{{false, false}}
	if HasBMI2 {
		fls = append(fls, fl{true, false})
	}
	if HasADXandBMI2 {
		fls = append(fls, fl{true, true})
	}
	for start := time.Now(); time.Since(start) < d; n++ {
		a, b := HasBMI2, HasADXandBMI2
		f := fls[n%len(fls)]
		HasBMI2, HasADXandBMI2 = f.a, f.b
		vCase(t, vRand(rng, p2), vRand(rng, p2), vRand(rng, pR), vRand(rng, pR), vRand(rng, in), vRand(rng, in))
		HasBMI2, HasADXandBMI2 = a, b
	}
	fmt.Printf("VERIF-CASES %d\n", n)
	fmt.Printf("VERIF-SAMPLE x=%x\n", vRand(rng, p2))
}

// ---- GF(p^2) reference

type v2 struct{ a, b *big.Int }

func vm(a *big.Int) *big.Int { return a.Mod(a, vP) }
func (x v2) add(y v2) v2 {
	return v2{vm(new(big.Int).Add(x.a, y.a)), vm(new(big.Int).Add(x.b, y.b))}
}
func (x v2) sub(y v2) v2 {
	return v2{vm(new(big.Int).Sub(x.a, y.a)), vm(new(big.Int).Sub(x.b, y.b))}
}
func (x v2) mul(y v2) v2 {
	ac, bd := new(big.Int).Mul(x.a, y.a), new(big.Int).Mul(x.b, y.b)
	ad, bc := new(big.Int).Mul(x.a, y.b), new(big.Int).Mul(x.b, y.a)
	return v2{vm(ac.Sub(ac, bd)), vm(ad.Add(ad, bc))}
}
func (x v2) sqr() v2 { return x.mul(x) }
func (x v2) k(n int64) v2 {
	return v2{vm(new(big.Int).Mul(x.a, big.NewInt(n))), vm(new(big.Int).Mul(x.b, big.NewInt(n)))}
}
func (x v2) inv() v2 {
	n := new(big.Int).Add(new(big.Int).Mul(x.a, x.a), new(big.Int).Mul(x.b, x.b))
	if vm(n).Sign() == 0 {
		return v2{new(big.Int), new(big.Int)}
	}
	n.ModInverse(n, vP)
	return v2{vm(new(big.Int).Mul(x.a, n)), vm(new(big.Int).Mul(new(big.Int).Neg(x.b), n))}
}
func (x v2) zero() bool     { return x.a.Sign() == 0 && x.b.Sign() == 0 }
func (x v2) eq(y v2) bool   { return x.a.Cmp(y.a) == 0 && x.b.Cmp(y.b) == 0 }
func (x v2) String() string { return fmt.Sprintf("(%#x, %#x)", x.a, x.b) }
func vI(n int64) v2         { return v2{vm(big.NewInt(n)), new(big.Int)} }

// to Montgomery form, in a random lazily reduced representation
func (x v2) fp2(rng *rand.Rand) (r Fp2) {
	f := func(v *big.Int) Fp {
		w := vm(new(big.Int).Mul(v, vR))
		if rng.Intn(2) == 1 {
			w.Add(w, vP)
		}
		return vToFp(w)
	}
	return Fp2{A: f(x.a), B: f(x.b)}
}
func vOf(x *Fp2) v2 {
	Ri := new(big.Int).ModInverse(vR, vP)
	f := func(w *Fp) *big.Int { return vm(new(big.Int).Mul(vBig(w[:]), Ri)) }
	return v2{f(&x.A), f(&x.B)}
}
func vRange(x *Fp2) bool {
	p2 := new(big.Int).Lsh(vP, 1)
	return vBig(x.A[:]).Cmp(p2) < 0 && vBig(x.B[:]).Cmp(p2) < 0
}
func vRand2(rng *rand.Rand) v2 { return v2{vRand(rng, vP), vRand(rng, vP)} }

func TestVerifFp2(t *testing.T) {
	_, d, rng := vEnv()
	n := 0
	for start := time.Now(); time.Since(start) < d; n++ {
		x, y, z := vRand2(rng), vRand2(rng), vRand2(rng)
		chk := func(nm string, got *Fp2, want v2) {
			if !vOf(got).eq(want) || !vRange(got) {
				vFail(t, "%s of %v, %v: %v (limbs %x), exact %v", nm, x, y, vOf(got), *got, want)
			}
		}
		for al := 0; al < 5; al++ {
			for nm, o := range map[string]struct {
				f func(d, a, b *Fp2)
				w func(a, b v2) v2
			}{"add": {add, v2.add}, "sub": {sub, v2.sub}, "mul": {mul, v2.mul}} {
				fx, fy := x.fp2(rng), y.fp2(rng)
				var fr Fp2
				px, py, pr, wy := &fx, &fy, &fr, y
				switch al {
				case 1:
					pr = px
				case 2:
					pr = py
				case 3:
					py, wy = px, x
				case 4:
					py, wy, pr = px, x, px
				}
				o.f(pr, px, py)
				chk(fmt.Sprintf("%s (aliasing %d)", nm, al), pr, o.w(x, wy))
			}
		}
		for al := 0; al < 2; al++ {
			fx := x.fp2(rng)
			var fr Fp2
			pr := &fr
			if al == 1 {
				pr = &fx
			}
			sqr(pr, &fx)
			chk("sqr", pr, x.sqr())
			fx = x.fp2(rng)
			inv(pr, &fx)
			chk("inv", pr, x.inv())
			in := new(big.Int).Lsh(big.NewInt(1), uint(8*((vP.BitLen()+7)/8)))
			u, v := vRand(rng, in), vRand(rng, in)
			raw := Fp2{A: vToFp(u), B: vToFp(v)}
			pr = &fr
			if al == 1 {
				pr = &raw
			}
			ToMontgomery(pr, &raw)
			chk("ToMontgomery", pr, v2{vm(new(big.Int).Set(u)), vm(new(big.Int).Set(v))})
			fx = x.fp2(rng)
			pr = &fr
			if al == 1 {
				pr = &fx
			}
			FromMontgomery(pr, &fx)
			if vBig(pr.A[:]).Cmp(x.a) != 0 || vBig(pr.B[:]).Cmp(x.b) != 0 {
				vFail(t, "FromMontgomery of %v: %x", x, *pr)
			}
		}
		x1, x2, x3 := x.fp2(rng), y.fp2(rng), z.fp2(rng)
		var y1, y2, y3 Fp2
		Fp2Batch3Inv(&x1, &x2, &x3, &y1, &y2, &y3)
		if !x.zero() && !y.zero() && !z.zero() {
			chk("Fp2Batch3Inv y1", &y1, x.inv())
			chk("Fp2Batch3Inv y2", &y2, y.inv())
			chk("Fp2Batch3Inv y3", &y3, z.inv())
		}
	}
	fmt.Printf("VERIF-CASES %d\n", n)
	fmt.Printf("VERIF-SAMPLE x=%v\n", vRand2(rng))
}

// ---- x-only reference on the curve y^2 = x^3 + (A/C)x^2 + x

type vPt struct{ X, Z v2 }

func vDbl(p vPt, A, C v2) vPt {
	// ((X^2-Z^2)^2 : 4XZ(X^2+(A/C)XZ+Z^2)), cleared by C
	s := p.X.sqr().sub(p.Z.sqr()).sqr().mul(C)
	q := p.X.sqr().mul(C).add(p.X.mul(p.Z).mul(A)).add(p.Z.sqr().mul(C))
	return vPt{s, p.X.mul(p.Z).k(4).mul(q)}
}
func vAdd(p, q, d vPt) vPt {
	u := p.X.mul(q.X).sub(p.Z.mul(q.Z)).sqr()
	v := p.X.mul(q.Z).sub(p.Z.mul(q.X)).sqr()
	return vPt{u.mul(d.Z), v.mul(d.X)}
}
func vTpl(p vPt, A, C v2) vPt { return vAdd(vDbl(p, A, C), p, p) }
func vMul(k *big.Int, p vPt, A, C v2) vPt {
	r0, r1 := vPt{vI(1), vI(0)}, p
	for i := k.BitLen() - 1; i >= 0; i-- {
		if k.Bit(i) == 0 {
			r0, r1 = vDbl(r0, A, C), vAdd(r1, r0, p)
		} else {
			r0, r1 = vAdd(r1, r0, p), vDbl(r1, A, C)
		}
	}
	return r0
}
func (p vPt) same(q vPt) bool {
	return !(p.X.zero() && p.Z.zero()) && !(q.X.zero() && q.Z.zero()) && p.X.mul(q.Z).eq(p.Z.mul(q.X))
}

func TestVerifCurve(t *testing.T) {
	_, d, rng := vEnv()
	n := 0
	pt := func(p vPt) ProjectivePoint { return ProjectivePoint{X: p.X.fp2(rng), Z: p.Z.fp2(rng)} }
	of := func(p *ProjectivePoint) vPt { return vPt{vOf(&p.X), vOf(&p.Z)} }
	full := func() v2 { return v2{new(big.Int).Rand(rng, vP), new(big.Int).Rand(rng, vP)} }
	for start := time.Now(); time.Since(start) < d; n++ {
		A, C := full(), full()
		P, Q, D := vPt{full(), full()}, vPt{full(), full()}, vPt{full(), full()}
		in := fmt.Sprintf("P=%v Q=%v A=%v C=%v", P, Q, A, C)
		cp := ProjectiveCurveParameters{A: A.fp2(rng), C: C.fp2(rng)}
		same := func(nm string, g ProjectivePoint, w vPt) {
			if !of(&g).same(w) {
				vFail(t, "%s: %v, exact %v; %s", nm, of(&g), w, in)
			}
		}
		eq := func(nm string, g *Fp2, w v2) {
			if !vOf(g).eq(w) {
				vFail(t, "%s: %v, exact %v; %s", nm, vOf(g), w, in)
			}
		}
		prop := func(nm string, a, c *Fp2, wa, wc v2) {
			if !(vPt{vOf(a), vOf(c)}).same(vPt{wa, wc}) {
				vFail(t, "%s: (%v : %v), exact (%v : %v); %s", nm, vOf(a), vOf(c), wa, wc, in)
			}
		}
		// constants
		e4 := CalcCurveParamsEquiv4(&cp)
		prop("CalcCurveParamsEquiv4", &e4.A, &e4.C, A.add(C.k(2)), C.k(4))
		e3 := CalcCurveParamsEquiv3(&cp)
		prop("CalcCurveParamsEquiv3", &e3.A, &e3.C, A.add(C.k(2)), A.sub(C.k(2)))
		a24 := CalcAplus2Over4(&cp)
		eq("CalcAplus2Over4", &a24, A.add(C.k(2)).mul(C.k(4).inv()))
		var r ProjectiveCurveParameters
		RecoverCurveCoefficients4(&r, &e4)
		prop("RecoverCurveCoefficients4", &r.A, &r.C, A, C)
		RecoverCurveCoefficients3(&r, &e3)
		prop("RecoverCurveCoefficients3", &r.A, &r.C, A, C)
		var j Fp2
		Jinvariant(&cp, &j)
		a := A.mul(C.inv())
		b := a.sqr().sub(vI(3))
		eq("Jinvariant", &j, b.sqr().mul(b).k(256).mul(a.sqr().sub(vI(4)).inv()))
		xp, xq, xr := P.X.fp2(rng), Q.X.fp2(rng), P.Z.fp2(rng)
		RecoverCoordinateA(&r, &xp, &xq, &xr)
		s := vI(1).sub(P.X.mul(Q.X)).sub(P.X.mul(P.Z)).sub(Q.X.mul(P.Z)).sqr()
		eq("RecoverCoordinateA", &r.A, s.mul(P.X.mul(Q.X).mul(P.Z).k(4).inv()).sub(P.X).sub(Q.X).sub(P.Z))
		// group law
		pp, pq, pd := pt(P), pt(Q), pt(D)
		dd, pa := xDbladd(&pp, &pq, &pd, &a24)
		same("xDbladd (double)", dd, vDbl(P, A, C))
		same("xDbladd (sum)", pa, vAdd(P, Q, D))
		ks := []uint32{0, 1, 2, 3}
		if n%32 == 5 {
			ks = append(ks, []uint32{31, 64, 127, 128, 255, 256, 257, 300, 511, 512, 700}[n/32%11])
		}
		for _, k := range ks {
			w2, w3 := P, P
			for i := uint32(0); i < k; i++ {
				w2, w3 = vDbl(w2, A, C), vTpl(w3, A, C)
			}
			g := pt(P)
			Pow2k(&g, &e4, k)
			same(fmt.Sprintf("Pow2k(%d)", k), g, w2)
			g = pt(P)
			Pow3k(&g, &e3, k)
			same(fmt.Sprintf("Pow3k(%d)", k), g, w3)
		}
		if n%4 == 0 {
			nb := []uint{params.A.SecretBitLen, params.B.SecretBitLen}[n/4%2]
			sc := make([]byte, (nb+7)/8)
			rng.Read(sc)
			if rng.Intn(4) == 0 {
				for i := range sc {
					sc[i] = []byte{0, 255}[rng.Intn(2)]
				}
			}
			k := new(big.Int)
			for i := int(nb) - 1; i >= 0; i-- {
				k.Lsh(k, 1).Or(k, big.NewInt(int64(sc[i/8]>>uint(i%8)&1)))
			}
			// Q = [2]P, P-Q = -P: P+[k]Q = [1+2k]P
			q2 := vDbl(P, A, C)
			pp, pq, pd := pt(P), pt(q2), pt(P)
			g := ScalarMul3Pt(&cp, &pp, &pq, &pd, nb, sc)
			k.Lsh(k, 1).Add(k, big.NewInt(1))
			same(fmt.Sprintf("ScalarMul3Pt, scalar %x", sc), g, vMul(k, P, A, C))
		}
		// isogenies: kernel point K, image of Q
		kp := pt(P)
		var p3 isogeny3
		c3 := p3.GenerateCurve(&kp)
		x3 := P.X.mul(P.Z.inv())
		x := Q.X.mul(Q.Z.inv())
		// the curve the kernel is a 3-torsion point of: A = (1-6x^2-3x^4)/(4x^3); codomain (Ax-6x^2+6)x
		A3 := vI(1).sub(x3.sqr().k(6)).sub(x3.sqr().sqr().k(3)).mul(x3.sqr().mul(x3).k(4).inv())
		A3n := A3.mul(x3).sub(x3.sqr().k(6)).add(vI(6)).mul(x3)
		prop("isogeny3.GenerateCurve", &c3.A, &c3.C, A3n.add(vI(2)), A3n.sub(vI(2)))
		qp := pt(Q)
		same("isogeny3.EvaluatePoint", p3.EvaluatePoint(&qp), vPt{x.mul(x.mul(x3).sub(vI(1)).sqr()), x.sub(x3).sqr()})
		var p4 isogeny4
		kp = pt(P)
		c4 := p4.GenerateCurve(&kp)
		prop("isogeny4.GenerateCurve", &c4.A, &c4.C, x3.sqr().sqr(), vI(1))
		qp = pt(Q)
		num := x.mul(x3.sqr()).add(x).sub(x3.k(2)).mul(x).mul(x.mul(x3).sub(vI(1)).sqr())
		den := x.sub(x3).sqr().mul(x.mul(x3).k(2).sub(x3.sqr()).sub(vI(1)))
		same("isogeny4.EvaluatePoint", p4.EvaluatePoint(&qp), vPt{vI(0).sub(num), den})
	}
	fmt.Printf("VERIF-CASES %d\n", n)
	fmt.Printf("VERIF-SAMPLE P=%v\n", vRand2(rng))
}

// ---- isogeny walk, one step at a time from the kernel point

func vDomain(p *DomainParams) (r [3]v2) {
	return [3]v2{vOf(&p.AffineP), vOf(&p.AffineQ), vOf(&p.AffineR)}
}

func vKernel(b [3]v2, sc []byte, nb uint, A v2) vPt {
	r0, r1, r2 := vPt{b[1], vI(1)}, vPt{b[0], vI(1)}, vPt{b[2], vI(1)}
	for i := uint(0); i < nb; i++ {
		if sc[i/8]>>(i%8)&1 == 1 {
			r1 = vAdd(r0, r1, r2)
		} else {
			r2 = vAdd(r0, r2, r1)
		}
		r0 = vDbl(r0, A, vI(1))
	}
	return r1
}

// vWalk maps points along the isogeny with kernel <K> of order 2^e2 or 3^e3.
func vWalk(three bool, A v2, K vPt, ps []vPt) (v2, []vPt) {
	one := vI(1)
	n := int(vE[0] / 2)
	if three {
		n = int(vE[1])
	}
	for i := 0; i < n; i++ {
		T := K
		for j := 0; j < n-1-i; j++ {
			if three {
				T = vTpl(T, A, one)
			} else {
				T = vDbl(vDbl(T, A, one), A, one)
			}
		}
		k := T.X.mul(T.Z.inv())
		var f func(p vPt) vPt
		if three {
			A = A.mul(k).sub(k.sqr().k(6)).add(vI(6)).mul(k)
			f = func(p vPt) vPt {
				return vPt{p.X.mul(p.X.mul(k).sub(p.Z).sqr()), p.Z.mul(p.X.sub(p.Z.mul(k)).sqr())}
			}
		} else {
			A = k.sqr().sqr().k(4).sub(vI(2))
			s := k.sqr().add(one)
			f = func(p vPt) vPt {
				xz := p.X.mul(s).sub(p.Z.mul(k).k(2))
				w := p.X.mul(k).k(2).sub(p.Z.mul(s))
				return vPt{vI(0).sub(p.X.mul(xz).mul(p.X.mul(k).sub(p.Z).sqr())), p.Z.mul(p.X.sub(p.Z.mul(k)).sqr()).mul(w)}
			}
		}
		K = f(K)
		for h := range ps {
			ps[h] = f(ps[h])
		}
	}
	return A, ps
}

func TestVerifIsogeny(t *testing.T) {
	_, d, rng := vEnv()
	n := 0
	var pub [2][3]v2
	have := [2]bool{}
	for start := time.Now(); time.Since(start) < d || n < 4; n++ {
		g := n / 2 % 2
		own, oth := &params.A, &params.B
		if g == 1 {
			own, oth = oth, own
		}
		sc := make([]byte, own.SecretByteLen)
		rng.Read(sc)
		switch rng.Intn(8) {
		case 0:
			for i := range sc {
				sc[i] = 0
			}
		case 1:
			for i := range sc {
				sc[i] = 255
			}
		case 2, 3, 4:
			// a small number: clear some of the top bytes
			z := 1 + rng.Intn(3)
			if rng.Intn(4) == 0 {
				z = 1 + rng.Intn(len(sc)-1)
			}
			for i := 0; i < z; i++ {
				sc[len(sc)-1-i] = 0
			}
			sc[len(sc)-1-z] |= 0x80
		}
		cp := append([]byte(nil), sc...)
		nm := fmt.Sprintf("group %c, scalar %x", "AB"[g], sc)
		if n%2 == 0 {
			o := vDomain(oth)
			K := vKernel(vDomain(own), sc, own.SecretBitLen, vI(6))
			_, im := vWalk(g == 1, vI(6), K, []vPt{{o[0], vI(1)}, {o[1], vI(1)}, {o[2], vI(1)}})
			var got [3]Fp2
			for i := range got {
				got[i] = vRand2(rng).fp2(rng)
			}
			if g == 0 {
				PublicKeyGenA(&got, sc)
			} else {
				PublicKeyGenB(&got, sc)
			}
			for i := range got {
				w := im[i].X.mul(im[i].Z.inv())
				if !vOf(&got[i]).eq(w) || !vRange(&got[i]) {
					vFail(t, "PublicKeyGen, %s: coordinate %d is %v, exact %v", nm, i, vOf(&got[i]), w)
				}
				pub[g][i] = w
			}
			have[g] = true
		} else {
			if !have[1-g] {
				o := vDomain(own) // the peer's isogeny maps our base points
				s2 := make([]byte, oth.SecretByteLen)
				rng.Read(s2)
				K := vKernel(vDomain(oth), s2, oth.SecretBitLen, vI(6))
				_, im := vWalk(g == 0, vI(6), K, []vPt{{o[0], vI(1)}, {o[1], vI(1)}, {o[2], vI(1)}})
				for i := range im {
					pub[1-g][i] = im[i].X.mul(im[i].Z.inv())
				}
			}
			p := pub[1-g]
			s := vI(1).sub(p[0].mul(p[1])).sub(p[0].mul(p[2])).sub(p[1].mul(p[2])).sqr()
			A := s.mul(p[0].mul(p[1]).mul(p[2]).k(4).inv()).sub(p[0]).sub(p[1]).sub(p[2])
			A2, _ := vWalk(g == 1, A, vKernel(p, sc, own.SecretBitLen, A), nil)
			b := A2.sqr().sub(vI(3))
			j := b.sqr().mul(b).k(256).mul(A2.sqr().sub(vI(4)).inv())
			var in [3]Fp2
			for i := range in {
				in[i] = p[i].fp2(rng)
			}
			in0 := in
			ss := make([]byte, 2*params.Bytelen+5)
			for i := range ss {
				ss[i] = 0xa5
			}
			if g == 0 {
				DeriveSecretA(ss, sc, &in)
			} else {
				DeriveSecretB(ss, sc, &in)
			}
			w := make([]byte, len(ss))
			for i := range w {
				w[i] = 0xa5
			}
			for i := 0; i < params.Bytelen; i++ {
				w[i] = byte(new(big.Int).Rsh(j.a, uint(8*i)).Uint64())
				w[params.Bytelen+i] = byte(new(big.Int).Rsh(j.b, uint(8*i)).Uint64())
			}
			if string(ss) != string(w) {
				vFail(t, "DeriveSecret, %s, peer %v: %x, exact %x", nm, p, ss, w)
			}
			if in != in0 {
				vFail(t, "DeriveSecret, %s: the peer's key is changed", nm)
			}
		}
		if string(cp) != string(sc) {
			vFail(t, "%s: the scalar is changed", nm)
		}
	}
	// operations do not disturb each other
	for g := 0; g < 2; g++ {
		dp := [2]*DomainParams{&params.A, &params.B}[g]
		op := func(i int, sc []byte, pub *[3]Fp2) string {
			if i%2 == 0 {
				var o [3]Fp2
				[2]func(*[3]Fp2, []byte){PublicKeyGenA, PublicKeyGenB}[g](&o, sc)
				return fmt.Sprint(o)
			}
			ss := make([]byte, 2*params.Bytelen)
			[2]func(ss, prv []byte, pub *[3]Fp2){DeriveSecretA, DeriveSecretB}[g](ss, sc, pub)
			return fmt.Sprint(ss)
		}
		var scs [16][]byte
		var pubs [16][3]Fp2
		var want, got [16]string
		for i := range scs {
			scs[i] = make([]byte, dp.SecretByteLen)
			rng.Read(scs[i])
			for k := range pubs[i] {
				pubs[i][k] = vRand2(rng).fp2(rng)
			}
			want[i] = op(i, scs[i], &pubs[i])
		}
		done := make(chan bool)
		for i := range scs {
			go func(i int) { got[i] = op(i, scs[i], &pubs[i]); done <- true }(i)
		}
		for range scs {
			<-done
		}
		if got != want {
			vFail(t, "group %c: concurrent operations give other results than successive ones, scalars %x", "AB"[g], scs)
		}
	}
	fmt.Printf("VERIF-CASES %d\n", n)
	fmt.Printf("VERIF-SAMPLE %d operations\n", n)
}
