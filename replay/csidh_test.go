//go:build go1.21

package csidh

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
)

func vEnv() (cex []map[string]string, secs time.Duration, rng *rand.Rand) {
	b, _ := os.ReadFile(os.Getenv("VERIF_CEX"))
	json.Unmarshal(b, &cex)
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if n == 0 {
		n = 1
	}
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return cex, time.Duration(n) * time.Second, rand.New(rand.NewSource(s))
}

func vFail(t *testing.T, f string, a ...interface{}) {
	fmt.Printf("VERIF-FAIL "+f+"\n", a...)
	t.Fatal("mismatch")
}

var vP = func() *big.Int {
	v := big.NewInt(4)
	k := 0
	for n := int64(3); k < 73; n += 2 {
		if big.NewInt(n).ProbablyPrime(20) {
			v.Mul(v, big.NewInt(n))
			k++
		}
	}
	v.Mul(v, big.NewInt(587))
	return v.Sub(v, big.NewInt(1))
}()

func vToFp(v *big.Int) (r fp) {
	m := new(big.Int).SetUint64(^uint64(0))
	for i := range r {
		r[i] = new(big.Int).And(new(big.Int).Rsh(v, uint(64*i)), m).Uint64()
	}
	return
}

func vBig(w []uint64) *big.Int {
	v := new(big.Int)
	for i := len(w) - 1; i >= 0; i-- {
		v.Lsh(v, 64).Add(v, new(big.Int).SetUint64(w[i]))
	}
	return v
}

func vHexBig(s string) *big.Int {
	v, _ := new(big.Int).SetString(strings.TrimPrefix(s, "0x"), 16)
	if v == nil {
		v = new(big.Int)
	}
	return v
}

// vRand: random below lim, with structure.
func vRand(rng *rand.Rand, lim *big.Int) *big.Int {
	n := (lim.BitLen() + 63) / 64
	v := new(big.Int)
	for i := 0; i < n; i++ {
		w := rng.Uint64()
		switch rng.Intn(4) {
		case 0:
			w = 0
		case 1:
			w = ^uint64(0)
		}
		v.Lsh(v, 64).Or(v, new(big.Int).SetUint64(w))
	}
	switch rng.Intn(8) {
	case 0:
		v.SetInt64(rng.Int63n(4))
	case 1:
		v.Sub(lim, big.NewInt(1+rng.Int63n(4)))
	case 2:
		v = new(big.Int).Rand(rng, lim)
	}
	return v.Mod(v, lim)
}

func vFlags(m map[string]string) func() {
	a, b := hasBMI2, hasADXandBMI2
	if s, ok := m["flag:hasBMI2"]; ok {
		hasBMI2 = s == "1" || s == "true" || s == "0x1"
	}
	if s, ok := m["flag:hasADXandBMI2"]; ok {
		hasADXandBMI2 = s == "1" || s == "true" || s == "0x1"
	}
	return func() { hasBMI2, hasADXandBMI2 = a, b }
}

func vFieldCase(t *testing.T, x, y *big.Int, full, full2 *big.Int, m uint64) {
	R := new(big.Int).Lsh(big.NewInt(1), 512)
	Ri := new(big.Int).ModInverse(R, vP)
	mod := func(v *big.Int) *big.Int { return v.Mod(v, vP) }
	type bin struct {
		nm   string
		f    func(r, x, y *fp)
		want func(x, y *big.Int) *big.Int
	}
	for _, o := range []bin{
		{"addRdc", addRdc, func(x, y *big.Int) *big.Int { return mod(new(big.Int).Add(x, y)) }},
		{"subRdc", subRdc, func(x, y *big.Int) *big.Int { return mod(new(big.Int).Sub(x, y)) }},
		{"mulRdc", mulRdc, func(x, y *big.Int) *big.Int { z := new(big.Int).Mul(x, y); return mod(z.Mul(z, Ri)) }},
	} {
		for al := 0; al < 5; al++ {
			fx, fy := vToFp(x), vToFp(y)
			var fr fp
			px, py, pr := &fx, &fy, &fr
			wy := y
			switch al {
			case 1:
				pr = px
			case 2:
				pr = py
			case 3:
				py, wy = px, x
			case 4:
				py, wy, pr = px, x, px
			}
			o.f(pr, px, py)
			if w := o.want(x, wy); vBig(pr[:]).Cmp(w) != 0 {
				vFail(t, "%s(%#x, %#x) aliasing %d, BMI2 %v ADX %v: %#x, exact result %#x", o.nm, x, wy, al, hasBMI2, hasADXandBMI2, vBig(pr[:]), w)
			}
		}
	}
	// word-level
	fx, fy := vToFp(full), vToFp(full2)
	var r fp
	mask := new(big.Int).Sub(R, big.NewInt(1))
	prod := new(big.Int).Mul(full, new(big.Int).SetUint64(m))
	mul512(&r, &fx, m)
	if w := new(big.Int).And(prod, mask); w.Cmp(vBig(r[:])) != 0 {
		vFail(t, "mul512(%#x, %#x): %#x, product modulo 2^512 %#x", full, m, vBig(r[:]), w)
	}
	a := fx
	mul512(&a, &a, m)
	if a != r {
		vFail(t, "mul512(%#x, %#x) in place: %#x", full, m, vBig(a[:]))
	}
	var r9 [9]uint64
	mul576(&r9, &fx, m)
	if prod.Cmp(vBig(r9[:])) != 0 {
		vFail(t, "mul576(%#x, %#x): %#x", full, m, vBig(r9[:]))
	}
	bor := sub512(&r, &fx, &fy)
	w := new(big.Int).Sub(full, full2)
	wb := uint64(0)
	if w.Sign() < 0 {
		w.Add(w, R)
		wb = 1
	}
	if w.Cmp(vBig(r[:])) != 0 || bor != wb {
		vFail(t, "sub512(%#x, %#x): %#x borrow %d", full, full2, vBig(r[:]), bor)
	}
	for ch := uint8(0); ch < 2; ch++ {
		a, b := fx, fy
		cswap512(&a, &b, ch)
		if ch == 0 && (a != fx || b != fy) || ch == 1 && (a != fy || b != fx) {
			vFail(t, "cswap512(%#x, %#x, %d): %#x, %#x", full, full2, ch, vBig(a[:]), vBig(b[:]))
		}
	}
	if isLess(&fx, &fy) != (full.Cmp(full2) < 0) {
		vFail(t, "isLess(%#x, %#x) is %v", full, full2, isLess(&fx, &fy))
	}
	if fx.isZero() != (full.Sign() == 0) {
		vFail(t, "isZero(%#x) is %v", full, fx.isZero())
	}
	if fx.equal(&fy) != (full.Cmp(full2) == 0) {
		vFail(t, "equal(%#x, %#x) is %v", full, full2, fx.equal(&fy))
	}
}

func vExpCase(t *testing.T, x, e *big.Int) {
	R := new(big.Int).Lsh(big.NewInt(1), 512)
	Ri := new(big.Int).ModInverse(R, vP)
	fx, fe := vToFp(x), vToFp(e)
	var r fp
	modExpRdc512(&r, &fx, &fe)
	b := new(big.Int).Mul(x, Ri)
	w := new(big.Int).Exp(b, e, vP)
	w.Mul(w, R).Mod(w, vP)
	if w.Cmp(vBig(r[:])) != 0 {
		vFail(t, "modExpRdc512(%#x, %#x): %#x, exact %#x", x, e, vBig(r[:]), w)
	}
	e64 := fe[0]
	modExpRdc64(&r, &fx, e64)
	w.Exp(b, new(big.Int).SetUint64(e64), vP)
	w.Mul(w, R).Mod(w, vP)
	if w.Cmp(vBig(r[:])) != 0 {
		vFail(t, "modExpRdc64(%#x, %#x): %#x, exact %#x", x, e64, vBig(r[:]), w)
	}
	j := big.Jacobi(b, vP)
	want := 1
	if j == 1 {
		want = 0
	}
	if j != 0 && fx.isNonQuadRes() != want {
		vFail(t, "isNonQuadRes(%#x) is %d", x, fx.isNonQuadRes())
	}
}

func vKey(c map[string]string, ks ...string) *big.Int {
	for _, k := range ks {
		if s, ok := c[k]; ok {
			return vHexBig(s)
		}
	}
	return new(big.Int)
}

func TestVerifField(t *testing.T) {
	cex, d, rng := vEnv()
	if vBig(p[:]).Cmp(vP) != 0 {
		vFail(t, "p is %#x", vBig(p[:]))
	}
	n := 0
	lim := new(big.Int).Lsh(big.NewInt(1), 512)
	for _, c := range cex {
		un := vFlags(c)
		x, y := vKey(c, "x", "m1", "b"), vKey(c, "y", "m2", "e")
		vFieldCase(t, new(big.Int).Mod(x, vP), new(big.Int).Mod(y, vP), x, y, new(big.Int).And(y, new(big.Int).SetUint64(^uint64(0))).Uint64())
		vExpCase(t, new(big.Int).Mod(x, vP), y)
		un()
		n++
	}
	type fl struct{ a, b bool }
	fls := []fl{{false, false}}
	if hasBMI2 {
		fls = append(fls, fl{true, false})
	}
	if hasADXandBMI2 {
		fls = append(fls, fl{true, true})
	}
	for start := time.Now(); time.Since(start) < d; n++ {
		f := fls[n%len(fls)]
		a, b := hasBMI2, hasADXandBMI2
		hasBMI2, hasADXandBMI2 = f.a, f.b
		fu, fv := vRand(rng, lim), vRand(rng, lim)
		if rng.Intn(4) == 0 {
			fv = new(big.Int).Set(fu)
			k := rng.Intn(512)
			fv.SetBit(fv, k, 1-fv.Bit(k))
		}
		vFieldCase(t, vRand(rng, vP), vRand(rng, vP), fu, fv, vRand(rng, new(big.Int).Lsh(big.NewInt(1), 64)).Uint64())
		if n%50 == 0 {
			vExpCase(t, vRand(rng, vP), vRand(rng, lim))
		}
		hasBMI2, hasADXandBMI2 = a, b
	}
	fmt.Printf("VERIF-CASES %d\n", n)
	fmt.Printf("VERIF-SAMPLE x=%x y=%x\n", vRand(rng, vP), vRand(rng, vP))
}

type vRdr struct {
	b    []byte
	fail int // bytes after which reads fail; <0: never
	n    int
}

type vErr struct{}

func (vErr) Error() string { return "source failed" }

func (r *vRdr) Read(p []byte) (int, error) {
	n := len(p)
	if n > 7 && r.n%3 == 0 {
		n = 7 // short reads are allowed
	}
	for i := 0; i < n; i++ {
		if r.fail >= 0 && r.n >= r.fail {
			return i, vErr{}
		}
		p[i] = r.b[r.n%len(r.b)]
		r.n++
	}
	return n, nil
}

func vPanics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

// TestVerifKeys: encodings and key generation.
func TestVerifKeys(t *testing.T) {
	cases := 0
	defer func() { fmt.Printf("VERIF-CASES %d\n", cases) }()
	_, secs, rng := vEnv()
	for end := time.Now().Add(secs); ; {
		for it := 0; it < 50; it++ {
			cases++
			// generation
			st := make([]byte, 64*(1+rng.Intn(60)))
			for i := range st {
				switch rng.Intn(3) {
				case 0:
					st[i] = byte(rng.Intn(15) - 7)
				case 1:
					st[i] = byte(rng.Intn(256))
				default:
					st[i] = byte(rng.Intn(11) - 5)
				}
			}
			for i := 0; i < 8; i++ {
				st[rng.Intn(len(st))] = 0
			}
			var want [37]int8
			k := 0
			for i := 0; k < 74; i++ {
				if v := int8(st[i%len(st)]); v >= -5 && v <= 5 {
					want[k/2] |= (v & 15) << (4 * uint(k%2))
					k++
				}
			}
			var key PrivateKey
			for i := range key.e {
				key.e[i] = int8(rng.Intn(256))
			}
			if err := GeneratePrivateKey(&key, &vRdr{b: st, fail: -1}); err != nil {
				vFail(t, "GeneratePrivateKey fails: %v", err)
			}
			if key.e != want {
				vFail(t, "GeneratePrivateKey from stream %x...: got %v want %v", st[:64], key.e, want)
			}
			if GeneratePrivateKey(&key, &vRdr{b: st, fail: rng.Intn(64)}) == nil {
				vFail(t, "GeneratePrivateKey: no error from a failing source")
			}
			// encodings
			var p, p2 PrivateKey
			var u, u2 PublicKey
			for i := range p.e {
				p.e[i], p2.e[i] = int8(rng.Intn(256)), int8(rng.Intn(256))
			}
			for i := range u.a {
				u.a[i], u2.a[i] = rng.Uint64(), rng.Uint64()
			}
			b := make([]byte, 37)
			if !p.Export(b) || !p2.Import(b) || p.e != p2.e {
				vFail(t, "private key %v does not survive export and import: %v", p.e, p2.e)
			}
			for i := range b {
				if b[i] != byte(p.e[i]) {
					vFail(t, "private key encoding byte %d", i)
				}
			}
			b = make([]byte, 64)
			if !u.Export(b) || !u2.Import(b) || u.a != u2.a {
				vFail(t, "public key %x does not survive export and import: %x", u.a, u2.a)
			}
			for i := range b {
				if b[i] != byte(u.a[i/8]>>(8*uint(i%8))) {
					vFail(t, "public key encoding byte %d", i)
				}
			}
			for _, n := range []int{0, 1, 36, 38, 63, 65, 74, 128, rng.Intn(200)} {
				for op := 0; op < 4; op++ {
					b, was := make([]byte, n), make([]byte, n)
					rng.Read(b)
					copy(was, b)
					p0, u0 := p, u
					p3, u3 := p, u
					var ok bool
					if vPanics(func() {
						switch op {
						case 0:
							ok = p3.Import(b)
						case 1:
							ok = p3.Export(b)
						case 2:
							ok = u3.Import(b)
						default:
							ok = u3.Export(b)
						}
					}) {
						vFail(t, "panic with a buffer of %d bytes (operation %d)", n, op)
					}
					if op < 2 && n >= 37 {
						continue
					}
					if op >= 2 && n == 64 {
						continue
					}
					if ok || p3.e != p0.e || u3.a != u0.a || string(b) != string(was) {
						vFail(t, "buffer of %d bytes (operation %d): accepted %v or written", n, op, ok)
					}
				}
			}
		}
		if time.Now().After(end) {
			break
		}
	}
}

// ---- curve arithmetic against a reference on integers

func vN(v int64) *big.Int { return new(big.Int).Mod(big.NewInt(v), vP) }
func vMul(as ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, a := range as {
		r.Mul(r, a).Mod(r, vP)
	}
	return r
}
func vAdd(as ...*big.Int) *big.Int {
	r := new(big.Int)
	for _, a := range as {
		r.Add(r, a)
	}
	return r.Mod(r, vP)
}
func vSub(a, b *big.Int) *big.Int { return vAdd(a, new(big.Int).Neg(b)) }
func vInv(a *big.Int) *big.Int    { return new(big.Int).ModInverse(a, vP) }
func vRhs(x, A *big.Int) *big.Int { return vMul(x, vAdd(vMul(x, vAdd(x, A)), vN(1))) }

var vR512 = new(big.Int).Lsh(big.NewInt(1), 512)

// vTo: value to Montgomery form, vOf back.
func vTo(v *big.Int) fp { return vToFp(vMul(v, vR512)) }
func vOf(f *fp) *big.Int {
	return vMul(new(big.Int).Mod(vBig(f[:]), vP), vInv(new(big.Int).Mod(vR512, vP)))
}

type vXZ struct{ x, z *big.Int }

func (a vXZ) eq(b vXZ) bool {
	za, zb := a.x.Sign() == 0 && a.z.Sign() == 0, b.x.Sign() == 0 && b.z.Sign() == 0
	return !za && !zb && vMul(a.x, b.z).Cmp(vMul(b.x, a.z)) == 0
}
func (a vXZ) pt() point { return point{vTo(a.x), vTo(a.z)} }
func (a vXZ) scaled(rng *rand.Rand) vXZ {
	k := vAdd(vRand(rng, new(big.Int).Sub(vP, big.NewInt(1))), vN(1))
	return vXZ{vMul(a.x, k), vMul(a.z, k)}
}
func vPt(p *point) vXZ { return vXZ{vOf(&p.x), vOf(&p.z)} }

func vDbl(P vXZ, A *big.Int) vXZ {
	x2, z2, xz := vMul(P.x, P.x), vMul(P.z, P.z), vMul(P.x, P.z)
	d := vSub(x2, z2)
	return vXZ{vMul(d, d), vMul(vN(4), xz, vAdd(x2, vMul(A, xz), z2))}
}
func vDiffAdd(P, Q, D vXZ) vXZ {
	u := vSub(vMul(P.x, Q.x), vMul(P.z, Q.z))
	v := vSub(vMul(P.x, Q.z), vMul(P.z, Q.x))
	return vXZ{vMul(D.z, u, u), vMul(D.x, v, v)}
}
func vMulPt(k *big.Int, P vXZ, A *big.Int) vXZ {
	a, b := P, vDbl(P, A)
	for i := k.BitLen() - 2; i >= 0; i-- {
		s := vDiffAdd(a, b, P)
		if k.Bit(i) == 0 {
			a, b = vDbl(a, A), s
		} else {
			a, b = s, vDbl(b, A)
		}
	}
	return a
}

func vRed(t *testing.T, what string, fs ...*fp) {
	for _, f := range fs {
		if vBig(f[:]).Cmp(vP) >= 0 {
			vFail(t, "%s: a result is not reduced: %#x", what, vBig(f[:]))
		}
	}
}

// vLaw: addition and doubling against chord and tangent on B y^2 = x^3+Ax^2+x.
func vLaw(t *testing.T, rng *rand.Rand) {
	A := vRand(rng, vP)
	x1 := vRand(rng, vP)
	B := vRhs(x1, A) // y1 = 1
	if B.Sign() == 0 || vMul(A, A).Cmp(vN(4)) == 0 {
		return
	}
	x2 := vRand(rng, vP)
	y2 := new(big.Int).ModSqrt(vMul(vRhs(x2, A), vInv(B)), vP)
	if y2 == nil || x1.Cmp(x2) == 0 {
		return
	}
	lam := func(s int64) *big.Int {
		l := vMul(vSub(vN(1), vMul(vN(s), y2)), vInv(vSub(x1, x2)))
		return vSub(vMul(B, l, l), vAdd(A, x1, x2))
	}
	sum, dif := vXZ{lam(1), vN(1)}, vXZ{lam(-1), vN(1)}
	l := vMul(vAdd(vMul(vN(3), x1, x1), vMul(vN(2), A, x1), vN(1)), vInv(vMul(vN(2), B)))
	dbl := vXZ{vSub(vMul(B, l, l), vAdd(A, x1, x1)), vN(1)}
	if dif.x.Sign() == 0 {
		return
	}
	c := vAdd(vRand(rng, new(big.Int).Sub(vP, big.NewInt(1))), vN(1))
	nm := fmt.Sprintf("A=%#x x1=%#x x2=%#x", A, x1, x2)
	P, Q, D := vXZ{x1, vN(1)}.scaled(rng).pt(), vXZ{x2, vN(1)}.scaled(rng).pt(), dif.scaled(rng).pt()
	p0, q0, d0 := P, Q, D
	o := vXZ{vRand(rng, vP), vRand(rng, vP)}.pt()
	xAdd(&o, &P, &Q, &D)
	vRed(t, "xAdd", &o.x, &o.z)
	if !vPt(&o).eq(sum) || P != p0 || Q != q0 || D != d0 {
		vFail(t, "xAdd, %s: result (%#x : %#x), x(P+Q) = %#x", nm, vPt(&o).x, vPt(&o).z, sum.x)
	}
	cv := point{vTo(vMul(A, c)), vTo(c)}
	xDbl(&o, &P, &cv)
	vRed(t, "xDbl", &o.x, &o.z)
	if !vPt(&o).eq(dbl) || P != p0 {
		vFail(t, "xDbl, %s: result (%#x : %#x), x([2]P) = %#x", nm, vPt(&o).x, vPt(&o).z, dbl.x)
	}
	xDbl(&P, &P, &cv)
	if !vPt(&P).eq(dbl) {
		vFail(t, "xDbl in place, %s: result (%#x : %#x), x([2]P) = %#x", nm, vPt(&P).x, vPt(&P).z, dbl.x)
	}
	P = p0
	a24 := coeff{vTo(vMul(vAdd(A, vN(2)), c)), vTo(vMul(vN(4), c))}
	var o2 point
	if rng.Intn(2) == 0 {
		xDblAdd(&o, &o2, &P, &Q, &D, &a24)
	} else {
		xDblAdd(&P, &Q, &P, &Q, &D, &a24)
		o, o2 = P, Q
	}
	vRed(t, "xDblAdd", &o.x, &o.z, &o2.x, &o2.z)
	if !vPt(&o).eq(dbl) || !vPt(&o2).eq(sum) {
		vFail(t, "xDblAdd, %s: results (%#x : %#x), (%#x : %#x), expected %#x, %#x", nm, vPt(&o).x, vPt(&o).z, vPt(&o2).x, vPt(&o2).z, dbl.x, sum.x)
	}
	P, Q = p0, q0
	ch := uint8(rng.Intn(2))
	cswappoint(&P, &Q, ch)
	if ch == 0 && (P != p0 || Q != q0) || ch == 1 && (P != q0 || Q != p0) {
		vFail(t, "cswappoint, choice %d", ch)
	}
	var res fp
	fa, fx := vTo(A), vTo(x1)
	montEval(&res, &fa, &fx)
	vRed(t, "montEval", &res)
	if vOf(&res).Cmp(B) != 0 {
		vFail(t, "montEval, A=%#x x=%#x: %#x, exact %#x", A, x1, vOf(&res), B)
	}
}

func vScalar(rng *rand.Rand) *big.Int {
	k := new(big.Int)
	switch rng.Intn(5) {
	case 0:
		k = vRand(rng, vR512)
	case 1:
		k.SetInt64(1 + rng.Int63n(700))
	case 2: // structure at a random length
		k.SetBit(k, rng.Intn(512), 1)
		k.SetBit(k, rng.Intn(512), 1)
	default:
		k.Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint(1+rng.Intn(512))))
	}
	if k.Sign() == 0 {
		k.SetInt64(1)
	}
	return k
}

var vPrev = [2]*big.Int{vN(3), vN(1)}

func vMulCase(t *testing.T, rng *rand.Rand, k *big.Int) {
	a, c, x := vRand(rng, vP), vAdd(vRand(rng, new(big.Int).Sub(vP, big.NewInt(1))), vN(1)), vRand(rng, vP)
	// often a curve that has a component in common with the last one
	if rng.Intn(3) == 0 {
		a = vPrev[0]
	}
	if rng.Intn(3) == 0 {
		c = vPrev[1]
	}
	vPrev = [2]*big.Int{a, c}
	A := vMul(a, vInv(c))
	if vMul(A, A).Cmp(vN(4)) == 0 || x.Sign() == 0 {
		return
	}
	co := coeff{vTo(a), vTo(c)}
	P := vXZ{x, vN(1)}.scaled(rng).pt()
	p0, co0, kf := P, co, vToFp(k)
	var o point
	o.x = one
	xMul(&o, &P, &co, &kf)
	want := vMulPt(k, vXZ{x, vN(1)}, A)
	vRed(t, "xMul", &o.x, &o.z)
	nm := fmt.Sprintf("A=%#x x=%#x k=%#x", A, x, k)
	if !vPt(&o).eq(want) {
		vFail(t, "xMul, %s: (%#x : %#x), expected (%#x : %#x)", nm, vPt(&o).x, vPt(&o).z, want.x, want.z)
	}
	if P != p0 || co != co0 || kf != vToFp(k) {
		vFail(t, "xMul, %s: an input was changed", nm)
	}
	xMul(&P, &P, &co, &kf)
	if !vPt(&P).eq(want) {
		vFail(t, "xMul in place, %s: (%#x : %#x), expected (%#x : %#x)", nm, vPt(&P).x, vPt(&P).z, want.x, want.z)
	}
	// O stays O
	P = point{x: vTo(c)}
	xMul(&P, &P, &co, &kf)
	if P.z != (fp{}) {
		vFail(t, "xMul of the point at infinity, %s", nm)
	}
}

// vIsoCase: one isogeny of degree l from the supersingular curve A; returns the next curve.
func vIsoCase(t *testing.T, rng *rand.Rand, l uint64, A *big.Int) *big.Int {
	n := new(big.Int).Add(vP, big.NewInt(1))
	n.Div(n, new(big.Int).SetUint64(l))
	K := vMulPt(n, vXZ{new(big.Int).Rand(rng, vP), vN(1)}, A)
	if K.z.Sign() == 0 {
		return A
	}
	k := vXZ{vMul(K.x, vInv(K.z)), vN(1)}
	m := []vXZ{k, vDbl(k, A)}
	for uint64(len(m)) < l/2 {
		m = append(m, vDiffAdd(m[len(m)-1], k, m[len(m)-2]))
	}
	x := vRand(rng, vP)
	img := vXZ{x, vN(1)}
	if rng.Intn(8) == 0 {
		img = m[rng.Intn(int(l/2))] // a point of the kernel
	}
	img = img.scaled(rng)
	// Renes: x prod((x x_i-1)/(x-x_i))^2, A' = pi^2 (A - 3 sigma) over all points but O
	N, D := img.x, img.z
	pi, sg := vN(1), vN(0)
	for _, q := range m[:l/2] {
		u, v := vSub(vMul(img.x, q.x), vMul(img.z, q.z)), vSub(vMul(img.x, q.z), vMul(img.z, q.x))
		N, D = vMul(N, u, u), vMul(D, v, v)
		xi := vMul(q.x, vInv(q.z))
		pi = vMul(pi, xi)
		sg = vAdd(sg, vSub(xi, vInv(xi)))
	}
	A2 := vMul(pi, pi, vSub(A, vMul(vN(6), sg)))
	c := vAdd(vRand(rng, new(big.Int).Sub(vP, big.NewInt(1))), vN(1))
	co := coeff{vTo(vMul(A, c)), vTo(c)}
	ip, kp := img.pt(), K.scaled(rng).pt()
	k0 := kp
	xIso(&ip, &co, &kp, l)
	vRed(t, "xIso", &ip.x, &ip.z, &co.a, &co.c)
	nm := fmt.Sprintf("degree %d, A=%#x, kernel x=%#x, point (%#x : %#x)", l, A, k.x, img.x, img.z)
	if !vPt(&ip).eq(vXZ{N, D}) {
		vFail(t, "xIso, %s: image (%#x : %#x), expected (%#x : %#x)", nm, vPt(&ip).x, vPt(&ip).z, N, D)
	}
	a, cc := vOf(&co.a), vOf(&co.c)
	if cc.Sign() == 0 || vMul(A2, cc).Cmp(a) != 0 {
		vFail(t, "xIso, %s: coefficient (%#x : %#x), expected %#x", nm, a, cc, A2)
	}
	if kp != k0 {
		vFail(t, "xIso, %s: the kernel point was changed", nm)
	}
	return A2
}

func TestVerifCurve(t *testing.T) {
	cex, d, rng := vEnv()
	n := 0
	for _, c := range cex {
		if v, ok := c["k"]; ok {
			vMulCase(t, rng, vHexBig(v))
			n++
		}
	}
	var ls []uint64
	for i := int64(3); len(ls) < 73; i += 2 {
		if big.NewInt(i).ProbablyPrime(20) {
			ls = append(ls, uint64(i))
		}
	}
	ls = append(ls, 587)
	A := vN(0)
	for i, l := range ls {
		if primes[i] != l {
			vFail(t, "prime %d is %d", i, primes[i])
		}
	}
	for start, i := time.Now(), 0; time.Since(start) < d || i < len(ls)+8; i++ {
		vLaw(t, rng)
		vMulCase(t, rng, vScalar(rng))
		A = vIsoCase(t, rng, ls[(i*31)%len(ls)], A)
		n += 3
	}
	fmt.Printf("VERIF-CASES %d\n", n)
	fmt.Printf("VERIF-SAMPLE curve reached by the isogenies: A=%#x\n", A)
}

// ---- validation and group action

var vPr = func() (l []int64) {
	for i := int64(3); len(l) < 73; i += 2 {
		if big.NewInt(i).ProbablyPrime(20) {
			l = append(l, i)
		}
	}
	return append(l, 587)
}()

func vRes(v *big.Int) bool { return big.Jacobi(v, vP) == 1 }

// vStep: one step of degree l from the curve A; dir 0 with a point of the curve, 1 with one of its twist.
func vStep(rng *rand.Rand, A *big.Int, l int64, dir int) *big.Int {
	n := new(big.Int).Add(vP, big.NewInt(1))
	n.Div(n, big.NewInt(l))
	for {
		x := new(big.Int).Rand(rng, vP)
		if vRes(vRhs(x, A)) != (dir == 0) {
			continue
		}
		K := vMulPt(n, vXZ{x, vN(1)}, A)
		if K.z.Sign() == 0 {
			continue
		}
		k := vXZ{vMul(K.x, vInv(K.z)), vN(1)}
		m := []vXZ{k, vDbl(k, A)}
		for int64(len(m)) < l/2 {
			m = append(m, vDiffAdd(m[len(m)-1], k, m[len(m)-2]))
		}
		pi, sg := vN(1), vN(0)
		for _, q := range m[:l/2] {
			xi := vMul(q.x, vInv(q.z))
			pi = vMul(pi, xi)
			sg = vAdd(sg, vSub(xi, vInv(xi)))
		}
		return vMul(pi, pi, vSub(A, vMul(vN(6), sg)))
	}
}

func vAct(rng *rand.Rand, A *big.Int, e [74]int) *big.Int {
	for i, v := range e {
		for ; v > 0; v-- {
			A = vStep(rng, A, vPr[i], 0)
		}
		for ; v < 0; v++ {
			A = vStep(rng, A, vPr[i], 1)
		}
	}
	return A
}

// vStream: random elements, those given first.
func vStream(rng *rand.Rand, xs ...*big.Int) *vRdr {
	r := &vRdr{fail: -1}
	add := func(f fp) {
		for _, w := range f {
			for k := uint(0); k < 64; k += 8 {
				r.b = append(r.b, byte(w>>k))
			}
		}
	}
	for _, x := range xs {
		add(vTo(x))
	}
	for i := 0; i < 300; i++ {
		add(vToFp(new(big.Int).Rand(rng, vR512)))
	}
	return r
}

func vPriv(e [74]int) (k PrivateKey) {
	for i, v := range e {
		if i%2 == 0 {
			k.e[i/2] |= int8(uint8(v&15) << 4)
		} else {
			k.e[i/2] |= int8(v & 15)
		}
	}
	return
}

func vEnc(a fp) (o [64]byte) {
	for i := range o {
		o[i] = byte(a[i/8] >> (8 * uint(i%8)))
	}
	return
}

func vSuper(rng *rand.Rand, A *big.Int) bool {
	n := new(big.Int).Add(vP, big.NewInt(1))
	for i := 0; i < 3; i++ {
		if vMulPt(n, vXZ{new(big.Int).Rand(rng, vP), vN(1)}, A).z.Sign() != 0 {
			return false
		}
	}
	return true
}

func vTimeout(t *testing.T, what string, f func()) {
	done := make(chan bool)
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		vFail(t, "%s: does not return", what)
	}
}

func vActCase(t *testing.T, rng *rand.Rand, A *big.Int, round int) *big.Int {
	var e [74]int
	for k := 1 + rng.Intn(3); k > 0; k-- {
		i := rng.Intn(74)
		switch rng.Intn(4) {
		case 0:
			i = rng.Intn(4)
		case 1:
			i = 70 + rng.Intn(4)
		}
		e[i] = rng.Intn(11) - 5
		if rng.Intn(4) == 0 {
			e[i] = rng.Intn(16) - 8
		}
		if vPr[i] > 60 {
			e[i] /= 2
		}
	}
	if round%4 == 0 { // the exponents an imported key can have at most
		e[rng.Intn(5)], e[5+rng.Intn(5)] = -8, 7-15*rng.Intn(2)
	}
	// points whose order lacks one of the primes in use, and others
	xs := []*big.Int{}
	for i, v := range e {
		if v != 0 && rng.Intn(2) == 0 {
			for k := 0; k < 2; k++ {
				P := vMulPt(big.NewInt(vPr[i]), vXZ{new(big.Int).Rand(rng, vP), vN(1)}, A)
				if P.z.Sign() != 0 {
					xs = append(xs, vMul(P.x, vInv(P.z)))
				}
			}
		}
	}
	if rng.Intn(2) == 0 {
		xs = append(xs, vN(0))
	}
	nm := fmt.Sprintf("A=%#x, exponents %v, first random x %x", A, e, xs)
	want := vAct(rng, A, e)
	prv := vPriv(e)
	k0 := prv
	pub := PublicKey{a: vTo(A)}
	vTimeout(t, "groupAction, "+nm, func() { groupAction(&pub, &prv, vStream(rng, xs...)) })
	if g := vOf(&pub.a); vBig(pub.a[:]).Cmp(vP) >= 0 || g.Cmp(want) != 0 {
		vFail(t, "groupAction, %s: %#x, expected %#x", nm, g, want)
	}
	if prv.e != k0.e {
		vFail(t, "groupAction, %s: the private key was changed", nm)
	}
	var out [64]byte
	pub = PublicKey{a: vTo(A)}
	ok := false
	vTimeout(t, "DeriveSecret, "+nm, func() { ok = DeriveSecret(&out, &pub, &prv, vStream(rng, xs...)) })
	if !ok || out != vEnc(vTo(want)) {
		vFail(t, "DeriveSecret, %s: %v %x, expected %x", nm, ok, out, vEnc(vTo(want)))
	}
	if pub.a != vTo(A) || prv.e != k0.e {
		vFail(t, "DeriveSecret, %s: an input was changed", nm)
	}
	if A.Sign() == 0 {
		pub = PublicKey{a: vTo(vRand(rng, vP))}
		vTimeout(t, "GeneratePublicKey, "+nm, func() { GeneratePublicKey(&pub, &prv, vStream(rng, xs...)) })
		if g := vOf(&pub.a); g.Cmp(want) != 0 {
			vFail(t, "GeneratePublicKey, %s: %#x, expected %#x", nm, g, want)
		}
		if prv.e != k0.e {
			vFail(t, "GeneratePublicKey, %s: the private key was changed", nm)
		}
	}
	return want
}

// vValidCase: a key must be accepted or refused, whatever random elements come first.
func vValidCase(t *testing.T, rng *rand.Rand, a fp, want bool, xs ...*big.Int) {
	pub := PublicKey{a: a}
	var got bool
	nm := fmt.Sprintf("key %#x, first random x %x", vBig(a[:]), xs)
	vTimeout(t, "Validate, "+nm, func() { got = Validate(&pub, vStream(rng, xs...)) })
	if got != want {
		vFail(t, "Validate, %s: %v", nm, got)
	}
	if pub.a != a {
		vFail(t, "Validate, %s: the key was changed", nm)
	}
	if want {
		return
	}
	var out, o0 [64]byte
	rng.Read(out[:])
	o0 = out
	prv := vPriv([74]int{1, -1})
	k0 := prv
	ok := false
	vTimeout(t, "DeriveSecret, "+nm, func() { ok = DeriveSecret(&out, &pub, &prv, vStream(rng, xs...)) })
	if ok {
		vFail(t, "DeriveSecret, %s: accepted", nm)
	}
	if out != o0 || pub.a != a || prv.e != k0.e {
		vFail(t, "DeriveSecret, %s: writes though the key is refused", nm)
	}
}

func TestVerifAction(t *testing.T) {
	_, d, rng := vEnv()
	n := 0
	A := vN(0)
	for start, i := time.Now(), 0; time.Since(start) < d || i < 6; i++ {
		A = vActCase(t, rng, A, i)
		// points of small order say nothing
		xs := []*big.Int{vN(0)}
		P := vXZ{new(big.Int).Rand(rng, vP), vN(1)}
		m := new(big.Int).Add(vP, big.NewInt(1))
		lim := rng.Intn(40)
		for k := 0; k < lim; k++ {
			m.Div(m, big.NewInt(vPr[k]))
		}
		if Q := vMulPt(m, P, A); Q.z.Sign() != 0 {
			xs = append(xs, vMul(Q.x, vInv(Q.z)))
		}
		vValidCase(t, rng, vTo(A), true, xs...)
		off := big.NewInt(rng.Int63n(3))
		if rng.Intn(2) == 0 {
			off = vBig(func() []uint64 { f := vTo(A); return f[:] }()) // a valid coefficient, not reduced
		}
		over := new(big.Int).Add(vP, off)
		vValidCase(t, rng, vToFp(over), false, xs...)
		vValidCase(t, rng, vToFp(new(big.Int).Sub(vR512, big.NewInt(1+rng.Int63n(3)))), false, xs...)
		vValidCase(t, rng, vTo(vN(2)), false)
		vValidCase(t, rng, vTo(vN(-2)), false)
		for _, s := range []int64{2, -2} {
			// 2 and -2 not reduced
			f := vTo(vN(s))
			vValidCase(t, rng, vToFp(new(big.Int).Add(vBig(f[:]), vP)), false)
		}
		B := vRand(rng, vP)
		if !vSuper(rng, B) {
			vValidCase(t, rng, vTo(B), false, xs...)
		}
		// A = (1 - 6x^2 - 3x^4) / 4x^3 has points of order 3 with abscissa x: a source that gives nothing else
		x := vRand(rng, vP)
		for x.Sign() == 0 {
			x = vRand(rng, vP)
		}
		x2 := vMul(x, x)
		C := vSub(vN(1), vMul(vN(6), x2))
		C = vMul(vSub(C, vMul(vN(3), vMul(x2, x2))), vInv(vMul(vN(4), vMul(x2, x))))
		if !vSuper(rng, C) {
			var same []*big.Int
			for k := 0; k < 200; k++ {
				same = append(same, x)
			}
			vValidCase(t, rng, vTo(C), false, same...)
		}
		n += 10
		if rng.Intn(4) == 0 {
			A = vN(0)
		}
	}
	fmt.Printf("VERIF-CASES %d\n", n)
	fmt.Printf("VERIF-SAMPLE curve reached: A=%#x\n", A)
}
