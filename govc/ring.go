package main

// Products of powers of polynomials over a prime field: the values of the field-element layer.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Ring struct {
	p     *big.Int
	names []string
	rels  map[int]*rpoly // variable v: v^2 = poly (free of v)
	maxN  int            // monomial limit of an expansion
	ord   *big.Int       // order of the multiplicative group the elements live in
	atoms map[string]int // large products taken as variables, and their definitions
	defs  map[int]*FE
}

func NewRing(p *big.Int) *Ring {
	return &Ring{p: p, maxN: 60000, rels: map[int]*rpoly{}, ord: new(big.Int).Sub(p, big1)}
}

// monomials: 4 bytes (variable, exponent) per factor, variables ascending
type rpoly struct{ m map[string]*big.Int }

func rmono(v, e int) string {
	return string([]byte{byte(v >> 8), byte(v), byte(e >> 8), byte(e)})
}

func mmul(x, y string) string {
	if x == "" {
		return y
	}
	if y == "" {
		return x
	}
	r := make([]byte, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) && j < len(y) {
		a, b := x[i:i+2], y[j:j+2]
		switch {
		case a < b:
			r = append(r, x[i:i+4]...)
			i += 4
		case a > b:
			r = append(r, y[j:j+4]...)
			j += 4
		default:
			e := int(x[i+2])<<8 + int(x[i+3]) + int(y[j+2])<<8 + int(y[j+3])
			if e > 65535 {
				unsup("exponent overflow in a polynomial")
			}
			r = append(r, x[i], x[i+1], byte(e>>8), byte(e))
			i += 4
			j += 4
		}
	}
	r = append(r, x[i:]...)
	r = append(r, y[j:]...)
	return string(r)
}

func (R *Ring) rc(v *big.Int) *rpoly {
	r := &rpoly{map[string]*big.Int{}}
	if x := new(big.Int).Mod(v, R.p); x.Sign() != 0 {
		r.m[""] = x
	}
	return r
}

func (R *Ring) padd(a, b *rpoly, k *big.Int) *rpoly {
	r := &rpoly{make(map[string]*big.Int, len(a.m)+len(b.m))}
	for m, v := range a.m {
		r.m[m] = v
	}
	for m, v := range b.m {
		x := new(big.Int).Mul(v, k)
		if o := r.m[m]; o != nil {
			x.Add(x, o)
		}
		x.Mod(x, R.p)
		if x.Sign() == 0 {
			delete(r.m, m)
		} else {
			r.m[m] = x
		}
	}
	return r
}

func (R *Ring) pmul(a, b *rpoly) *rpoly {
	if len(a.m)*len(b.m) > 40*R.maxN {
		unsup("product of polynomials with %d and %d monomials", len(a.m), len(b.m))
	}
	r := &rpoly{make(map[string]*big.Int, len(a.m)+len(b.m))}
	var t big.Int
	for m, v := range a.m {
		for n, w := range b.m {
			t.Mul(v, w)
			k := mmul(m, n)
			if o := r.m[k]; o != nil {
				o.Add(o, &t)
			} else {
				r.m[k] = new(big.Int).Set(&t)
			}
		}
	}
	for k, v := range r.m {
		v.Mod(v, R.p)
		if v.Sign() == 0 {
			delete(r.m, k)
		}
	}
	if len(r.m) > R.maxN {
		unsup("polynomial with %d monomials", len(r.m))
	}
	return R.reduce(r)
}

// reduce applies the relations v^2 = poly.
func (R *Ring) reduce(a *rpoly) *rpoly {
	if len(R.rels) == 0 {
		return a
	}
	for round := 0; round < 64; round++ {
		var todo string
		var tv int
		for m := range a.m {
			for i := 0; i < len(m); i += 4 {
				v := int(m[i])<<8 | int(m[i+1])
				if e := int(m[i+2])<<8 | int(m[i+3]); e >= 2 && R.rels[v] != nil {
					todo, tv = m, v
				}
			}
			if todo != "" {
				break
			}
		}
		if todo == "" {
			return a
		}
		// split by the power of tv
		parts := map[int]*rpoly{}
		r := &rpoly{map[string]*big.Int{}}
		for m, c := range a.m {
			hit := false
			for i := 0; i < len(m); i += 4 {
				v := int(m[i])<<8 | int(m[i+1])
				e := int(m[i+2])<<8 | int(m[i+3])
				if v == tv && e >= 2 {
					rest := m[:i] + m[i+4:]
					if e%2 == 1 {
						rest = mmul(rest, rmono(tv, 1))
					}
					if parts[e/2] == nil {
						parts[e/2] = &rpoly{map[string]*big.Int{}}
					}
					parts[e/2].m[rest] = c
					hit = true
				}
			}
			if !hit {
				r.m[m] = c
			}
		}
		pw := R.rc(big1)
		for e := 1; len(parts) > 0; e++ {
			pw = R.pmul(pw, R.rels[tv])
			if q := parts[e]; q != nil {
				r = R.padd(r, R.pmul(q, pw), big1)
				delete(parts, e)
			}
		}
		a = r
	}
	return a
}

func (R *Ring) pstr(a *rpoly) string {
	var ks []string
	for m := range a.m {
		ks = append(ks, m)
	}
	sort.Strings(ks)
	var s []string
	for _, m := range ks {
		c := a.m[m]
		x := c.String()
		if n := new(big.Int).Sub(R.p, c); n.BitLen() < 40 {
			x = "-" + n.String()
		} else if c.BitLen() > 60 {
			x = fmt.Sprintf("(%d-bit)", c.BitLen())
		}
		for i := 0; i < len(m); i += 4 {
			x += "*" + R.names[int(m[i])<<8|int(m[i+1])]
			if e := int(m[i+2])<<8 | int(m[i+3]); e > 1 {
				x += fmt.Sprintf("^%d", e)
			}
		}
		s = append(s, x)
		if len(s) > 10 {
			s = append(s, fmt.Sprintf("... (%d terms)", len(ks)))
			break
		}
	}
	if len(s) == 0 {
		return "0"
	}
	return strings.Join(s, " + ")
}

func (R *Ring) pkey(a *rpoly) string {
	var ks []string
	for m := range a.m {
		ks = append(ks, m)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, m := range ks {
		b.WriteString(m)
		b.WriteByte('#')
		b.WriteString(a.m[m].Text(62))
		b.WriteByte('|')
	}
	return b.String()
}

// ---- exponents: integer combinations of bits

type expo struct{ m map[string]*big.Int } // "" constant, else a bit's name

func eI(v *big.Int) *expo {
	e := &expo{map[string]*big.Int{}}
	if v.Sign() != 0 {
		e.m[""] = v
	}
	return e
}
func (e *expo) add(f *expo, k *big.Int) *expo {
	r := &expo{map[string]*big.Int{}}
	for n, v := range e.m {
		r.m[n] = v
	}
	for n, v := range f.m {
		x := new(big.Int).Mul(v, k)
		if o := r.m[n]; o != nil {
			x.Add(x, o)
		}
		if x.Sign() == 0 {
			delete(r.m, n)
		} else {
			r.m[n] = x
		}
	}
	return r
}
func (e *expo) con() (*big.Int, bool) {
	if len(e.m) == 0 {
		return new(big.Int), true
	}
	if v := e.m[""]; v != nil && len(e.m) == 1 {
		return v, true
	}
	return nil, false
}
func (e *expo) eq(f *expo) bool { return len(e.add(f, bigM1).m) == 0 }

// ---- elements: c * prod f^e

type ffac struct {
	p *rpoly
	e *expo
}
type FE struct {
	c  *big.Int
	fs map[string]ffac
}

func (R *Ring) Const(v *big.Int) *FE {
	return &FE{new(big.Int).Mod(v, R.p), nil}
}
func (R *Ring) Int(v int64) *FE { return R.Const(big.NewInt(v)) }

func (R *Ring) NewVar(name string) int {
	R.names = append(R.names, name)
	return len(R.names) - 1
}
func (R *Ring) Var(name string) *FE { return R.At(R.NewVar(name)) }
func (R *Ring) At(v int) *FE {
	p := &rpoly{map[string]*big.Int{rmono(v, 1): big1}}
	return &FE{big1, map[string]ffac{R.pkey(p): {p, eI(big1)}}}
}
func (a *FE) zero() bool { return a.c.Sign() == 0 }

func (R *Ring) Mul(a, b *FE) *FE {
	if a.zero() || b.zero() {
		return R.Int(0)
	}
	c := new(big.Int).Mul(a.c, b.c)
	r := &FE{c.Mod(c, R.p), map[string]ffac{}}
	for k, f := range a.fs {
		r.fs[k] = f
	}
	for k, f := range b.fs {
		if g, ok := r.fs[k]; ok {
			e := g.e.add(f.e, big1)
			if len(e.m) == 0 {
				delete(r.fs, k)
			} else {
				r.fs[k] = ffac{f.p, e}
			}
		} else {
			r.fs[k] = f
		}
	}
	return r
}

func (R *Ring) Scale(a *FE, k *big.Int) *FE { return R.Mul(a, R.Const(k)) }
func (R *Ring) Sqr(a *FE) *FE               { return R.Mul(a, a) }

func (R *Ring) Pow(a *FE, n int64) *FE { return R.PowBig(a, big.NewInt(n)) }
func (R *Ring) PowBig(a *FE, n *big.Int) *FE {
	if n.Sign() == 0 {
		return R.Int(1)
	}
	if a.zero() {
		return a
	}
	c := new(big.Int)
	if n.Sign() < 0 {
		c.ModInverse(a.c, R.p)
		c.Exp(c, new(big.Int).Neg(n), R.p)
	} else {
		c.Exp(a.c, n, R.p)
	}
	r := &FE{c, map[string]ffac{}}
	for k, f := range a.fs {
		r.fs[k] = ffac{f.p, eI(new(big.Int)).add(f.e, n)}
	}
	return r
}

// Inv: the inverse (of zero: zero).
func (R *Ring) Inv(a *FE) *FE { return R.Pow(a, -1) }
func (R *Ring) Div(a, b *FE) *FE {
	return R.Mul(a, R.Inv(b))
}

func (R *Ring) expand(a *FE) *rpoly {
	p := R.rc(a.c)
	var ks []string
	for k := range a.fs {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		x, y := len(a.fs[ks[i]].p.m), len(a.fs[ks[j]].p.m)
		return x < y || x == y && ks[i] < ks[j]
	})
	for _, k := range ks {
		f := a.fs[k]
		e, ok := f.e.con()
		if !ok || e.Sign() < 0 || e.BitLen() > 12 {
			unsup("sum of powers with exponents that differ by more than a small constant")
		}
		n := e.Int64()
		q, base := R.rc(big1), f.p
		for ; n > 0; n >>= 1 {
			if n&1 != 0 {
				q = R.pmul(q, base)
			}
			if n > 1 {
				base = R.pmul(base, base)
			}
		}
		p = R.pmul(p, q)
	}
	return R.reduce(p)
}

// factor writes a polynomial as constant * monomial * (monic polynomial).
func (R *Ring) factor(p *rpoly) *FE {
	if len(p.m) == 0 {
		return R.Int(0)
	}
	var ks []string
	for m := range p.m {
		ks = append(ks, m)
	}
	sort.Strings(ks)
	// monomial content
	con := map[int]int{}
	first := true
	for _, m := range ks {
		cur := map[int]int{}
		for i := 0; i < len(m); i += 4 {
			cur[int(m[i])<<8|int(m[i+1])] = int(m[i+2])<<8 | int(m[i+3])
		}
		if first {
			con, first = cur, false
			continue
		}
		for v, e := range con {
			if cur[v] < e {
				con[v] = cur[v]
			}
			if con[v] == 0 {
				delete(con, v)
			}
		}
	}
	r := &FE{p.m[ks[len(ks)-1]], map[string]ffac{}}
	for v, e := range con {
		q := &rpoly{map[string]*big.Int{rmono(v, 1): big1}}
		r.fs[R.pkey(q)] = ffac{q, eI(big.NewInt(int64(e)))}
	}
	if len(ks) > 1 {
		ci := new(big.Int).ModInverse(r.c, R.p)
		q := &rpoly{map[string]*big.Int{}}
		for _, m := range ks {
			var b []byte
			for i := 0; i < len(m); i += 4 {
				v := int(m[i])<<8 | int(m[i+1])
				e := int(m[i+2])<<8 | int(m[i+3]) - con[v]
				e = (int(m[i+2])<<8 | int(m[i+3])) - con[v]
				if e > 0 {
					b = append(b, m[i], m[i+1], byte(e>>8), byte(e))
				}
			}
			x := new(big.Int).Mul(p.m[m], ci)
			q.m[string(b)] = x.Mod(x, R.p)
		}
		k := R.pkey(q)
		r.fs[k] = ffac{q, eI(big1)}
	}
	return r
}

func (R *Ring) Add(a, b *FE) *FE { return R.addk(a, b, big1) }
func (R *Ring) Sub(a, b *FE) *FE { return R.addk(a, b, bigM1) }
func (R *Ring) addk(a, b *FE, k *big.Int) *FE {
	if b.zero() {
		return a
	}
	b = R.Scale(b, k)
	if a.zero() {
		return b
	}
	com := &FE{big1, map[string]ffac{}}
	x := &FE{a.c, map[string]ffac{}}
	y := &FE{b.c, map[string]ffac{}}
	split := func(f ffac, key string, d *expo, u, v *FE) bool {
		// exponents e (in u's side) and e-d: common part is the smaller
		c, ok := d.con()
		if !ok {
			return false
		}
		switch c.Sign() {
		case 0:
			com.fs[key] = f
		case 1:
			lo := f.e.add(d, bigM1)
			if len(lo.m) > 0 {
				com.fs[key] = ffac{f.p, lo}
			}
			u.fs[key] = ffac{f.p, d}
		default:
			com.fs[key] = f
			v.fs[key] = ffac{f.p, eI(new(big.Int).Neg(c))}
		}
		return true
	}
	for key, f := range a.fs {
		g, ok := b.fs[key]
		ge := eI(new(big.Int))
		if ok {
			ge = g.e
		}
		if !split(f, key, f.e.add(ge, bigM1), x, y) {
			unsup("sum of powers with symbolic exponents")
		}
	}
	for key, g := range b.fs {
		if _, ok := a.fs[key]; !ok {
			if !split(g, key, g.e, y, x) {
				unsup("sum of powers with symbolic exponents")
			}
		}
	}
	s := R.factor(R.reduce(R.padd(R.expand(x), R.expand(y), big1)))
	return R.Mul(com, s)
}

// Eq: identity as elements of the ring (of fractions).
func (R *Ring) Eq(a, b *FE) bool {
	if a.zero() || b.zero() {
		return a.zero() && b.zero() || R.isZero(a) && R.isZero(b)
	}
	d := R.Div(a, b)
	if len(d.fs) == 0 {
		return d.c.Cmp(big1) == 0
	}
	x := &FE{d.c, map[string]ffac{}}
	y := &FE{big1, map[string]ffac{}}
	for k, f := range d.fs {
		e, ok := f.e.con()
		if !ok {
			return false
		}
		if e.BitLen() > 12 {
			// f^ord = 1; where f is zero both sides are (the exponents on both sides are not zero)
			e = new(big.Int).Mod(e, R.ord)
			if e.Sign() == 0 && a.has(k) && b.has(k) {
				continue
			}
			f = ffac{f.p, eI(e)}
		}
		if e.Sign() > 0 {
			x.fs[k] = f
		} else {
			y.fs[k] = ffac{f.p, eI(new(big.Int).Neg(e))}
		}
	}
	return len(R.reduce(R.padd(R.expand(x), R.expand(y), bigM1)).m) == 0
}

func (a *FE) has(k string) bool { _, ok := a.fs[k]; return ok }

func (R *Ring) isZero(a *FE) bool {
	return a.zero() || len(R.expand(a).m) == 0
}

func (R *Ring) str(a *FE) string {
	var ks []string
	for k := range a.fs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	c := a.c.String()
	if n := new(big.Int).Sub(R.p, a.c); n.BitLen() < 40 {
		c = "-" + n.String()
	} else if a.c.BitLen() > 60 {
		c = fmt.Sprintf("%#x", a.c)
	}
	s := []string{c}
	for _, k := range ks {
		f := a.fs[k]
		x := "(" + R.pstr(f.p) + ")"
		if e, ok := f.e.con(); !ok {
			x += fmt.Sprintf("^(expression of %d bits)", len(f.e.m))
		} else if e.BitLen() > 64 {
			x += fmt.Sprintf("^%#x", e)
		} else if e.Cmp(big1) != 0 {
			x += "^" + e.String()
		}
		s = append(s, x)
		if len(s) > 12 {
			s = append(s, "...")
			break
		}
	}
	r := strings.Join(s, " * ")
	if len(r) > 700 {
		r = r[:700] + "..."
	}
	return r
}

// Eval at a point (bits: exponent bits).
func (R *Ring) Eval(a *FE, at []*big.Int, bits map[string]bool) *big.Int {
	r := new(big.Int).Set(a.c)
	for _, f := range a.fs {
		v := new(big.Int)
		for m, c := range f.p.m {
			t := new(big.Int).Set(c)
			for i := 0; i < len(m); i += 4 {
				x := new(big.Int).Exp(at[int(m[i])<<8|int(m[i+1])], big.NewInt(int64(m[i+2])<<8|int64(m[i+3])), R.p)
				t.Mul(t, x).Mod(t, R.p)
			}
			v.Add(v, t)
		}
		v.Mod(v, R.p)
		e := new(big.Int)
		for n, k := range f.e.m {
			if n == "" || bits[n] {
				e.Add(e, k)
			}
		}
		if e.Sign() < 0 {
			if v.Sign() == 0 {
				return v
			}
			v.ModInverse(v, R.p)
			e.Neg(e)
		}
		r.Mul(r, v.Exp(v, e, R.p)).Mod(r, R.p)
	}
	return r
}
