package main

// Multi-word arithmetic: every 64-bit word term is rewritten as an exact integer polynomial over the
// input words, carry bits and high product halves. Carries telescope; those that do not are settled by
// bounds (Farkas-style elimination of carries, in exact rational arithmetic) or by case distinction.

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
)

// bpoly is a polynomial with dyadic coefficients: sum m[mono]/2^sh. Monomials are strings of
// 2-byte atom numbers, ascending.
type bpoly struct {
	m  map[string]*big.Int
	sh uint
}

func bpC(v *big.Int) *bpoly {
	p := &bpoly{m: map[string]*big.Int{}}
	if v.Sign() != 0 {
		p.m[""] = v
	}
	return p
}
func bpI(v int64) *bpoly { return bpC(big.NewInt(v)) }
func bpAtom(i int) *bpoly {
	return &bpoly{m: map[string]*big.Int{atomKey(i): big.NewInt(1)}}
}
func atomKey(i int) string { return string([]byte{byte(i >> 8), byte(i)}) }
func monoAt(m string, i int) int {
	return int(m[2*i])<<8 | int(m[2*i+1])
}

func (p *bpoly) isZero() bool { return len(p.m) == 0 }

// padd returns p + k*q/2^s.
func padd(p, q *bpoly, k *big.Int, s uint) *bpoly {
	qs := q.sh + s
	sh := p.sh
	if qs > sh {
		sh = qs
	}
	r := &bpoly{m: make(map[string]*big.Int, len(p.m)+len(q.m)), sh: sh}
	dp, dq := sh-p.sh, sh-qs
	for m, v := range p.m {
		if dp > 0 {
			v = new(big.Int).Lsh(v, dp)
		}
		r.m[m] = v
	}
	for m, v := range q.m {
		x := new(big.Int).Mul(v, k)
		if dq > 0 {
			x.Lsh(x, dq)
		}
		if o, ok := r.m[m]; ok {
			x.Add(x, o)
			if x.Sign() == 0 {
				delete(r.m, m)
				continue
			}
		} else if x.Sign() == 0 {
			continue
		}
		r.m[m] = x
	}
	return r.norm()
}

// norm removes common factors of two from the denominator.
func (p *bpoly) norm() *bpoly {
	if p.sh == 0 {
		return p
	}
	if len(p.m) == 0 {
		p.sh = 0
		return p
	}
	z := p.sh
	for _, v := range p.m {
		if t := v.TrailingZeroBits(); t < z {
			z = t
			if z == 0 {
				return p
			}
		}
	}
	for m, v := range p.m {
		p.m[m] = new(big.Int).Rsh(v, z)
	}
	p.sh -= z
	return p
}

var big1 = big.NewInt(1)
var bigM1 = big.NewInt(-1)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big1, n) }

func (p *bpoly) add(q *bpoly) *bpoly            { return padd(p, q, big1, 0) }
func (p *bpoly) sub(q *bpoly) *bpoly            { return padd(p, q, bigM1, 0) }
func (p *bpoly) scale(k *big.Int) *bpoly        { return padd(bpI(0), p, k, 0) }
func (p *bpoly) shl(n uint) *bpoly              { return padd(bpI(0), p, pow2(n), 0) }
func (p *bpoly) shr(n uint) *bpoly              { return padd(bpI(0), p, big1, n) }
func (p *bpoly) addShl(q *bpoly, n uint) *bpoly { return padd(p, q, pow2(n), 0) }

func (b *BN) mulMono(x, y string) string {
	if x == "" {
		return y
	}
	if y == "" {
		return x
	}
	r := make([]byte, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) || j < len(y) {
		if j >= len(y) || i < len(x) && x[i:i+2] <= y[j:j+2] {
			if j < len(y) && x[i:i+2] == y[j:j+2] && b.atoms[monoAt(x, i/2)].bit {
				j += 2
			}
			r = append(r, x[i], x[i+1])
			i += 2
		} else {
			r = append(r, y[j], y[j+1])
			j += 2
		}
	}
	return string(r)
}

func (b *BN) mul(p, q *bpoly) *bpoly {
	if len(p.m)*len(q.m) > 60000 {
		unsup("polynomial product of %d and %d monomials", len(p.m), len(q.m))
	}
	r := &bpoly{m: map[string]*big.Int{}, sh: p.sh + q.sh}
	for m, v := range p.m {
		for n, w := range q.m {
			k := b.mulMono(m, n)
			x := new(big.Int).Mul(v, w)
			if o, ok := r.m[k]; ok {
				x.Add(x, o)
			}
			r.m[k] = x
		}
	}
	for k, v := range r.m {
		if v.Sign() == 0 {
			delete(r.m, k)
		}
	}
	return r.norm()
}

type batom struct {
	name   string
	bit    bool
	hi     *big.Int // range [0, hi]
	lb, ub *bpoly   // polynomial bounds over earlier atoms (carries and high halves)
	t      *T
	// carries
	v      *bpoly // x+y+c or x-y-b
	borrow bool
	a      *bpoly // chain integer
	k      uint   // number of lower words in the chain
	carry  bool
}

type bvec struct {
	ids []int
	max *big.Int // value of the vector is at most this
	set map[int]int
}

type BN struct {
	c      *Ctx
	atoms  []*batom
	memo   map[*T]*bpoly
	bits   map[*T]*bpoly
	his    map[*T]int
	dag    map[*T]bool
	mulArg map[*T]bool
	pre    map[*T]int64 // carries decided beforehand
	vecs   []*bvec
	fix    map[int]*big.Int // settled atoms
	facts  []bfact
	sims   *Sims
	mp     map[*T]map[string]uint64
	mid    map[*T]int
	mts    []*T
	Thr    int
	depth  int
	x      *Exec
}

var bnDebug = os.Getenv("GOVC_BN") != ""

type bfact struct {
	p *bpoly // p >= 0
	k uint
}

func NewBN(c *Ctx, outs ...*T) *BN {
	b := &BN{c: c, memo: map[*T]*bpoly{}, bits: map[*T]*bpoly{}, his: map[*T]int{}, dag: map[*T]bool{}, mulArg: map[*T]bool{}, fix: map[int]*big.Int{}, sims: NewSims(c, 3, 77), mp: map[*T]map[string]uint64{}, mid: map[*T]int{}, Thr: 12}
	for _, t := range reach(outs...) {
		b.dag[t] = true
		if t.op == OMulHi || t.op == OMul {
			b.mulArg[t.a[0]] = true
			b.mulArg[t.a[1]] = true
		}
	}
	return b
}

func (b *BN) newAtom(a *batom) int {
	b.atoms = append(b.atoms, a)
	if len(b.atoms) > 65000 {
		unsup("too many atoms")
	}
	return len(b.atoms) - 1
}

// Vec declares input words with a bound: sum 2^(64 i) ts[i] <= max.
func (b *BN) Vec(ts []*T, max *big.Int) *bpoly {
	v := &bvec{max: max, set: map[int]int{}}
	p := bpI(0)
	ok := true
	for i, t := range ts {
		q := b.Val(t)
		p = p.addShl(q, uint(64*i))
		if len(q.m) == 1 {
			for m, k := range q.m {
				if len(m) == 2 && k.Cmp(big1) == 0 && q.sh == 0 {
					id := monoAt(m, 0)
					if _, dup := v.set[id]; !dup {
						v.ids = append(v.ids, id)
						v.set[id] = i
						continue
					}
				}
				ok = false
			}
		} else {
			ok = false
		}
	}
	if ok {
		b.vecs = append(b.vecs, v)
	}
	return p
}

func (b *BN) Sum(ts []*T) *bpoly {
	p := bpI(0)
	for i, t := range ts {
		p = p.addShl(b.Val(t), uint(64*i))
	}
	return b.norm(p)
}

// norm applies the settled atoms.
func (b *BN) norm(p *bpoly) *bpoly {
	if len(b.fix) == 0 {
		return p
	}
	hit := false
loop:
	for m := range p.m {
		for i := 0; i < len(m)/2; i++ {
			if b.fix[monoAt(m, i)] != nil {
				hit = true
				break loop
			}
		}
	}
	if !hit {
		return p
	}
	r := &bpoly{m: map[string]*big.Int{}, sh: p.sh}
	for m, v := range p.m {
		k := make([]byte, 0, len(m))
		x := v
		for i := 0; i < len(m)/2; i++ {
			if f := b.fix[monoAt(m, i)]; f != nil {
				x = new(big.Int).Mul(x, f)
			} else {
				k = append(k, m[2*i], m[2*i+1])
			}
		}
		if o, ok := r.m[string(k)]; ok {
			x = new(big.Int).Add(x, o)
		}
		r.m[string(k)] = x
	}
	for k, v := range r.m {
		if v.Sign() == 0 {
			delete(r.m, k)
		}
	}
	return r.norm()
}

// leaf1 finds the single 1-bit term t depends on (nil if there is none, false if there are several).
func (b *BN) leaf1(t *T, d int, out map[*T]bool) bool {
	if t.isC() {
		return true
	}
	if t.w == 1 {
		if t.op == OXor && t.a[1].isC() {
			return b.leaf1(t.a[0], d, out)
		}
		out[t] = true
		return len(out) <= 1
	}
	switch t.op {
	case OVar, OUF, OLut, OMul, OMulHi:
		return false
	}
	if d == 0 {
		return false
	}
	for _, a := range t.a {
		if !b.leaf1(a, d-1, out) {
			return false
		}
	}
	return true
}

// oneBit: t = k0 + (k1-k0)*bit
func (b *BN) oneBit(t *T) (bit *T, k0, k1 uint64, ok bool) {
	m := map[*T]bool{}
	if !b.leaf1(t, 8, m) || len(m) != 1 {
		return nil, 0, 0, false
	}
	for l := range m {
		bit = l
	}
	for v := uint64(0); v < 2; v++ {
		e := &Env{val: map[*T]uint64{}, memo: map[*T]uint64{bit: v}, rnd: func(*T) uint64 { return 0 }, uf: defaultUF}
		r := e.Eval(b.c, t)
		if v == 0 {
			k0 = r
		} else {
			k1 = r
		}
	}
	return bit, k0, k1, true
}

func bu(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

// Val is the exact value of t as a natural number.
func (b *BN) Val(t *T) *bpoly {
	if p, ok := b.memo[t]; ok {
		return p
	}
	b.depth++
	if b.x != nil {
		b.x.checkTime()
	}
	if b.depth > 100000 {
		unsup("term depth")
	}
	p := b.norm(b.val(t))
	b.depth--
	if len(p.m) > 3000 {
		unsup("polynomial of %d monomials", len(p.m))
	}
	if b.mulArg[t] && t.w == 64 && len(p.m) > b.Thr && !b.ownCarry(t, p) {
		// used as a factor: name the word
		id := b.newAtom(&batom{name: fmt.Sprintf("w%d", t.id), hi: bu(mask(64)), t: t})
		switch t.op {
		case OAdd, OAdc, OSub, OSbb:
			// the polynomial with its wrap-around carry; keep the definition for bounds
			b.atoms[id].lb, b.atoms[id].ub = p, p
		}
		w := bpAtom(id)
		b.memo[t] = w
		return w
	}
	b.memo[t] = p
	return p
}

// ownCarry: p mentions the carry of the sum t as an atom (naming t would lose the relation).
func (b *BN) ownCarry(t *T, p *bpoly) bool {
	var ct *T
	z := b.c.Const(1, 0)
	switch t.op {
	case OAdd:
		_, ct = b.c.Adc(t.a[0], t.a[1], z)
	case OAdc:
		_, ct = b.c.Adc(t.a[0], t.a[1], t.a[2])
	case OSub:
		_, ct = b.c.Sbb(t.a[0], t.a[1], z)
	case OSbb:
		_, ct = b.c.Sbb(t.a[0], t.a[1], t.a[2])
	default:
		return false
	}
	q, ok := b.bits[ct]
	return ok && b.dag[ct] && len(q.m) == 1 && q.sh == 0 && b.isCarry(q)
}

func (b *BN) isCarry(q *bpoly) bool {
	for m, k := range q.m {
		return len(m) == 2 && k.Cmp(big1) == 0 && b.atoms[monoAt(m, 0)].carry
	}
	return false
}

func (b *BN) opaque(t *T) *bpoly {
	h := mask(t.w)
	if t.op == OVar && t.hi > 0 && t.hi < h {
		h = t.hi
	}
	return bpAtom(b.newAtom(&batom{name: fmt.Sprintf("t%d", t.id), hi: bu(h), bit: t.w == 1, t: t}))
}

func (b *BN) bit(bt *T) *bpoly { return b.Val(bt) }

// carryOf returns the carry atom (or polynomial) of x+y+ci.
func (b *BN) carryOf(x, y, ci *T, borrow, dropped bool) *bpoly {
	c := b.c
	var ct *T
	var st *T
	if borrow {
		st, ct = c.Sbb(x, y, ci)
	} else {
		st, ct = c.Adc(x, y, ci)
	}
	if ct.isC() {
		return bpI(int64(ct.k))
	}
	if p, ok := b.bits[ct]; ok {
		return b.norm(p)
	}
	if v, ok := b.pre[ct]; ok {
		return b.setBit(ct, bpI(v))
	}
	w := uint(x.w)
	var v *bpoly
	ciP := b.Val(ci)
	if borrow {
		v = b.Val(x).sub(b.Val(y)).sub(ciP)
	} else {
		v = b.Val(x).add(b.Val(y)).add(ciP)
	}
	v = b.norm(v)
	// settled by plain bounds?
	M := bpC(pow2(w))
	if !borrow {
		if b.nonneg(M.sub(bpI(1)).sub(v), 0, dropped) {
			return b.setBit(ct, bpI(0))
		}
		if dropped && b.nonneg(v.sub(M), 0, dropped) {
			return b.setBit(ct, bpI(1))
		}
	} else {
		if b.nonneg(v, 0, dropped) {
			return b.setBit(ct, bpI(0))
		}
		if dropped && b.nonneg(bpI(-1).sub(v), 0, dropped) {
			return b.setBit(ct, bpI(1))
		}
	}
	// a word that is identically zero (Montgomery reduction) or whose sum has another form
	nat := false
	switch st.op {
	case OAdd, OAdc, OSub, OSbb:
		nat = len(st.a) >= 2 && (st.a[0] == x && st.a[1] == y || st.a[0] == y && st.a[1] == x)
		if st.op == OAdd && borrow && y.isC() && st.a[0] == x {
			nat = true
		}
	}
	var sp *bpoly
	if sw := b.smallWord(st); w == 64 && sw != nil {
		sp = sw
	} else if !nat {
		sp = b.Val(st)
	} else if b.mulArg[st] && b.dag[st] && st != x && st != y {
		// the word is a factor elsewhere: name it, and express the carry through it
		if len(v.m)+1 > b.Thr {
			if _, ok := b.memo[st]; !ok {
				id := b.newAtom(&batom{name: fmt.Sprintf("w%d", st.id), hi: bu(mask(64)), t: st})
				b.memo[st] = bpAtom(id)
			}
			sp = b.memo[st]
		}
	}
	if sp != nil {
		d := v.sub(sp)
		if borrow {
			d = d.scale(bigM1)
		}
		return b.setBit(ct, d.shr(w))
	}
	a := &batom{name: fmt.Sprintf("c%d", ct.id), bit: true, carry: true, hi: big1, t: ct, v: v, borrow: borrow}
	if borrow {
		a.lb = v.scale(bigM1).shr(w)
		a.ub = M.sub(bpI(1)).sub(v).shr(w)
	} else {
		a.ub = v.shr(w)
		a.lb = v.sub(M).add(bpI(1)).shr(w)
	}
	a.a = v
	if len(ciP.m) == 1 {
		for m, k := range ciP.m {
			if len(m) == 2 && k.Cmp(big1) == 0 && ciP.sh == 0 {
				if q := b.atoms[monoAt(m, 0)]; q.carry && q.borrow == borrow && w == 64 {
					a.k = q.k + 1
					x := v.sub(ciP)
					if borrow {
						x = v.add(ciP)
					}
					a.a = q.a.addShl(x, 64*a.k)
				}
			}
		}
	}
	return b.setBit(ct, bpAtom(b.newAtom(a)))
}

func (b *BN) setBit(t *T, p *bpoly) *bpoly {
	b.bits[t] = p
	b.memo[t] = p
	return p
}

// carryTerm tells whether the carry of this operation occurs in the program's results.
func (b *BN) used(x, y, ci *T, borrow bool) bool {
	var ct *T
	if borrow {
		_, ct = b.c.Sbb(x, y, ci)
	} else {
		_, ct = b.c.Adc(x, y, ci)
	}
	return b.dag[ct]
}

func (b *BN) val(t *T) *bpoly {
	c := b.c
	z := c.Const(1, 0)
	wrap := func(x, y, ci *T, borrow bool) *bpoly {
		if sw := b.smallWord(t); sw != nil {
			return sw
		}
		co := b.carryOf(x, y, ci, borrow, !b.used(x, y, ci, borrow))
		if p, ok := b.memo[t]; ok { // named meanwhile
			return p
		}
		if borrow {
			return b.Val(x).sub(b.Val(y)).sub(b.Val(ci)).addShl(co, uint(t.w))
		}
		return padd(b.Val(x).add(b.Val(y)).add(b.Val(ci)), co, new(big.Int).Neg(pow2(uint(t.w))), 0)
	}
	if t.isC() {
		return bpC(bu(t.k))
	}
	if t.w > 1 {
		if bit, k0, k1, ok := b.oneBit(t); ok {
			return padd(bpC(bu(k0)), b.Val(bit), new(big.Int).Sub(bu(k1), bu(k0)), 0)
		}
	}
	switch t.op {
	case OAdd:
		if t.w == 64 {
			if t.a[1].isC() {
				// x - K written as x + (2^64-K)
				k := c.Const(64, -t.a[1].k)
				if b.used(t.a[0], k, z, true) {
					return wrap(t.a[0], k, z, true)
				}
			}
			return wrap(t.a[0], t.a[1], z, false)
		}
	case OSub:
		if t.w == 64 {
			return wrap(t.a[0], t.a[1], z, true)
		}
	case OAdc:
		return wrap(t.a[0], t.a[1], t.a[2], false)
	case OSbb:
		return wrap(t.a[0], t.a[1], t.a[2], true)
	case OAdcC:
		return b.carryOf(t.a[0], t.a[1], t.a[2], false, false)
	case OSbbB:
		return b.carryOf(t.a[0], t.a[1], t.a[2], true, false)
	case OUlt:
		x, y := t.a[0], t.a[1]
		if x.w == 64 {
			for i := 0; i < 2; i++ {
				if x.op == OAdd && x.a[i] == y {
					return b.carryOf(x.a[0], x.a[1], z, false, false)
				}
			}
			return b.carryOf(x, y, z, true, false)
		}
	case OMul:
		if t.w == 64 {
			if b.mulArg[t] {
				// a factor elsewhere: the high half is expressed through it
				return b.opaque(t)
			}
			h := b.hi(t.a[0], t.a[1])
			return padd(b.mul(b.Val(t.a[0]), b.Val(t.a[1])), h, new(big.Int).Neg(pow2(64)), 0)
		}
	case OMulHi:
		return b.hi(t.a[0], t.a[1])
	case OExtract:
		x := t.a[0]
		if x.w != 64 || t.op == OExtract && t.k != 0 && t.k+uint64(t.w) != 64 {
			break
		}
		if t.k == 0 { // low part: the word without its high part
			return padd(b.Val(x), b.Val(c.Extract(x, t.w, 64-t.w)), new(big.Int).Neg(pow2(uint(t.w))), 0)
		}
		if t.w == 1 { // top bit: the carry of x+x
			return b.carryOf(x, x, z, false, false)
		}
	case OConcat:
		p := bpI(0)
		sh := uint(0)
		for i := len(t.a) - 1; i >= 0; i-- {
			p = p.addShl(b.Val(t.a[i]), sh)
			sh += uint(t.a[i].w)
		}
		return p
	case OXor:
		x, y := t.a[0], t.a[1]
		if y.isC() && y.k == mask(t.w) {
			return bpC(bu(mask(t.w))).sub(b.Val(x))
		}
		if t.w == 1 {
			p, q := b.Val(x), b.Val(y)
			return padd(p.add(q), b.mul(p, q), big.NewInt(-2), 0)
		}
		// bit-selected words: x ^ (m & (x ^ y))
		for i := 0; i < 2; i++ {
			x, y := t.a[i], t.a[1-i]
			if y.op == OAnd {
				for j := 0; j < 2; j++ {
					bit, k0, k1, ok := b.oneBit(y.a[j])
					d := y.a[1-j]
					if !ok || !(k0 == 0 && k1 == mask(64) || k1 == 0 && k0 == mask(64)) {
						continue
					}
					o := c.Xor(d, x)
					if o.op == OXor && o.a[0].op == OXor {
						continue
					}
					s := b.Val(bit)
					if k0 != 0 {
						s = bpI(1).sub(s)
					}
					return b.Val(x).add(b.mul(s, b.Val(o).sub(b.Val(x))))
				}
			}
		}
	case OAnd:
		if t.w == 1 {
			return b.mul(b.Val(t.a[0]), b.Val(t.a[1]))
		}
		for i := 0; i < 2; i++ {
			if bit, k0, k1, ok := b.oneBit(t.a[i]); ok {
				x := t.a[1-i]
				s := b.Val(bit)
				switch {
				case k0 == 0 && k1 == mask(t.w):
					return b.mul(s, b.Val(x))
				case k1 == 0 && k0 == mask(t.w):
					return b.mul(bpI(1).sub(s), b.Val(x))
				}
			}
		}
	case OOr:
		if t.w == 1 {
			p, q := b.Val(t.a[0]), b.Val(t.a[1])
			return p.add(q).sub(b.mul(p, q))
		}
		// complementary masks
		for i := 0; i < 4; i++ {
			x, y := t.a[0], t.a[1]
			if x.op == OAnd && y.op == OAnd {
				b1, k0, k1, ok1 := b.oneBit(x.a[i&1])
				b2, l0, l1, ok2 := b.oneBit(y.a[i>>1])
				if ok1 && ok2 && b1 == b2 && k0 == ^l0&mask(t.w) && k1 == ^l1&mask(t.w) && (k0 == 0 || l0 == 0) && (k1 == 0 || l1 == 0) {
					return b.Val(x).add(b.Val(y))
				}
			}
			for j := 0; j < 2; j++ { // (m&x) | K with a one-bit word K on the other side
				if x.op == OAnd {
					b1, k0, k1, ok1 := b.oneBit(x.a[i&1])
					b2, l0, l1, ok2 := b.oneBit(y)
					if ok1 && ok2 && b1 == b2 && k0&l0 == 0 && k1&l1 == 0 && (k0 == 0 || l0 == 0) && (k1 == 0 || l1 == 0) {
						return b.Val(x).add(b.Val(y))
					}
				}
				x, y = y, x
			}
		}
	case OIte:
		s := b.Val(t.a[0])
		x, y := b.Val(t.a[1]), b.Val(t.a[2])
		return y.add(b.mul(s, x.sub(y)))
	}
	return b.opaque(t)
}

func (b *BN) hi(x, y *T) *bpoly {
	ht := b.c.MulHi(x, y)
	if ht.isC() {
		return bpC(bu(ht.k))
	}
	if id, ok := b.his[ht]; ok {
		return bpAtom(id)
	}
	p := b.mul(b.Val(x), b.Val(y))
	if lo := b.c.Mul(x, y); lo.op == OMul && b.dag[lo] && b.mulArg[lo] {
		return p.sub(b.Val(lo)).shr(64)
	}
	mx := new(big.Int).Mul(b.maxWord(x), b.maxWord(y))
	mx.Rsh(mx, 64)
	id := b.newAtom(&batom{name: fmt.Sprintf("h%d", ht.id), hi: mx, t: ht, ub: p.shr(64), lb: p.sub(bpC(bu(mask(64)))).shr(64)})
	b.his[ht] = id
	return bpAtom(id)
}

func (b *BN) maxWord(t *T) *big.Int {
	if t.isC() {
		return bu(t.k)
	}
	return bu(mask(t.w))
}

// ---- words that are zero modulo 2^64

// smallWord recognises words that are zero or a single bit modulo 2^64.
func (b *BN) smallWord(t *T) (r *bpoly) {
	if t.isC() || t.w != 64 {
		return nil
	}
	if t.op != OAdd && t.op != OAdc && t.op != OSub && t.op != OSbb {
		return nil
	}
	for _, v := range b.sims.Sig(t) {
		if v > 1 {
			return nil
		}
	}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(execErr); !ok {
				panic(p)
			}
			r = nil
		}
	}()
	m := b.mpoly(t)
	switch len(m) {
	case 0:
		return bpI(0)
	case 1:
		for k, v := range m {
			if v == 1 && len(k) == 3 {
				if a := b.mts[int(k[0])<<16|int(k[1])<<8|int(k[2])]; a.w == 1 {
					return b.Val(a)
				}
			}
		}
	}
	return nil
}

func (b *BN) mAtom(t *T) map[string]uint64 {
	id, ok := b.mid[t]
	if !ok {
		id = len(b.mts)
		b.mid[t] = id
		b.mts = append(b.mts, t)
	}
	return map[string]uint64{string([]byte{byte(id >> 16), byte(id >> 8), byte(id)}): 1}
}

func mAdd(p, q map[string]uint64, k uint64) map[string]uint64 {
	r := make(map[string]uint64, len(p)+len(q))
	for m, v := range p {
		r[m] = v
	}
	for m, v := range q {
		if n := r[m] + k*v; n == 0 {
			delete(r, m)
		} else {
			r[m] = n
		}
	}
	return r
}

func mMul(p, q map[string]uint64) map[string]uint64 {
	if len(p)*len(q) > 4000 && len(p) > 1 && len(q) > 1 {
		return nil
	}
	r := map[string]uint64{}
	for m, v := range p {
		for n, w := range q {
			var s []string
			for i := 0; i < len(m); i += 3 {
				s = append(s, m[i:i+3])
			}
			for i := 0; i < len(n); i += 3 {
				s = append(s, n[i:i+3])
			}
			sort.Strings(s)
			k := strings.Join(s, "")
			if x := r[k] + v*w; x == 0 {
				delete(r, k)
			} else {
				r[k] = x
			}
		}
	}
	return r
}

// mpoly is t modulo 2^64 as a polynomial over opaque terms.
func (b *BN) mpoly(t *T) map[string]uint64 {
	if p, ok := b.mp[t]; ok {
		return p
	}
	var p map[string]uint64
	switch t.op {
	case OConst:
		p = map[string]uint64{}
		if t.k != 0 {
			p[""] = t.k
		}
	case OAdd, OAdc, OSub, OSbb:
		if t.w != 64 {
			p = b.mAtom(t)
			break
		}
		k := uint64(1)
		if t.op == OSub || t.op == OSbb {
			k = ^uint64(0)
		}
		p = mAdd(b.mpoly(t.a[0]), b.mpoly(t.a[1]), k)
		if len(t.a) > 2 {
			p = mAdd(p, b.mpoly(t.a[2]), k)
		}
	case OMul:
		if t.w == 64 {
			p = mMul(b.mpoly(t.a[0]), b.mpoly(t.a[1]))
		}
		if p == nil {
			p = b.mAtom(t)
		}
	case OConcat:
		p = map[string]uint64{}
		sh := uint(0)
		for i := len(t.a) - 1; i >= 0; i-- {
			p = mAdd(p, b.mpoly(t.a[i]), 1<<sh)
			sh += uint(t.a[i].w)
		}
	default:
		p = b.mAtom(t)
	}
	b.mp[t] = p
	return p
}

// ---- bounds

// atomsOf lists the atoms of p, ascending.
func atomsOf(p *bpoly) []int {
	s := map[int]bool{}
	for m := range p.m {
		for i := 0; i < len(m)/2; i++ {
			s[monoAt(m, i)] = true
		}
	}
	var r []int
	for i := range s {
		r = append(r, i)
	}
	sort.Ints(r)
	return r
}

// subst replaces atom id in p: where its monomial's coefficient is negative by up, else by low
// (so that the result is a lower bound of p).
func (b *BN) substLow(p *bpoly, id int, low, up *bpoly) *bpoly {
	key := atomKey(id)
	r := &bpoly{m: map[string]*big.Int{}, sh: p.sh}
	pos := &bpoly{m: map[string]*big.Int{}, sh: p.sh}
	neg := &bpoly{m: map[string]*big.Int{}, sh: p.sh}
	for m, v := range p.m {
		j := -1
		for i := 0; i < len(m); i += 2 {
			if m[i:i+2] == key {
				j = i
				break
			}
		}
		if j < 0 {
			r.m[m] = v
			continue
		}
		k := m[:j] + m[j+2:]
		if v.Sign() > 0 {
			pos.m[k] = v
		} else {
			neg.m[k] = v
		}
	}
	if len(pos.m) > 0 {
		r = r.add(b.mul(pos, low))
	}
	if len(neg.m) > 0 {
		r = r.add(b.mul(neg, up))
	}
	return b.norm(r.norm())
}

// lowMode: 0 carries by their definitions, 1 carries by [0,1]
func (b *BN) low(p *bpoly, mode int) (*big.Int, uint) {
	p = b.norm(p)
	for {
		as := atomsOf(p)
		id := -1
		for i := len(as) - 1; i >= 0; i-- {
			if b.atoms[as[i]].ub != nil {
				id = as[i]
				break
			}
		}
		if id < 0 {
			break
		}
		a := b.atoms[id]
		if mode == 1 {
			p = b.substLow(p, id, bpI(0), bpC(a.hi))
		} else {
			p = b.substLow(p, id, b.norm(a.lb), b.norm(a.ub))
		}
	}
	// vectors
	for _, v := range b.vecs {
		p = b.lowVec(p, v)
	}
	r := new(big.Int)
	for m, k := range p.m {
		if m == "" {
			r.Add(r, k)
			continue
		}
		if k.Sign() < 0 {
			x := new(big.Int).Set(k)
			for i := 0; i < len(m)/2; i++ {
				x.Mul(x, b.atoms[monoAt(m, i)].hi)
			}
			r.Add(r, x)
		}
	}
	return r, p.sh
}

// lowVec replaces k*(vector) with negative k by k*max.
func (b *BN) lowVec(p *bpoly, v *bvec) *bpoly {
	type grp struct{ co []*big.Int }
	gs := map[string]*grp{}
	for m, k := range p.m {
		var at []int
		for i := 0; i < len(m); i += 2 {
			if _, ok := v.set[monoAt(m, i/2)]; ok && (len(at) == 0 || m[i:i+2] != m[at[len(at)-1]:at[len(at)-1]+2]) {
				at = append(at, i)
			}
		}
		// (coefficients doubled, so that products of two words of the vector can be shared evenly)
		x := new(big.Int).Lsh(k, 1)
		if len(at) > 1 {
			x = k
			at = at[:2]
		}
		for _, i := range at {
			j := v.set[monoAt(m, i/2)]
			rest := m[:i] + m[i+2:]
			g := gs[rest]
			if g == nil {
				g = &grp{make([]*big.Int, len(v.ids))}
				gs[rest] = g
			}
			g.co[j] = x
		}
	}
	n := len(v.ids)
	r := p
	for rest, g := range gs {
		top := g.co[n-1]
		if top == nil || top.Sign() >= 0 {
			continue
		}
		// kappa = top / 2^(64(n-1)), as a dyadic factor
		q := &bpoly{m: map[string]*big.Int{}, sh: uint(64*(n-1)) + 1}
		for j := range v.ids {
			m := b.mulMono(atomKey(v.ids[j]), rest)
			if n-1-j >= 0 {
				q.m[m] = new(big.Int).Lsh(top, uint(64*j))
			}
		}
		q.sh += p.sh
		r = r.sub(q)
		qq := &bpoly{m: map[string]*big.Int{rest: new(big.Int).Mul(top, v.max)}, sh: p.sh + uint(64*(n-1)) + 1}
		r = r.add(qq)
	}
	return r
}

// aboveM1: l/2^sh > -1, which makes an integer quantity bounded below by it nonnegative.
func aboveM1(l *big.Int, sh uint) bool {
	return l.Sign() >= 0 || new(big.Int).Add(l, pow2(sh)).Sign() > 0
}

// nonneg proves p >= 0 for an integer-valued p.
func (b *BN) nonneg(p *bpoly, k uint, deep bool) bool {
	p = b.norm(p)
	if aboveM1(b.low(p, 1)) {
		return true
	}
	if !deep {
		return false
	}
	if aboveM1(b.low(p, 0)) {
		return true
	}
	for _, f := range b.facts {
		q := p.shl(64 * f.k).sub(b.norm(f.p))
		for mode := 0; mode < 2; mode++ {
			if aboveM1(b.low(q, mode)) {
				return true
			}
		}
	}
	return false
}

// settle decides carry atom id from bounds and facts.
func (b *BN) settle(id int) bool {
	a := b.atoms[id]
	v := b.norm(a.v)
	M := bpC(pow2(64))
	ch := b.norm(a.a)
	top := bpC(pow2(64 * (a.k + 1)))
	set := func(x int64) bool { b.fix[id] = big.NewInt(x); return true }
	nn := func(p, q *bpoly) bool { return b.nonneg(p, 0, true) || b.nonneg(q, 0, true) }
	if a.borrow {
		if nn(v, ch) {
			return set(0)
		}
		if nn(bpI(-1).sub(v), bpI(-1).sub(ch)) {
			return set(1)
		}
		return false
	}
	if nn(M.sub(bpI(1)).sub(v), top.sub(bpI(1)).sub(ch)) {
		return set(0)
	}
	if nn(v.sub(M), ch.sub(top)) {
		return set(1)
	}
	return false
}

// settleAll settles what it can among the carries of p; returns the unsettled bits.
func (b *BN) settleAll(p *bpoly) (rest []int) {
	for {
		rest = nil
		hit := false
		for _, id := range atomsOf(b.norm(p)) {
			a := b.atoms[id]
			if b.fix[id] != nil {
				continue
			}
			if a.carry && b.settle(id) {
				hit = true
				continue
			}
			if a.bit {
				rest = append(rest, id)
			}
		}
		if !hit {
			return
		}
	}
}

// settleEvery tries every carry once, in order of creation.
func (b *BN) settleEvery() {
	for id := range b.atoms {
		if b.atoms[id].carry && b.fix[id] == nil {
			b.settle(id)
		}
	}
}

// decided lists the carries found constant so far.
func (b *BN) decided() map[*T]int64 {
	r := map[*T]int64{}
	for ct, p := range b.bits {
		p = b.norm(p)
		if len(p.m) == 0 {
			r[ct] = 0
		} else if k := p.m[""]; len(p.m) == 1 && k != nil && p.sh == 0 && k.Cmp(big1) == 0 {
			r[ct] = 1
		}
	}
	return r
}

// Cases runs f under every assignment of the undecided bits of the polynomials; f sees them simplified.
func (b *BN) Cases(ps []*bpoly, limit int, f func(ps []*bpoly, path string) error) error {
	return b.cases(ps, limit, "", f)
}

func (b *BN) cases(ps []*bpoly, limit int, path string, f func(ps []*bpoly, path string) error) error {
	var rest []int
	seen := map[int]bool{}
	for _, p := range ps {
		for _, i := range b.settleAll(p) {
			if !seen[i] {
				seen[i] = true
				rest = append(rest, i)
			}
		}
	}
	q := make([]*bpoly, len(ps))
	for i := range ps {
		q[i] = b.norm(ps[i])
	}
	if bnDebug && len(rest) > 0 && path == "" {
		for _, i := range rest {
			a := b.atoms[i]
			fmt.Printf("UNSETTLED %s %s", a.name, a.t)
			if a.carry {
				l, sh := b.low(bpC(pow2(64)).sub(bpI(1)).sub(a.v), 0)
				fmt.Printf(" v=%s low=%d/%d bits", b.str(b.norm(a.v)), l.BitLen()*l.Sign(), sh)
			}
			fmt.Println()
		}
	}
	if len(rest) == 0 || limit == 0 {
		return f(q, path)
	}
	sort.Ints(rest)
	id := rest[0]
	a := b.atoms[id]
	for v := int64(0); v < 2; v++ {
		sf := map[int]*big.Int{}
		for k, x := range b.fix {
			sf[k] = x
		}
		nf := len(b.facts)
		feas := b.fixBit(id, v)
		var err error
		if feas {
			err = b.cases(ps, limit-1, fmt.Sprintf("%s %s=%d", path, a.name, v), f)
		}
		b.fix = sf
		b.facts = b.facts[:nf]
		if err != nil {
			return err
		}
	}
	return nil
}

// fixBit sets an undecided bit, with what its definition then says; false if that is infeasible.
func (b *BN) fixBit(id int, v int64) bool {
	a := b.atoms[id]
	b.fix[id] = big.NewInt(v)
	feas := true
	if a.carry {
		ch := b.norm(a.a)
		var g *bpoly
		top := bpC(pow2(64 * (a.k + 1)))
		switch {
		case a.borrow && v == 1:
			g = bpI(-1).sub(ch)
		case a.borrow:
			g = ch
		case v == 1:
			g = ch.sub(top)
		default:
			g = top.sub(bpI(1)).sub(ch)
		}
		// infeasible if -g-1 >= 0
		if b.nonneg(bpI(-1).sub(g), 0, true) {
			feas = false
		}
		b.facts = append(b.facts, bfact{g, 0}, bfact{g, a.k})
	}
	return feas
}

// assume takes over the bits that the conditions of a path decide; false if they contradict each other.
func (b *BN) assume(pc []*T) bool {
	for _, t := range pc {
		bit, v, ok := b.condBit(t)
		if !ok || b.memo[bit] == nil && !b.dag[bit] {
			continue
		}
		p := b.norm(b.Val(bit))
		b.settleAll(p)
		p = b.norm(p)
		if len(p.m) == 0 || len(p.m) == 1 && p.m[""] != nil {
			if (len(p.m) != 0) != (v != 0) {
				return false
			}
			continue
		}
		for m, k := range p.m {
			if len(p.m) == 1 && p.sh == 0 && len(m) == 2 && k.Cmp(big1) == 0 {
				if a := b.atoms[monoAt(m, 0)]; (a.carry || a.bit) && !b.fixBit(monoAt(m, 0), v) {
					return false
				}
			}
		}
	}
	return true
}

// condBit: the condition holds exactly when the bit has the value.
func (b *BN) condBit(t *T) (bit *T, v int64, ok bool) {
	v = 1
	for t.op == OXor && t.w == 1 && t.a[1].isCV(1) {
		t, v = t.a[0], 1-v
	}
	if t.op == OEq && t.a[1].isC() {
		l, k0, k1, ok := b.oneBit(t.a[0])
		if !ok || (k0 == t.a[1].k) == (k1 == t.a[1].k) {
			return nil, 0, false
		}
		if k0 == t.a[1].k {
			v = 1 - v
		}
		return l, v, true
	}
	return t, v, t.w == 1
}

// divisible: every coefficient of p is a multiple of m (m odd).
func (p *bpoly) divisible(m *big.Int) bool {
	for _, v := range p.m {
		if new(big.Int).Mod(v, m).Sign() != 0 {
			return false
		}
	}
	return true
}

func (b *BN) str(p *bpoly) string {
	var s []string
	var ks []string
	for m := range p.m {
		ks = append(ks, m)
	}
	sort.Strings(ks)
	for _, m := range ks {
		x := fmt.Sprintf("%#x", p.m[m])
		if len(x) > 20 {
			x = x[:18] + fmt.Sprintf("~%d", p.m[m].BitLen())
		}
		for i := 0; i < len(m)/2; i++ {
			x += "*" + b.atoms[monoAt(m, i)].name
		}
		s = append(s, x)
		if len(s) > 12 {
			s = append(s, fmt.Sprintf("... %d monomials", len(ks)))
			break
		}
	}
	if os.Getenv("GOVC_BN") == "2" {
		for _, i := range atomsOf(p) {
			fmt.Printf("    %s = %v\n", b.atoms[i].name, b.atoms[i].t)
		}
	}
	return strings.Join(s, " + ") + fmt.Sprintf(" /2^%d", p.sh)
}
