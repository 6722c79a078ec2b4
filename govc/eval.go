package main

// Concrete evaluation of terms (simulation signatures, counterexample search).

import "math/bits"

type Env struct {
	val  map[*T]uint64     // variables; others from rnd
	rnd  func(t *T) uint64 // value of an unassigned variable
	memo map[*T]uint64
	uf   func(t *T, a []uint64) uint64 // uninterpreted functions
}

func mix64(h uint64) uint64 {
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 33
	return h
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix64(h)
}

func defaultUF(t *T, a []uint64) uint64 {
	h := hashStr(t.name)
	for _, v := range a {
		h = mix64(h*31 + v + 0x9e3779b97f4a7c15)
	}
	return h & mask(t.w)
}

// RandEnv assigns every variable a value derived from seed.
func RandEnv(seed uint64) *Env {
	return &Env{val: map[*T]uint64{}, memo: map[*T]uint64{}, rnd: func(t *T) uint64 {
		h := mix64(hashStr(t.name) + mix64(seed*0x9e3779b97f4a7c15+1))
		v := h & mask(t.w)
		if t.hi < mask(t.w) || t.lo > 0 {
			n := t.hi - t.lo + 1
			if n != 0 {
				v = t.lo + h%n
			}
		}
		return v
	}, uf: defaultUF}
}

func (e *Env) Eval(c *Ctx, t *T) uint64 {
	if t.op == OConst {
		return t.k
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	// iterative to avoid deep recursion on long chains
	type fr struct {
		t *T
		i int
	}
	stack := []fr{{t, 0}}
	for len(stack) > 0 {
		f := &stack[len(stack)-1]
		if f.i < len(f.t.a) {
			a := f.t.a[f.i]
			f.i++
			if a.op != OConst {
				if _, ok := e.memo[a]; !ok {
					stack = append(stack, fr{a, 0})
				}
			}
			continue
		}
		e.memo[f.t] = e.eval1(c, f.t)
		stack = stack[:len(stack)-1]
	}
	return e.memo[t]
}

func (e *Env) g(t *T) uint64 {
	if t.op == OConst {
		return t.k
	}
	return e.memo[t]
}

func (e *Env) eval1(c *Ctx, t *T) uint64 {
	m := mask(t.w)
	b := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch t.op {
	case OVar:
		if v, ok := e.val[t]; ok {
			return v
		}
		return e.rnd(t)
	case OAnd:
		return e.g(t.a[0]) & e.g(t.a[1])
	case OOr:
		return e.g(t.a[0]) | e.g(t.a[1])
	case OXor:
		return e.g(t.a[0]) ^ e.g(t.a[1])
	case OAdd:
		return (e.g(t.a[0]) + e.g(t.a[1])) & m
	case OSub:
		return (e.g(t.a[0]) - e.g(t.a[1])) & m
	case OAdc:
		return (e.g(t.a[0]) + e.g(t.a[1]) + e.g(t.a[2])) & m
	case OSbb:
		return (e.g(t.a[0]) - e.g(t.a[1]) - e.g(t.a[2])) & m
	case OAdcC:
		s, cc := bits.Add64(e.g(t.a[0]), e.g(t.a[1]), e.g(t.a[2]))
		if w := t.a[0].w; w < 64 {
			return s >> w & 1
		}
		return cc
	case OSbbB:
		x, y, z := e.g(t.a[0]), e.g(t.a[1]), e.g(t.a[2])
		_, bb := bits.Sub64(x, y, z)
		return bb
	case OMul:
		return (e.g(t.a[0]) * e.g(t.a[1])) & m
	case OMulHi:
		h, _ := bits.Mul64(e.g(t.a[0]), e.g(t.a[1]))
		return h
	case OUdiv:
		d := e.g(t.a[1])
		if d == 0 {
			return m
		}
		return e.g(t.a[0]) / d
	case OUrem:
		d := e.g(t.a[1])
		if d == 0 {
			return e.g(t.a[0])
		}
		return e.g(t.a[0]) % d
	case OShlV:
		n := e.g(t.a[1])
		if n >= uint64(t.w) {
			return 0
		}
		return e.g(t.a[0]) << n & m
	case OLshrV:
		n := e.g(t.a[1])
		if n >= uint64(t.w) {
			return 0
		}
		return e.g(t.a[0]) >> n
	case OAshrV:
		n := e.g(t.a[1])
		if n > 63 {
			n = 63
		}
		return uint64(sgn(e.g(t.a[0]), t.w)>>n) & m
	case ORotl:
		v := e.g(t.a[0])
		return (v<<t.k | v>>(uint64(t.w)-t.k)) & m
	case OExtract:
		return e.g(t.a[0]) >> t.k & m
	case OConcat:
		var v uint64
		for _, p := range t.a {
			v = v<<p.w | e.g(p)
		}
		return v
	case OSext:
		return uint64(sgn(e.g(t.a[0]), t.a[0].w)) & m
	case OEq:
		return b(e.g(t.a[0]) == e.g(t.a[1]))
	case OUlt:
		return b(e.g(t.a[0]) < e.g(t.a[1]))
	case OSlt:
		return b(sgn(e.g(t.a[0]), t.a[0].w) < sgn(e.g(t.a[1]), t.a[1].w))
	case OIte:
		if e.g(t.a[0]) == 1 {
			return e.g(t.a[1])
		}
		return e.g(t.a[2])
	case OLut:
		return c.luts[t.k].tab[e.g(t.a[0])]
	case OUF:
		as := make([]uint64, len(t.a))
		for i, a := range t.a {
			as[i] = e.g(a)
		}
		return e.uf(t, as) & m
	}
	panic("eval op")
}

// Sig is a simulation signature over n random environments.
type Sims struct {
	c    *Ctx
	envs []*Env
}

func NewSims(c *Ctx, n int, seed uint64) *Sims {
	s := &Sims{c: c}
	for i := 0; i < n; i++ {
		s.envs = append(s.envs, RandEnv(seed*1000+uint64(i)))
	}
	return s
}
func (s *Sims) Sig(t *T) (r [3]uint64) {
	for i := range r {
		r[i] = s.envs[i].Eval(s.c, t)
	}
	return
}

// enumSat decides pc && c when c speaks of one variable of at most 8 bits and every conjunct that
// mentions it mentions nothing else (the other conjuncts are taken to be satisfiable).
func (c *Ctx) enumSat(pc []*T, q *T) (sat, ok bool) {
	var v *T
	for _, t := range reach(q) {
		switch t.op {
		case OUF:
			return false, false
		case OVar:
			if t.w > 8 || v != nil && v != t {
				return false, false
			}
			v = t
		}
	}
	if v == nil {
		return false, false
	}
	cs := []*T{q}
	for _, p := range pc {
		has, other := false, false
		for _, t := range reach(p) {
			if t == v {
				has = true
			} else if t.op == OVar || t.op == OUF {
				other = true
			}
		}
		if has && other {
			return false, false
		}
		if has {
			cs = append(cs, p)
		}
	}
	for k := v.lo; k <= v.hi; k++ {
		e := RandEnv(1)
		e.val[v] = k
		all := true
		for _, p := range cs {
			if e.Eval(c, p) == 0 {
				all = false
				break
			}
		}
		if all {
			return true, true
		}
	}
	return false, true
}
