package main

// A small prover for linear integer constraints over lengths and offsets (Fourier-Motzkin with
// integer tightening). It only ever answers "yes" or "don't know"; z3 gets the rest.

type lcon struct { // sum m[t]*t + k >= 0
	m map[*T]int64
	k int64
}

const liaLim = int64(1) << 58

// intLin writes t (64 bits, signed) as a linear form over bounded nonnegative atoms.
func (c *Ctx) intLin(t *T) (*lcon, bool) {
	if t.w != 64 {
		return nil, false
	}
	l := &linf{m: map[*T]uint64{}}
	c.lin(t, 1, l)
	r := &lcon{m: map[*T]int64{}, k: int64(l.k)}
	if r.k > liaLim || r.k < -liaLim {
		return nil, false
	}
	sum := uint64(0)
	for a, k := range l.m {
		if k == 0 {
			continue
		}
		_, h := c.Range(a)
		ak := int64(k)
		if ak < 0 {
			ak = -ak
		}
		if h >= uint64(liaLim) || ak < 0 || ak > 1<<32 || h > uint64(liaLim)/uint64(ak) {
			return nil, false
		}
		sum += uint64(ak) * h
		if sum > uint64(liaLim) {
			return nil, false
		}
		r.m[a] = int64(k)
	}
	return r, true
}

func (a *lcon) addMul(b *lcon, f int64) *lcon {
	r := &lcon{m: map[*T]int64{}, k: a.k + f*b.k}
	for t, k := range a.m {
		r.m[t] = k
	}
	for t, k := range b.m {
		if v := r.m[t] + f*k; v == 0 {
			delete(r.m, t)
		} else {
			r.m[t] = v
		}
	}
	return r
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (a *lcon) norm() {
	g := int64(0)
	for _, k := range a.m {
		g = gcd64(g, k)
	}
	if g > 1 {
		for t := range a.m {
			a.m[t] /= g
		}
		q := a.k / g
		if a.k%g != 0 && a.k < 0 {
			q--
		}
		a.k = q
	}
}

// unsatLIA reports that the constraints have no integer solution (may fail to notice).
func (c *Ctx) unsatLIA(cs []*lcon) bool {
	vars := map[*T]bool{}
	var w []*lcon
	for _, x := range cs {
		for t := range x.m {
			vars[t] = true
		}
		w = append(w, x)
	}
	for t := range vars {
		lo, hi := c.Range(t)
		w = append(w, &lcon{m: map[*T]int64{t: 1}, k: -int64(lo)}, &lcon{m: map[*T]int64{t: -1}, k: int64(hi)})
	}
	big := func(v int64) bool { return v > 1<<61 || v < -(1<<61) }
	for {
		for _, x := range w {
			if len(x.m) == 0 && x.k < 0 {
				return true
			}
		}
		// pick the variable with the fewest products
		var best *T
		bc := 1 << 30
		cnt := map[*T][2]int{}
		for _, x := range w {
			for t, k := range x.m {
				n := cnt[t]
				if k > 0 {
					n[0]++
				} else {
					n[1]++
				}
				cnt[t] = n
			}
		}
		for t, n := range cnt {
			if p := n[0] * n[1]; p < bc || p == bc && best != nil && t.id < best.id {
				best, bc = t, p
			}
		}
		if best == nil {
			return false
		}
		var pos, neg, rest []*lcon
		for _, x := range w {
			switch k := x.m[best]; {
			case k > 0:
				pos = append(pos, x)
			case k < 0:
				neg = append(neg, x)
			default:
				rest = append(rest, x)
			}
		}
		if len(rest)+len(pos)*len(neg) > 600 {
			return false
		}
		for _, p := range pos {
			for _, n := range neg {
				a, b := p.m[best], -n.m[best]
				g := gcd64(a, b)
				fp, fn := b/g, a/g
				if fp > 1<<20 || fn > 1<<20 || big(p.k*fp) || big(n.k*fn) || p.k > 1<<40 && fp > 1<<20 {
					continue // dropping a consequence is sound
				}
				ok := true
				r := &lcon{m: map[*T]int64{}, k: p.k*fp + n.k*fn}
				for t, k := range p.m {
					if k > 1<<36 || k < -(1<<36) {
						ok = false
					}
					r.m[t] += k * fp
				}
				for t, k := range n.m {
					if k > 1<<36 || k < -(1<<36) {
						ok = false
					}
					r.m[t] += k * fn
				}
				if !ok || big(r.k) {
					continue
				}
				for t, k := range r.m {
					if k == 0 {
						delete(r.m, t)
					}
				}
				r.norm()
				if len(r.m) == 0 {
					if r.k < 0 {
						return true
					}
					continue
				}
				rest = append(rest, r)
			}
		}
		w = rest
	}
}

// lits turns a condition (or its negation) into constraints; several results are a disjunction.
func (c *Ctx) liaOf(t *T, neg bool, hyp []*lcon) ([][]*lcon, bool) {
	if t.op == OXor && t.w == 1 && t.a[1].isCV(1) {
		return c.liaOf(t.a[0], !neg, hyp)
	}
	switch t.op {
	case OAnd:
		if neg || t.w != 1 {
			return nil, false
		}
		a, ok := c.liaOf(t.a[0], false, hyp)
		b, ok2 := c.liaOf(t.a[1], false, hyp)
		if ok && ok2 && len(a) == 1 && len(b) == 1 {
			return [][]*lcon{append(append([]*lcon(nil), a[0]...), b[0]...)}, true
		}
		if ok && len(a) == 1 {
			return a, true
		}
		if ok2 && len(b) == 1 {
			return b, true
		}
		return nil, false
	case OUlt, OSlt, OEq:
		x, ok := c.intLin(t.a[0])
		y, ok2 := c.intLin(t.a[1])
		if !ok || !ok2 {
			return nil, false
		}
		if t.op == OUlt {
			for _, z := range []*lcon{x, y} {
				// negative values would wrap
				n := (&lcon{m: map[*T]int64{}, k: -1}).addMul(z, -1) // z <= -1
				if !c.unsatLIA(append(append([]*lcon(nil), hyp...), n)) {
					return nil, false
				}
			}
		}
		d := y.addMul(x, -1) // y-x
		if t.op == OEq {
			e := x.addMul(y, -1)
			if !neg {
				return [][]*lcon{{d, e}}, true
			}
			d.k--
			e.k--
			return [][]*lcon{{d}, {e}}, true
		}
		if neg { // x >= y
			return [][]*lcon{{x.addMul(y, -1)}}, true
		}
		d.k--
		return [][]*lcon{{d}}, true
	}
	return nil, false
}

// liaProves: the path condition implies g, shown by linear reasoning alone.
func (c *Ctx) liaProves(pc []*T, g *T) bool {
	if !mentionsIdx(g) {
		return false
	}
	var hyp []*lcon
	var dis [][][]*lcon
	for _, p := range pc {
		if !mentionsIdx(p) {
			continue
		}
		if ds, ok := c.liaOf(p, false, hyp); ok {
			if len(ds) == 1 {
				hyp = append(hyp, ds[0]...)
			} else if len(dis) < 3 {
				dis = append(dis, ds)
			}
		}
	}
	goal, ok := c.liaOf(g, true, hyp)
	if !ok {
		return false
	}
	var rec func(h []*lcon, d [][][]*lcon) bool
	rec = func(h []*lcon, d [][][]*lcon) bool {
		if c.unsatLIA(h) {
			return true
		}
		if len(d) == 0 {
			return false
		}
		for _, alt := range d[0] {
			if !rec(append(append([]*lcon(nil), h...), alt...), d[1:]) {
				return false
			}
		}
		return true
	}
	for _, gg := range goal {
		if !rec(append(append([]*lcon(nil), hyp...), gg...), dis) {
			return false
		}
	}
	return true
}

func mentionsIdx(t *T) bool {
	switch t.op {
	case OXor, OAnd, OUlt, OSlt, OEq:
		if t.w == 1 {
			for _, a := range t.a {
				if a.idx && !a.isC() || a.w == 1 && mentionsIdx(a) {
					return true
				}
				if (t.op == OUlt || t.op == OSlt || t.op == OEq) && a.w == 64 && !a.isC() {
					return true
				}
			}
		}
	}
	return false
}

// witness looks for an assignment satisfying all conditions (small and extreme index values).
func (c *Ctx) witness(cs []*T) bool {
	var vs []*T
	seen := map[*T]bool{}
	for _, t := range cs {
		for _, v := range reach(t) {
			if v.op == OVar && v.idx && !seen[v] {
				seen[v] = true
				vs = append(vs, v)
			}
		}
	}
	if len(vs) > 4 {
		return false
	}
	try := func(e *Env) bool {
		for _, t := range cs {
			if e.Eval(c, t) != 1 {
				return false
			}
		}
		return true
	}
	n := 1
	for range vs {
		n *= 5
	}
	for k := 0; k < n; k++ {
		e := RandEnv(uint64(k))
		q := k
		for _, v := range vs {
			d := q % 5
			q /= 5
			x := v.lo + uint64(d)
			switch d {
			case 3:
				x = v.hi
			case 4:
				x = v.lo + (v.hi-v.lo)/2
			}
			if x > v.hi {
				x = v.hi
			}
			e.val[v] = x
		}
		if try(e) {
			return true
		}
	}
	return false
}
