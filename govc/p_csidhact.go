package main

// C12: CSIDH validation and group action over the contracts of C09 (fields, integers) and C10 (curves).
// Field elements and integers are tokens that carry what is known about them: an integer is a power of two times
// primes of the list, each present under a condition; a point lies on a curve or its twist and its order divides
// such a product; a curve is the starting curve acted upon by so many steps of each degree and direction.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C12"] = propC12 }

const nPr = 74

// nprod: 2^two * prod_i primes[i]^(number of conditions in ps[i] that hold).
type nprod struct {
	two int
	ps  [nPr][]*T
}

func (n *nprod) clone() *nprod {
	q := &nprod{two: n.two}
	for i := range n.ps {
		q.ps[i] = append([]*T(nil), n.ps[i]...)
	}
	return q
}

func (n *nprod) mul(o *nprod) *nprod {
	q := n.clone()
	q.two += o.two
	for i := range o.ps {
		for _, c := range o.ps[i] {
			if !c.isCV(0) {
				q.ps[i] = append(q.ps[i], c)
			}
		}
	}
	return q
}

func (n *nprod) bits() int {
	v := pow2(uint(n.two))
	for i, l := range n.ps {
		for range l {
			v.Mul(v, big.NewInt(csidhPrimes[i]))
		}
	}
	return v.BitLen()
}

// exps: the exponents when all conditions are constant.
func (n *nprod) exps() (e [nPr + 1]int, ok bool) {
	e[nPr] = n.two
	for i, l := range n.ps {
		for _, c := range l {
			if !c.isC() {
				return e, false
			}
			e[i] += int(c.k)
		}
	}
	return e, true
}

// cset: 2^two * the primes whose condition holds (nil: absent).
type cset struct {
	two int
	c   [nPr]*T
}

type csCurve struct {
	base string
	cnt  [2][nPr]*T // 16 bits: steps of this degree with points of the curve, with points of its twist
	key  string
}

func (v *csCurve) setKey() *csCurve {
	var b strings.Builder
	b.WriteString(v.base)
	for s := range v.cnt {
		for _, t := range v.cnt[s] {
			fmt.Fprintf(&b, ",%d", t.id)
		}
	}
	v.key = b.String()
	return v
}

type csTok struct {
	kind byte // a, c: coefficients; i: inverse of c; n: integer; r: random element; y: r^3+A r^2+r; X, Z; ?
	n    *nprod
	cv   *csCurve
	rep  int // projective representative of the coefficients; 0: c is one
	pt   int
	r    int
}

type actPt struct {
	cv     *csCurve
	dir    int   // 0: on the curve, 1: on its twist, -1: unknown
	ord    *cset // the order divides this; nil: unknown
	parent int   // this is [mult] of the parent
	mult   *nprod
	root   int // this is [tot] of the root
	tot    *nprod
}

// actGhost: facts that hold on a path.
type actGhost struct {
	zero map[int]bool // points known to be O or not
	ord  map[int]*cset
	dir  map[string]int
	tot  map[string]bool // root|exponents: multiples known to be O or not
	gt   []*nprod        // integers known to exceed 4 sqrt(p)
	acc  string          // Validate: result of the order computation, by curve
	m    *csAct
}

func (g *actGhost) CloneGhost() interface{} {
	q := &actGhost{zero: map[int]bool{}, ord: map[int]*cset{}, dir: map[string]int{}, tot: map[string]bool{}, acc: g.acc, m: g.m}
	for k, v := range g.zero {
		q.zero[k] = v
	}
	for k, v := range g.ord {
		q.ord[k] = v
	}
	for k, v := range g.dir {
		q.dir[k] = v
	}
	for k, v := range g.tot {
		q.tot[k] = v
	}
	q.gt = append(q.gt, g.gt...)
	return q
}

func (g *actGhost) order(id int) *cset {
	if o, ok := g.ord[id]; ok {
		return o
	}
	return g.m.pts[id].ord
}

func (g *actGhost) Merge(l *T, o interface{}) interface{} {
	h := o.(*actGhost)
	q := &actGhost{zero: map[int]bool{}, ord: map[int]*cset{}, dir: map[string]int{}, tot: map[string]bool{}, m: g.m}
	for k, v := range g.zero {
		if w, ok := h.zero[k]; ok && v == w {
			q.zero[k] = v
		}
	}
	for k, v := range g.dir {
		if w, ok := h.dir[k]; ok && v == w {
			q.dir[k] = v
		}
	}
	for k, v := range g.tot {
		if w, ok := h.tot[k]; ok && v == w {
			q.tot[k] = v
		}
	}
	if g.acc == h.acc {
		q.acc = g.acc
	}
	ids := map[int]bool{}
	for k := range g.ord {
		ids[k] = true
	}
	for k := range h.ord {
		ids[k] = true
	}
	for k := range ids {
		if u := g.m.joinSet(l, g.order(k), h.order(k)); u != nil {
			q.ord[k] = u
		}
	}
	return q
}

type tokAt struct{ g, i int }

type csAct struct {
	x      *Exec
	toks   []*csTok
	words  [][]*T
	idx    map[*T]tokAt
	pts    []*actPt
	reps   int
	memo   map[string]int
	errs   []string
	ok     map[*T]bool // word variables that may be examined directly
	just   map[*T]bool // conditions under which the prime divides the order of the root (established by a contract)
	nodes  map[[2]int]bool
	todo   [][2]int
	cur    [2]int
	one    []uint64
	nrand  int
	failed bool // the random source may fail
}

func (m *csAct) err(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	for _, e := range m.errs {
		if e == s {
			return
		}
	}
	m.errs = append(m.errs, s)
}

func newCsAct(x *Exec) *csAct {
	m := &csAct{x: x, idx: map[*T]tokAt{}, memo: map[string]int{}, ok: map[*T]bool{}, just: map[*T]bool{}, nodes: map[[2]int]bool{}, pts: []*actPt{nil}}
	o := new(big.Int).Mod(pow2(512), csidhP)
	for i := 0; i < 8; i++ {
		m.one = append(m.one, new(big.Int).And(new(big.Int).Rsh(o, uint(64*i)), new(big.Int).SetUint64(^uint64(0))).Uint64())
	}
	m.hooks()
	return m
}

func (m *csAct) gh(st *State) *actGhost {
	g, _ := st.G("act").(*actGhost)
	if g == nil {
		g = &actGhost{zero: map[int]bool{}, ord: map[int]*cset{}, dir: map[string]int{}, tot: map[string]bool{}, m: m}
		st.SetG("act", g)
	}
	return g
}

// ---- tokens in memory

func (m *csAct) tok(t *csTok) int {
	g := len(m.toks)
	m.toks = append(m.toks, t)
	var ws []*T
	for i := 0; i < 8; i++ {
		w := m.x.C.Fresh(64, fmt.Sprintf("%c%d", t.kind, g))
		m.idx[w] = tokAt{g, i}
		ws = append(ws, w)
	}
	m.words = append(m.words, ws)
	return g
}

func (m *csAct) addr(p Value) (*Obj, int64) {
	q, ok := p.(Ptr)
	if !ok || q.obj == nil || !q.off.isC() {
		unsup("element at a symbolic address")
	}
	return q.obj, int64(q.off.k)
}

func (m *csAct) put(st *State, p Value, g int) {
	o, off := m.addr(p)
	for i, w := range m.words[g] {
		m.x.storeAt(st, o, off+int64(8*i), 8, w)
	}
}

func (m *csAct) rd(st *State, p Value) []*T {
	o, off := m.addr(p)
	var ws []*T
	for i := 0; i < 8; i++ {
		ws = append(ws, m.x.loadBits(st, o, off+int64(8*i), 8))
	}
	return ws
}

// get: the token at p, or nil.
func (m *csAct) get(st *State, p Value) *csTok { return m.ofWords(m.rd(st, p)) }

func (m *csAct) ofWords(ws []*T) *csTok {
	a, ok := m.idx[ws[0]]
	if !ok {
		return nil
	}
	for i, w := range ws {
		if b, ok := m.idx[w]; !ok || b.g != a.g || b.i != i {
			return nil
		}
	}
	return m.toks[a.g]
}

func (m *csAct) isOne(ws []*T) bool {
	for i, w := range ws {
		if !w.isCV(m.one[i]) {
			return false
		}
	}
	return true
}

func conWords(ws []*T) (*big.Int, bool) {
	v := new(big.Int)
	for i := len(ws) - 1; i >= 0; i-- {
		if !ws[i].isC() {
			return nil, false
		}
		v.Lsh(v, 64)
		v.Or(v, bu(ws[i].k))
	}
	return v, true
}

func (m *csAct) factor(v *big.Int) *nprod {
	if v.Sign() == 0 {
		unsup("multiplication by 0")
	}
	n := &nprod{}
	v = new(big.Int).Set(v)
	for v.Bit(0) == 0 {
		v.Rsh(v, 1)
		n.two++
	}
	q, r := new(big.Int), new(big.Int)
	for i, l := range csidhPrimes {
		for {
			if q.QuoRem(v, big.NewInt(l), r); r.Sign() != 0 {
				break
			}
			v.Set(q)
			n.ps[i] = append(n.ps[i], m.x.C.Bool(true))
		}
	}
	if v.Cmp(big1) != 0 {
		unsup("a multiplier that is not a product of the primes")
	}
	return n
}

func (m *csAct) integer(st *State, p Value) *nprod {
	ws := m.rd(st, p)
	if v, ok := conWords(ws); ok {
		return m.factor(v)
	}
	t := m.ofWords(ws)
	if t == nil || t.kind != 'n' {
		unsup("an integer that is not a known product")
	}
	return t.n
}

func (m *csAct) at(p Value, off int64) Ptr {
	q := p.(Ptr)
	return Ptr{q.obj, m.x.C.Add(q.off, m.x.C.I(off))}
}

// curve reads a pair of coefficients.
func (m *csAct) curve(st *State, p Value, what string) (*csCurve, int) {
	a := m.get(st, p)
	if a == nil || a.kind != 'a' {
		unsup("%s: a coefficient that is not one of a known curve", what)
	}
	rep := 0
	if cw := m.rd(st, m.at(p, 64)); !m.isOne(cw) {
		c := m.ofWords(cw)
		if c == nil || c.kind != 'c' {
			unsup("%s: a coefficient that is not one of a known curve", what)
		}
		rep = c.rep
	}
	if rep != a.rep {
		m.err("%s is given coefficients that do not belong together", what)
	}
	return a.cv, a.rep
}

func (m *csAct) newPt(p *actPt) int {
	m.pts = append(m.pts, p)
	return len(m.pts) - 1
}

func (m *csAct) putPt(st *State, p Value, id int) {
	m.put(st, p, m.tok(&csTok{kind: 'X', pt: id}))
	m.put(st, m.at(p, 64), m.tok(&csTok{kind: 'Z', pt: id}))
}

// point reads a point that is to be used on the curve cv.
func (m *csAct) point(st *State, p Value, cv *csCurve, what string) int {
	X, zw := m.get(st, p), m.rd(st, m.at(p, 64))
	Z := m.ofWords(zw)
	switch {
	case X != nil && X.kind == 'X' && Z != nil && Z.kind == 'Z':
		if X.pt != Z.pt {
			m.err("%s is given coordinates of different points", what)
		}
		if m.pts[X.pt].cv.key != cv.key {
			m.err("%s is given a point of another curve", what)
		}
		return X.pt
	case X != nil && X.kind == 'r' && m.isOne(zw):
		d, ok := m.gh(st).dir[fmt.Sprintf("%s|%d", cv.key, X.r)]
		if !ok {
			d = -1
		}
		k := fmt.Sprintf("rnd|%s|%d|%d", cv.key, X.r, d)
		id, ok := m.memo[k]
		if !ok {
			full := &cset{two: 2}
			for i := range full.c {
				full.c[i] = m.x.C.Bool(true)
			}
			id = m.newPt(&actPt{cv: cv, dir: d, ord: full, tot: &nprod{}})
			m.pts[id].root = id
			m.memo[k] = id
		}
		return id
	}
	unsup("%s: a point that is not a known one", what)
	return 0
}

// ---- conditions

func (m *csAct) or0(a *T) *T {
	if a == nil {
		return m.x.C.Bool(false)
	}
	return a
}

func (m *csAct) joinSet(l *T, a, b *cset) *cset {
	if a == nil || b == nil {
		return nil
	}
	r := &cset{two: a.two}
	if b.two > r.two {
		r.two = b.two
	}
	for i := range r.c {
		r.c[i] = m.x.C.Ite(l, m.or0(a.c[i]), m.or0(b.c[i]))
	}
	return r
}

func (m *csAct) joinProd(l *T, a, b *nprod) *nprod {
	if a.two != b.two {
		unsup("merge of integers with different powers of two")
	}
	c := m.x.C
	r := &nprod{two: a.two}
	for i := range r.ps {
		x, y := a.ps[i], b.ps[i]
		for k := 0; k < len(x) || k < len(y); k++ {
			u, v := c.Bool(false), c.Bool(false)
			if k < len(x) {
				u = x[k]
			}
			if k < len(y) {
				v = y[k]
			}
			if w := c.Ite(l, u, v); !w.isCV(0) {
				r.ps[i] = append(r.ps[i], w)
			}
		}
	}
	return r
}

func (m *csAct) joinCurve(l *T, a, b *csCurve) *csCurve {
	if a.key == b.key {
		return a
	}
	if a.base != b.base {
		unsup("merge of unrelated curves")
	}
	r := &csCurve{base: a.base}
	for s := range r.cnt {
		for i := range r.cnt[s] {
			r.cnt[s][i] = m.x.C.Ite(l, a.cnt[s][i], b.cnt[s][i])
		}
	}
	return r.setKey()
}

func (m *csAct) memoRep(k string) int {
	if v, ok := m.memo[k]; ok {
		return v
	}
	m.reps++
	m.memo[k] = m.reps
	return m.reps
}

// joinWords merges two tokens (or a token and a constant) that a and b hold at the same place.
func (m *csAct) joinWords(l *T, a, b, d *State, id int, off int64) int64 {
	ca, _ := a.heap[id].cells[off].v.(*T)
	cb, _ := b.heap[id].cells[off].v.(*T)
	if ca == nil || cb == nil {
		return 0
	}
	ta, okA := m.idx[ca]
	tb, okB := m.idx[cb]
	if !okA && !okB {
		return 0
	}
	k := ta.i
	if !okA {
		k = tb.i
	}
	base := off - int64(8*k)
	if base < 0 || base+64 > int64(len(d.heap[id].cells)) {
		return 0
	}
	rd := func(s *State) (ws []*T) {
		for i := int64(0); i < 8; i++ {
			c := s.heap[id].cells[base+8*i]
			t, ok := c.v.(*T)
			if c.n != 8 || !ok {
				unsup("merge of an element with other data")
			}
			ws = append(ws, t)
		}
		return
	}
	wa, wb := rd(a), rd(b)
	A, B := m.ofWords(wa), m.ofWords(wb)
	kind := byte('?')
	switch {
	case A != nil && B != nil && A.kind == B.kind:
		kind = A.kind
	case A != nil && B == nil:
		kind = A.kind
	case A == nil && B != nil:
		kind = B.kind
	}
	t := &csTok{kind: kind}
	mk := fmt.Sprintf("%d|", l.id)
	switch kind {
	case 'n':
		in := func(t *csTok, ws []*T) *nprod {
			if t != nil {
				return t.n
			}
			if v, ok := conWords(ws); ok && v.Sign() > 0 {
				return m.factor(v)
			}
			return nil
		}
		if u, w := in(A, wa), in(B, wb); u != nil && w != nil {
			t.n = m.joinProd(l, u, w)
		} else { // left over from an earlier iteration
			t.kind = '?'
		}
	case 'c', 'i':
		rep := func(t *csTok, ws []*T) int {
			if t != nil {
				return t.rep
			}
			if !m.isOne(ws) {
				unsup("merge of a coefficient with another element")
			}
			return 0
		}
		t.rep = m.memoRep(mk + fmt.Sprintf("rep|%d|%d", rep(A, wa), rep(B, wb)))
	case 'a':
		if A == nil || B == nil {
			t.kind = '?'
			break
		}
		t.cv = m.joinCurve(l, A.cv, B.cv)
		if A.rep != B.rep {
			t.rep = m.memoRep(mk + fmt.Sprintf("rep|%d|%d", A.rep, B.rep))
		} else {
			t.rep = A.rep
		}
	case 'X', 'Z':
		if A == nil || B == nil {
			t.kind = '?'
			break
		}
		k := mk + fmt.Sprintf("pt|%d|%d", A.pt, B.pt)
		id, ok := m.memo[k]
		if !ok {
			p, q := m.pts[A.pt], m.pts[B.pt]
			n := &actPt{cv: m.joinCurve(l, p.cv, q.cv), dir: p.dir, ord: m.joinSet(l, m.gh(a).order(A.pt), m.gh(b).order(B.pt)), tot: &nprod{}}
			if q.dir != p.dir {
				n.dir = -1
			}
			id = m.newPt(n)
			n.root = id
			m.memo[k] = id
		}
		t.pt = id
	default:
		t.kind = '?'
	}
	ws := m.words[m.tok(t)]
	for i := int64(0); i < 8; i++ {
		d.heap[id].cells[base+8*i] = Cell{ws[i], 8}
	}
	return base + 64 - off
}

// prove decides a condition, without the path condition where that suffices.
func (m *csAct) prove(st *State, c *T) bool {
	if c.isC() {
		return c.k == 1
	}
	if st.pcset[c] {
		return true
	}
	if sat, ok := m.x.C.enumSat(nil, m.x.C.Not(c)); ok && !sat {
		return true
	}
	ns := m.x.nosolver
	m.x.nosolver = false
	defer func() { m.x.nosolver = ns }()
	// only the part of the path condition that shares variables with c
	vs := map[*T]bool{}
	for _, t := range reach(c) {
		if t.op == OVar {
			vs[t] = true
		}
	}
	q := &State{pcset: map[*T]bool{}}
	left := append([]*T(nil), st.pc...)
	for again := true; again; {
		again = false
		var rest []*T
		for _, p := range left {
			hit := false
			for _, t := range reach(p) {
				hit = hit || t.op == OVar && vs[t]
			}
			if !hit {
				rest = append(rest, p)
				continue
			}
			q.Assume(p)
			again = true
			for _, t := range reach(p) {
				if t.op == OVar {
					vs[t] = true
				}
			}
		}
		left = rest
	}
	return m.x.Prove(q, c)
}

// direct: the path depends on the words of an element in a way that is not a contract's.
func (m *csAct) direct(st *State) bool {
	for _, p := range st.pc {
		for _, t := range reach(p) {
			if _, ok := m.idx[t]; ok && !m.ok[t] {
				return true
			}
		}
	}
	return false
}

func (m *csAct) fail(st *State, f string, a ...interface{}) {
	if m.direct(st) {
		unsup("the words of an element are examined directly; "+f, a...)
	}
	m.err(f, a...)
}

// ---- contracts

func (m *csAct) sig(fn string, nparams int, results ...string) (string, bool) {
	f := m.x.P.Fn(csidhPkg, fn)
	if f == nil || len(f.Params) != nparams || f.Signature.Results().Len() != len(results) {
		return "", false
	}
	for i, r := range results {
		if f.Signature.Results().At(i).Type().String() != r {
			return "", false
		}
	}
	return f.String(), true
}

func (m *csAct) hook(fn string, nparams int, results []string, h Handler) {
	if n, ok := m.sig(fn, nparams, results...); ok {
		m.x.H[n] = h
	}
}

func (m *csAct) hooks() {
	x := m.x
	c := x.C
	m.hook("mul512", 3, nil, func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		k, ok := a[2].(*T)
		if !ok || !k.isC() {
			unsup("integer multiplication by an unknown word")
		}
		n, f := m.integer(st, a[1]).clone(), m.factor(bu(k.k))
		for i := range f.ps {
			if len(f.ps[i]) == 0 {
				continue
			}
			var l []*T
			for _, t := range n.ps[i] {
				if !m.prove(st, c.Not(t)) {
					l = append(l, t)
				}
			}
			n.ps[i] = l
		}
		n = n.mul(f)
		if n.bits() > 512 {
			m.fail(st, "the product of an integer of up to %d bits by %d may exceed 512 bits", m.integer(st, a[1]).bits(), k.k)
		}
		m.put(st, a[0], m.tok(&csTok{kind: 'n', n: n}))
		return []Alt{{st: st}}
	})
	mulPt := func(st *State, dst Value, id int, k *nprod) {
		p := m.pts[id]
		q := &actPt{cv: p.cv, dir: p.dir, parent: id, mult: k, root: p.root, tot: p.tot.mul(k)}
		if o := m.gh(st).order(id); o != nil {
			q.ord = &cset{two: o.two - k.two}
			if q.ord.two < 0 {
				q.ord.two = 0
			}
			for i := range o.c {
				v := m.or0(o.c[i])
				for _, t := range k.ps[i] {
					v = c.And(v, c.Not(t))
				}
				q.ord.c[i] = v
			}
		}
		m.putPt(st, dst, m.newPt(q))
	}
	m.hook("xMul", 4, nil, func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		cv, _ := m.curve(st, a[2], "xMul")
		mulPt(st, a[0], m.point(st, a[1], cv, "xMul"), m.integer(st, a[3]))
		return []Alt{{st: st}}
	})
	m.hook("xDbl", 3, nil, func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		cv, _ := m.curve(st, a[2], "xDbl")
		mulPt(st, a[0], m.point(st, a[1], cv, "xDbl"), &nprod{two: 1})
		return []Alt{{st: st}}
	})
	m.hook("xIso", 4, nil, func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		g := m.gh(st)
		cv, _ := m.curve(st, a[1], "xIso")
		img, ker := m.point(st, a[0], cv, "xIso"), m.point(st, a[2], cv, "xIso (kernel)")
		l, ok := a[3].(*T)
		if !ok || !l.isC() {
			unsup("isogeny of unknown degree")
		}
		ix := -1
		for i, p := range csidhPrimes {
			if uint64(p) == l.k {
				ix = i
			}
		}
		K := m.pts[ker]
		switch z, known := g.zero[ker]; {
		case ix < 0:
			m.fail(st, "isogeny of degree %d, which is not one of the primes", l.k)
			return nil
		case !known || z:
			m.fail(st, "isogeny of degree %d with a kernel point that may be O", l.k)
		case K.dir < 0:
			m.fail(st, "isogeny of degree %d with a kernel point that may be on the curve or on its twist", l.k)
		default:
			o := g.order(ker)
			if o == nil {
				unsup("kernel of unknown order")
			}
			if o.two > 0 {
				m.fail(st, "isogeny of degree %d with a kernel point whose order may be even", l.k)
			}
			for i := range o.c {
				if i != ix && !m.prove(st, c.Not(m.or0(o.c[i]))) {
					m.fail(st, "isogeny of degree %d with a kernel point whose order may be divisible by %d", l.k, csidhPrimes[i])
				}
			}
		}
		if K.dir < 0 {
			unsup("isogeny with a kernel point of unknown direction")
		}
		n := &csCurve{base: cv.base, cnt: cv.cnt}
		n.cnt[K.dir][ix] = c.Add(n.cnt[K.dir][ix], c.Const(16, 1))
		n.setKey()
		p := m.pts[img]
		q := &actPt{cv: n, dir: p.dir, ord: g.order(img), tot: &nprod{}}
		if K.parent == img && q.ord != nil {
			q.ord = m.divides(q.ord, K.mult)
		}
		id := m.newPt(q)
		q.root = id
		m.putPt(st, a[0], id)
		m.reps++
		m.put(st, a[1], m.tok(&csTok{kind: 'a', cv: n, rep: m.reps}))
		m.put(st, m.at(a[1], 64), m.tok(&csTok{kind: 'c', rep: m.reps}))
		return []Alt{{st: st}}
	})
	m.hook("montEval", 3, nil, func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		A, X := m.get(st, a[1]), m.get(st, a[2])
		if A == nil || A.kind != 'a' || X == nil || X.kind != 'r' {
			unsup("montEval on unknown elements")
		}
		if A.rep != 0 {
			m.fail(st, "montEval is given a coefficient that is not normalised")
		}
		m.put(st, a[0], m.tok(&csTok{kind: 'y', cv: A.cv, r: X.r}))
		return []Alt{{st: st}}
	})
	m.hook("modExpRdc512", 3, nil, func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		e, ok := conWords(m.rd(st, a[2]))
		if !ok || e.Cmp(new(big.Int).Sub(csidhP, big.NewInt(2))) != 0 {
			unsup("exponentiation that is not an inversion")
		}
		ws := m.rd(st, a[1])
		if m.isOne(ws) {
			o, off := m.addr(a[0])
			for i := range m.one {
				m.x.storeAt(st, o, off+int64(8*i), 8, c.U64(m.one[i]))
			}
			return []Alt{{st: st}}
		}
		t := m.ofWords(ws)
		if t == nil || t.kind != 'c' {
			unsup("inversion of an element that is not a coefficient")
		}
		m.put(st, a[0], m.tok(&csTok{kind: 'i', rep: t.rep}))
		return []Alt{{st: st}}
	})
	m.hook("mulRdc", 3, nil, func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		u, v := m.rd(st, a[1]), m.rd(st, a[2])
		A, B := m.ofWords(u), m.ofWords(v)
		if A == nil || B != nil && B.kind == 'a' {
			u, v, A, B = v, u, B, A
		}
		switch {
		case A != nil && A.kind == 'a' && m.isOne(v):
			m.put(st, a[0], m.tok(A))
		case A != nil && A.kind == 'a' && B != nil && B.kind == 'i':
			if A.rep != B.rep {
				m.fail(st, "a coefficient is divided by one that does not belong to it")
			}
			m.put(st, a[0], m.tok(&csTok{kind: 'a', cv: A.cv}))
		default:
			unsup("multiplication of unknown elements")
		}
		return []Alt{{st: st}}
	})
	m.hook("fp.isNonQuadRes", 1, []string{"int"}, func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		t := m.get(st, a[0])
		if t == nil || t.kind != 'y' {
			unsup("quadratic residuosity of an unknown element")
		}
		k := fmt.Sprintf("%s|%d", t.cv.key, t.r)
		if d, ok := m.gh(st).dir[k]; ok {
			return []Alt{{st: st, v: c.I(int64(d))}}
		}
		q := c.Fresh(1, "nonres")
		s2 := st.Clone()
		st.Assume(q)
		m.gh(st).dir[k] = 1
		s2.Assume(c.Not(q))
		m.gh(s2).dir[k] = 0
		return []Alt{{st: s2, v: c.I(0)}, {st: st, v: c.I(1)}}
	})
	m.hook("fp.isZero", 1, []string{"bool"}, func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		t := m.get(st, a[0])
		if t == nil || t.kind != 'Z' {
			return nil
		}
		return m.isO(st, t.pt)
	})
	m.hook("isLess", 2, []string{"bool"}, func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		u, v := m.rd(st, a[0]), m.rd(st, a[1])
		A, B := m.ofWords(u), m.ofWords(v)
		var k *big.Int
		var n *nprod
		switch {
		case A != nil && A.kind == 'n':
			n = A.n
			k, _ = conWords(v)
		case B != nil && B.kind == 'n':
			n = B.n
			k, _ = conWords(u)
		}
		if k == nil {
			return nil // word by word
		}
		less := c.Fresh(1, "less")
		s2 := st.Clone()
		st.Assume(less)
		s2.Assume(c.Not(less))
		// n > k, or n >= k
		sq := new(big.Int).Set(k)
		s3 := s2
		if B != nil {
			sq.Add(k, big1)
			s3 = st
		}
		if sq.Mul(sq, sq).Cmp(new(big.Int).Lsh(csidhP, 4)) > 0 {
			m.gh(s3).gt = append(m.gh(s3).gt, n)
		}
		return []Alt{{st: s2, v: c.Bool(false)}, {st: st, v: c.Bool(true)}}
	})
	m.hook("fpRngGen.randFp", 3, nil, func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		s, ok := a[0].(Ptr)
		if !ok || s.obj == nil || !s.off.isC() {
			unsup("randFp on an unknown buffer")
		}
		GT := x.P.Type(csidhPkg, "fpRngGen")
		f := st.Clone()
		for _, q := range []*State{st, f} {
			m.nrand++
			x.havocAt(q, s.obj, int64(s.off.k), GT, fmt.Sprintf("wbuf%d", m.nrand))
			m.put(q, a[1], m.tok(&csTok{kind: 'r', r: m.nrand}))
		}
		f.SetG("rngfailed", true)
		return []Alt{{st: st}, {st: f, panic: "Can't read random number"}}
	})
}

// divides: the part of o that divides n.
func (m *csAct) divides(o *cset, n *nprod) *cset {
	c := m.x.C
	r := &cset{two: o.two}
	if n.two < r.two {
		r.two = n.two
	}
	for i := range r.c {
		v := c.Bool(false)
		for _, t := range n.ps[i] {
			v = c.Or(v, t)
		}
		r.c[i] = c.And(m.or0(o.c[i]), v)
	}
	return r
}

func expKey(root int, e [nPr + 1]int) string { return fmt.Sprint(root, e) }

// known: is [e]root known to be O?
func (g *actGhost) known(root int, e [nPr + 1]int) (z, ok bool) {
	for k, v := range g.tot {
		var r int
		var f [nPr + 1]int
		s := strings.NewReplacer("[", "", "]", "").Replace(k)
		fs := strings.Fields(s)
		fmt.Sscan(fs[0], &r)
		for i := range f {
			fmt.Sscan(fs[1+i], &f[i])
		}
		if r != root {
			continue
		}
		le, ge := true, true // f | e, e | f
		for i := range f {
			le = le && f[i] <= e[i]
			ge = ge && f[i] >= e[i]
		}
		if v && le {
			return true, true
		}
		if !v && ge {
			return false, true
		}
	}
	return false, false
}

func (m *csAct) isO(st *State, id int) []Alt {
	c := m.x.C
	g := m.gh(st)
	if z, ok := g.zero[id]; ok {
		return []Alt{{st: st, v: c.Bool(z)}}
	}
	p := m.pts[id]
	e, con := p.tot.exps()
	if con {
		if z, ok := g.known(p.root, e); ok {
			g.zero[id] = z
			return []Alt{{st: st, v: c.Bool(z)}}
		}
	}
	z := c.Fresh(1, "isO")
	s2 := st.Clone()
	st.Assume(z)
	g.zero[id] = true
	mult := &nprod{}
	g.ord[id] = &cset{}
	for q := id; m.pts[q].parent != 0; {
		mult = mult.mul(m.pts[q].mult)
		q = m.pts[q].parent
		if o := g.order(q); o != nil {
			g.ord[q] = m.divides(o, mult)
		}
	}
	s2.Assume(c.Not(z))
	g2 := m.gh(s2)
	g2.zero[id] = false
	if con {
		g.tot[expKey(p.root, e)] = true
		g2.tot[expKey(p.root, e)] = false
	}
	return []Alt{{st: s2, v: c.Bool(false)}, {st: st, v: c.Bool(true)}}
}

func (m *csAct) newCurve(base string) *csCurve {
	v := &csCurve{base: base}
	for s := range v.cnt {
		for i := range v.cnt[s] {
			v.cnt[s][i] = m.x.C.Const(16, 0)
		}
	}
	return v.setKey()
}

// randomLoop: the loop draws random elements, so its number of iterations is not known.
func (m *csAct) randomLoop(fr *Frame, h *ssa.BasicBlock) bool {
	var draws func(in ssa.Instruction, d int) bool
	draws = func(in ssa.Instruction, d int) bool {
		cl, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		f, ok := cl.Call.Value.(*ssa.Function)
		if !ok {
			return false
		}
		if f.Name() == "randFp" {
			return true
		}
		if d > 3 || f.Pkg == nil || f.Pkg != fr.fn.Pkg {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if draws(in, d+1) {
					return true
				}
			}
		}
		return false
	}
	for b := range fr.info.headers[h] {
		for _, in := range b.Instrs {
			if draws(in, 0) {
				return true
			}
		}
	}
	return false
}

func (m *csAct) res(r *Res) *Res {
	if len(m.errs) > 0 {
		sort.Strings(m.errs)
		z := refuted("%s", m.errs[0])
		return &z
	}
	return r
}

// ---- the group action

type actRun struct {
	*csAct
	pub, prv *Obj
	eOff     int64
	E        [2][nPr]*T
	e        [2][nPr]*T // at the loop head
	d        [2]*T
	nbase    int
	cv       *csCurve
	seen     bool
	nback    int
}

func (m *actRun) exps() {
	c := m.x.C
	for i := 0; i < nPr; i++ {
		b := c.Var(8, fmt.Sprintf("prv.e[%d]", i/2))
		n := c.AshrK(b, 4)
		if i%2 == 1 {
			n = c.AshrK(c.ShlK(b, 4), 4)
		}
		z := c.Const(8, 0)
		m.E[0][i] = c.Ite(c.Slt(z, n), n, z)
		m.E[1][i] = c.Ite(c.Slt(n, z), c.Neg(n), z)
	}
}

// roles finds the variables of the loop by their types.
func (m *actRun) roles(st *State, h *ssa.BasicBlock) map[string]Ptr {
	r := map[string]Ptr{}
	fpT := m.x.P.Type(csidhPkg, "fp")
	for fi, fr := range st.frames {
		body := fr.info.headers[h]
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				used := fi < len(st.frames)-1
				for _, u := range *al.Referrers() {
					used = used || body[u.Block()] && !body[b]
				}
				if !used {
					continue
				}
				t := al.Type().Underlying().(*types.Pointer).Elem()
				nm := ""
				switch u := t.Underlying().(type) {
				case *types.Array:
					switch e := u.Elem().Underlying().(type) {
					case *types.Array:
						if u.Len() == 2 && types.Identical(u.Elem(), fpT) {
							nm = "k"
						} else if b, ok := e.Elem().Underlying().(*types.Basic); ok && u.Len() == 2 && e.Len() == nPr && b.Kind() == types.Uint8 {
							nm = "e"
						}
					case *types.Basic:
						if u.Len() == 2 && e.Kind() == types.Bool {
							nm = "done"
						}
					}
				case *types.Struct:
					if types.Identical(t, m.x.P.Type(csidhPkg, "coeff")) {
						nm = "A"
					}
				}
				if nm == "" {
					continue
				}
				p, ok := fr.regs[fr.info.idx[al]].(Ptr)
				if !ok || p.obj == nil {
					continue
				}
				if _, dup := r[nm]; dup {
					unsup("two variables of the type of %s", nm)
				}
				r[nm] = p
			}
		}
	}
	for _, nm := range []string{"k", "e", "done", "A"} {
		if _, ok := r[nm]; !ok {
			unsup("the loop has no variable of the type of %s", nm)
		}
	}
	return r
}

func (m *actRun) boolAt(st *State, p Ptr) *T {
	t, ok := m.x.load(st, p, types.Typ[types.Bool]).(*T)
	if !ok {
		unsup("flag of unknown form")
	}
	if t.w != 1 {
		t = m.x.C.Extract(t, 0, 1)
	}
	return t
}

// invariant of the loop over random points.
func (m *actRun) inv(st *State, fr *Frame, h *ssa.BasicBlock, back bool) *State {
	x, c := m.x, m.x.C
	x.checkTime()
	ro := m.roles(st, h)
	if back {
		m.nback++
	}
	A := m.get(st, ro["A"])
	if A == nil || A.kind != 'a' {
		unsup("the curve coefficient at the loop head is not one of a known curve")
	}
	if A.rep != 0 || !m.isOne(m.rd(st, m.at(ro["A"], 64))) {
		m.fail(st, "the curve coefficient is not normalised at the head of the loop")
		return nil
	}
	if A.cv.base != m.cv.base {
		unsup("unrelated curve at the loop head")
	}
	when := "on entry to the loop"
	if back {
		when = "after a pass of the loop"
	}
	for s := 0; s < 2; s++ {
		k := m.integer(st, m.at(ro["k"], int64(64*s)))
		if k.two != 2 {
			m.fail(st, "k[%d] has the factor 2^%d instead of 4 %s", s, k.two, when)
		}
		d := m.boolAt(st, m.at(ro["done"], int64(s)))
		for i := 0; i < nPr; i++ {
			e, ok := x.load(st, m.at(ro["e"], int64(s*nPr+i)), types.Typ[types.Uint8]).(*T)
			if !ok {
				unsup("exponent of unknown form")
			}
			if back && e == m.e[s][i] && len(k.ps[i]) == 1 && k.ps[i][0] == c.Eq(e, c.Const(8, 0)) && A.cv.cnt[s][i] == c.Sub(c.Zext(m.E[s][i], 16), c.Zext(m.e[s][i], 16)) && d == m.d[s] {
				continue
			}
			if !m.prove(st, c.Eq(c.Add(A.cv.cnt[s][i], c.Zext(e, 16)), c.Zext(m.E[s][i], 16))) {
				m.fail(st, "%s: the steps of degree %d taken with points of %s and those still to take are not the exponent of the key", when, csidhPrimes[i], [2]string{"the curve", "the twist"}[s])
			}
			z := c.Eq(e, c.Const(8, 0))
			has := c.Bool(false)
			if n := len(k.ps[i]); n > 0 {
				has = k.ps[i][0]
				if n > 1 {
					// at most one of them
					for _, t := range k.ps[i][1:] {
						if !m.prove(st, c.Not(c.And(has, t))) {
							m.fail(st, "%s: k[%d] may contain %d twice", when, s, csidhPrimes[i])
						}
						has = c.Or(has, t)
					}
				}
			}
			if !m.prove(st, c.Not(c.Xor(has, z))) {
				m.fail(st, "%s: k[%d] does not contain %d exactly if no step of this degree is left", when, s, csidhPrimes[i])
			}
			if !m.prove(st, c.Or(c.Not(d), z)) {
				m.fail(st, "%s: done[%d] is set with steps of degree %d left", when, s, csidhPrimes[i])
			}
			if len(m.errs) > 0 {
				return nil
			}
		}
	}
	if back {
		if !m.seen {
			unsup("loop entered at another place")
		}
		return nil
	}
	if m.seen {
		return nil
	}
	m.seen = true
	// any state that satisfies the invariant
	keep := map[int]bool{m.pub.id: true, m.prv.id: true}
	for _, p := range ro {
		keep[p.obj.id] = true
	}
	for id := m.nbase; id < len(st.heap); id++ {
		q := st.heap[id]
		if q == nil || keep[id] {
			continue
		}
		n := &OState{owner: st, cells: append([]Cell(nil), q.cells...)}
		for i := range n.cells {
			if n.cells[i].n == 0 {
				continue
			}
			switch v := n.cells[i].v.(type) {
			case *T:
				n.cells[i].v = c.Fresh(v.w, "loop")
			default:
				n.cells[i].v = poison{}
			}
		}
		st.heap[id] = n
	}
	x.havocAt(st, m.prv, 0, x.P.Type(csidhPkg, "fpRngGen"), "wbuf")
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		i := fr.info.idx[ph]
		if t, ok := fr.regs[i].(*T); ok {
			fr.regs[i] = c.Fresh(t.w, "phi")
		} else {
			fr.regs[i] = poison{}
		}
	}
	st.pc, st.pcset = nil, map[*T]bool{}
	st.SetG("act", nil)
	delete(st.ghost, "act")
	cv := &csCurve{base: m.cv.base}
	for s := 0; s < 2; s++ {
		k := &nprod{two: 2}
		all := c.Bool(true)
		m.d[s] = c.Var(1, fmt.Sprintf("done%d", s))
		for i := 0; i < nPr; i++ {
			e := c.Var(8, fmt.Sprintf("e%d.%d", s, i))
			m.e[s][i] = e
			x.storeAt(st, ro["e"].obj, int64(ro["e"].off.k)+int64(s*nPr+i), 1, e)
			z := c.Eq(e, c.Const(8, 0))
			k.ps[i] = []*T{z}
			all = c.And(all, z)
			cv.cnt[s][i] = c.Sub(c.Zext(m.E[s][i], 16), c.Zext(e, 16))
		}
		m.put(st, m.at(ro["k"], int64(64*s)), m.tok(&csTok{kind: 'n', n: k}))
		x.storeAt(st, ro["done"].obj, int64(ro["done"].off.k)+int64(s), 1, m.d[s])
		st.Assume(c.Or(c.Not(m.d[s]), all))
	}
	m.put(st, ro["A"], m.tok(&csTok{kind: 'a', cv: cv.setKey()}))
	return st
}

func csAction(r *Report) *Res {
	x := newX("amd64")
	defer x.Close()
	defer r.Merge(x)
	c := x.C
	fn := x.P.Fn(csidhPkg, "groupAction")
	if fn == nil {
		z := okd("no such function: its code is checked where it is used")
		return &z
	}
	x.nosolver = true
	m := &actRun{csAct: newCsAct(x)}
	st := x.NewState()
	m.nbase = len(st.heap)
	PT, KT := x.P.Type(csidhPkg, "PublicKey"), x.P.Type(csidhPkg, "PrivateKey")
	m.pub, m.prv = x.NewTyped(st, "pub", PT), x.NewTyped(st, "prv", KT)
	x.havocAt(st, m.pub, 0, PT, "pub")
	x.havocAt(st, m.prv, 0, KT, "prv")
	m.cv = m.newCurve("pub")
	aOff := x.fieldOff(PT, "a")
	m.eOff = x.fieldOff(KT, "e")
	m.put(st, Ptr{m.pub, c.I(aOff)}, m.tok(&csTok{kind: 'a', cv: m.cv}))
	m.exps()
	mc := &mergeCut{x: x, joinWords: m.joinWords, isInv: m.randomLoop, inv: m.inv}
	x.cutAll = mc
	g := x.newRng("rng", false)
	sn := snap(st)
	outs, err := x.Call(st, fn, Ptr{m.pub, c.I(0)}, Ptr{m.prv, c.I(0)}, g.iface())
	if z := m.res(nil); z != nil {
		return z
	}
	if err != nil {
		unsup("%v", err)
	}
	if !m.seen {
		unsup("no loop over random points")
	}
	n := 0
	for _, o := range outs {
		if o.kind != "ret" {
			if o.st.G("rngfailed") != nil {
				continue
			}
			z := refuted("panics: %s", o.msg)
			return &z
		}
		if f := sn.frame(o.st, m.pub, m.prv); f != "" {
			z := refuted("frame: %s", f)
			return &z
		}
		if !sn.same(o.st, m.prv, m.eOff, m.eOff+37) {
			z := refuted("the private key is changed")
			return &z
		}
		A := m.get(o.st, Ptr{m.pub, c.I(aOff)})
		if A == nil || A.kind != 'a' {
			unsup("the result is not a coefficient of a known curve")
		}
		if A.rep != 0 {
			m.fail(o.st, "the result is not normalised")
			return m.res(nil)
		}
		all := c.Bool(true)
		for s := range A.cv.cnt {
			for i := range A.cv.cnt[s] {
				all = c.And(all, c.Eq(A.cv.cnt[s][i], c.Zext(m.E[s][i], 16)))
			}
		}
		if A.cv.base != m.cv.base || !m.prove(o.st, all) {
			for s := range A.cv.cnt {
				for i := range A.cv.cnt[s] {
					if !m.prove(o.st, c.Eq(A.cv.cnt[s][i], c.Zext(m.E[s][i], 16))) {
						m.fail(o.st, "returns with another number of steps of degree %d than the exponent says", csidhPrimes[i])
						return m.res(nil)
					}
				}
			}
		}
		n++
	}
	if n == 0 {
		z := refuted("never returns")
		return &z
	}
	z := okd("%d merged loop states, %d ways round the loop, %d isogenies and other contract uses", mc.n, m.nback, len(m.toks))
	return &z
}

// ---- the order computation

func (m *csAct) full() (e [nPr + 1]int) {
	for i := range e {
		e[i] = 1
	}
	e[nPr] = 2
	return
}

// justified: the primes that may be in n divide the order of the root.
func (m *csAct) justified(st *State, root int, n *nprod) {
	g := m.gh(st)
	if n.two > 0 {
		m.fail(st, "the order collects powers of two")
	}
	for i, l := range n.ps {
		if len(l) > 1 {
			m.fail(st, "the order collects %d twice", csidhPrimes[i])
		}
		for _, t := range l {
			if m.just[t] {
				continue
			}
			e := m.full()
			z1, ok1 := g.known(root, e)
			e[i] = 0
			z0, ok0 := g.known(root, e)
			if !ok1 || !z1 || !ok0 || z0 {
				m.fail(st, "%d is taken for a divisor of the order without [(p+1)/%d]P != O and [p+1]P == O", csidhPrimes[i], csidhPrimes[i])
			}
		}
	}
}

// included: every prime of a is in b.
func included(a, b *nprod) bool {
	for i := range a.ps {
		for _, t := range a.ps[i] {
			ok := t.isCV(0)
			for _, u := range b.ps[i] {
				ok = ok || u == t
			}
			if !ok {
				return false
			}
		}
	}
	return a.two <= b.two
}

const csCofactor = "cofactorMul"

// cofactorHook: the contract of cofactorMul(P, co, l, r, order). P is [4 * all primes outside l..r-1] of a point R;
// order collects primes that divide the order of R. The results are (done, supersingular):
// supersingular: [p+1]R is O and the primes collected exceed 4 sqrt(p); done without it: [p+1]R is not O.
func (m *csAct) cofactorHook() {
	c := m.x.C
	m.hook(csCofactor, 5, []string{"bool", "bool"}, func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		lo, ok1 := a[2].(*T)
		hi, ok2 := a[3].(*T)
		if !ok1 || !ok2 || !lo.isC() || !hi.isC() || lo.k >= hi.k || hi.k > nPr {
			unsup("order computation over an unknown range")
		}
		l, r := int(lo.k), int(hi.k)
		if w := m.cur; w[1] > 0 && r-l >= w[1]-w[0] {
			unsup("the recursion does not get to a smaller range")
		}
		cv, _ := m.curve(st, a[1], csCofactor)
		id := m.point(st, a[0], cv, csCofactor)
		p := m.pts[id]
		want := m.full()
		for i := l; i < r; i++ {
			want[i] = 0
		}
		if e, ok := p.tot.exps(); !ok || e != want {
			m.fail(st, "%s(%d, %d) is given a point that is not [4 times the other primes] of a random one", csCofactor, l, r)
		}
		n := m.integer(st, a[4])
		m.justified(st, p.root, n)
		for i := l; i < r; i++ {
			if len(n.ps[i]) > 0 {
				m.fail(st, "%s(%d, %d) is called with %d collected already", csCofactor, l, r, csidhPrimes[i])
			}
		}
		if !m.nodes[[2]int{l, r}] {
			m.nodes[[2]int{l, r}] = true
			m.todo = append(m.todo, [2]int{l, r})
		}
		m.put(st, a[0], m.tok(&csTok{kind: '?'}))
		m.put(st, m.at(a[0], 64), m.tok(&csTok{kind: '?'}))
		q := n.clone()
		for i := l; i < r; i++ {
			t := c.Fresh(1, "has")
			m.just[t] = true
			q.ps[i] = []*T{t}
		}
		m.put(st, a[4], m.tok(&csTok{kind: 'n', n: q}))
		fullKey := expKey(p.root, m.full())
		z, known := m.gh(st).known(p.root, m.full())
		var alts []Alt
		u, v := c.Fresh(1, "done"), c.Fresh(1, "super")
		for k := 0; k < 4; k++ {
			d, s := k&1 == 1, k&2 == 2
			if s && known && !z || d && !s && known && z {
				continue
			}
			b := st.Clone()
			lit := func(t *T, w bool) {
				if !w {
					t = c.Not(t)
				}
				b.Assume(t)
			}
			lit(u, d)
			lit(v, s)
			g := m.gh(b)
			switch {
			case s:
				g.tot[fullKey] = true
				g.gt = append(g.gt, q)
				g.acc = "supersingular " + cv.key
			case d:
				g.tot[fullKey] = false
				g.acc = "ordinary " + cv.key
			}
			if !d {
				g.acc = ""
			}
			alts = append(alts, Alt{st: b, v: Tuple{c.Bool(d), c.Bool(s)}})
		}
		return alts
	})
}

// cofactorNode verifies cofactorMul for one range against its contract for the smaller ranges.
func cofactorNode(r *Report, l, h int) (todo [][2]int, res *Res) {
	x := newX("amd64")
	defer x.Close()
	defer r.Merge(x)
	c := x.C
	x.nosolver = true
	m := newCsAct(x)
	m.cofactorHook()
	m.cur = [2]int{l, h}
	st := x.NewState()
	cv := m.newCurve("a")
	tot := &nprod{two: 2}
	for i := range tot.ps {
		if i < l || i >= h {
			tot.ps[i] = []*T{c.Bool(true)}
		}
	}
	root := m.newPt(&actPt{cv: cv, dir: -1, tot: &nprod{}})
	m.pts[root].root = root
	id := m.newPt(&actPt{cv: cv, dir: -1, root: root, tot: tot})
	P := Ptr{x.NewTyped(st, "p", x.P.Type(csidhPkg, "point")), c.I(0)}
	m.putPt(st, P, id)
	co := Ptr{x.NewTyped(st, "a", x.P.Type(csidhPkg, "coeff")), c.I(0)}
	m.put(st, co, m.tok(&csTok{kind: 'a', cv: cv}))
	for i := range m.one {
		x.storeAt(st, co.obj, int64(64+8*i), 8, c.U64(m.one[i]))
	}
	in := &nprod{}
	for i := range in.ps {
		if i < l || i >= h {
			t := c.Var(1, fmt.Sprintf("order has %d", csidhPrimes[i]))
			m.just[t] = true
			in.ps[i] = []*T{t}
		}
	}
	ord := Ptr{x.NewTyped(st, "order", x.P.Type(csidhPkg, "fp")), c.I(0)}
	m.put(st, ord, m.tok(&csTok{kind: 'n', n: in}))
	sn := snap(st)
	fn := x.P.MustFn(csidhPkg, csCofactor)
	outs, err := x.Call(st, fn, P, co, c.I(int64(l)), c.I(int64(h)), ord)
	if z := m.res(nil); z != nil {
		return nil, z
	}
	if err != nil {
		unsup("%v", err)
	}
	bad := func(o *Outcome, f string, a ...interface{}) ([][2]int, *Res) {
		m.fail(o.st, f, a...)
		return nil, m.res(nil)
	}
	for _, o := range outs {
		if o.kind != "ret" {
			return bad(o, "panics: %s", o.msg)
		}
		if f := sn.frame(o.st, P.obj, ord.obj); f != "" {
			return bad(o, "frame: %s", f)
		}
		tp := o.v.(Tuple)
		d, s := tp[0].(*T), tp[1].(*T)
		if !d.isC() || !s.isC() {
			unsup("results of unknown form")
		}
		g := m.gh(o.st)
		n := m.integer(o.st, ord)
		if !included(in, n) {
			return bad(o, "a prime collected before is dropped")
		}
		for i := range n.ps {
			if (i < l || i >= h) && (len(n.ps[i]) != 1 || n.ps[i][0] != in.ps[i][0]) {
				return bad(o, "%d, which is outside the range, is collected", csidhPrimes[i])
			}
		}
		m.justified(o.st, root, n)
		z, known := g.known(root, m.full())
		if s.k == 1 {
			if !known || !z {
				return bad(o, "reports a supersingular curve without [p+1]P == O")
			}
			big := false
			for _, q := range g.gt {
				big = big || included(q, n)
			}
			if !big {
				return bad(o, "reports a supersingular curve though the order is not known to exceed 4 sqrt(p)")
			}
		} else if d.k == 1 && (!known || z) {
			return bad(o, "reports an ordinary curve though [p+1]P may be O")
		}
		if len(m.errs) > 0 {
			return nil, m.res(nil)
		}
	}
	return m.todo, nil
}

func csCofactorOb(r *Report) Res {
	f := newX("amd64").P.Fn(csidhPkg, csCofactor)
	if f == nil || len(f.Params) != 5 {
		unsup("no function %s with the signature of the contract", csCofactor)
	}
	seen := map[[2]int]bool{{0, nPr}: true}
	work := [][2]int{{0, nPr}}
	n := 0
	for len(work) > 0 {
		type rs struct {
			todo [][2]int
			res  *Res
			err  interface{}
		}
		out := make([]rs, len(work))
		var jobs []func()
		for i, w := range work {
			i, w := i, w
			jobs = append(jobs, func() {
				defer func() { out[i].err = recover() }()
				out[i].todo, out[i].res = cofactorNode(r, w[0], w[1])
			})
		}
		Par(4, jobs...)
		n += len(work)
		work = nil
		for _, o := range out {
			if o.err != nil {
				panic(o.err)
			}
			if o.res != nil {
				return *o.res
			}
			for _, t := range o.todo {
				if !seen[t] {
					seen[t] = true
					work = append(work, t)
				}
			}
		}
	}
	return okd("%d ranges", n)
}

// ---- Validate

// csValidate finds the variables that a round of the loop changes by assuming that it changes none and repeating
// with those that it did change.
func csValidate(r *Report) Res {
	vary := map[int]bool{}
	for {
		n := len(vary)
		if z := csValidateWith(r, vary); len(vary) == n {
			return z
		}
	}
}

func csValidateWith(r *Report, vary map[int]bool) Res {
	x := newX("amd64")
	defer x.Close()
	defer r.Merge(x)
	c := x.C
	m := newCsAct(x)
	m.cofactorHook()
	st := x.NewState()
	PT := x.P.Type(csidhPkg, "PublicKey")
	pub := x.NewTyped(st, "pub", PT)
	x.havocAt(st, pub, 0, PT, "pub")
	aOff := x.fieldOff(PT, "a")
	cv := m.newCurve("pub")
	ta := m.tok(&csTok{kind: 'a', cv: cv})
	m.put(st, Ptr{pub, c.I(aOff)}, ta)
	for _, w := range m.words[ta] {
		m.ok[w] = true
	}
	// the specification
	less := c.Bool(false)
	for i := 0; i < 8; i++ {
		w, k := m.words[ta][i], c.U64(new(big.Int).And(new(big.Int).Rsh(csidhP, uint(64*i)), new(big.Int).SetUint64(^uint64(0))).Uint64())
		less = c.Or(c.Ult(w, k), c.And(c.Eq(w, k), less))
	}
	is := func(v int64) *T {
		k := new(big.Int).Mul(big.NewInt(v), pow2(512))
		k.Mod(k, csidhP)
		r := c.Bool(true)
		for i := 0; i < 8; i++ {
			r = c.And(r, c.Eq(m.words[ta][i], c.U64(new(big.Int).And(new(big.Int).Rsh(k, uint(64*i)), new(big.Int).SetUint64(^uint64(0))).Uint64())))
		}
		return r
	}
	good := c.And(less, c.And(c.Not(is(2)), c.Not(is(-2))))
	sn := snap(st)
	nback, entered := 0, false
	kept := map[int][]Cell{}
	mc := &mergeCut{x: x, joinWords: m.joinWords, isInv: m.randomLoop}
	mc.inv = func(st *State, fr *Frame, h *ssa.BasicBlock, back bool) *State {
		if f := sn.frame(st, pub); f != "" {
			m.fail(st, "frame: %s", f)
		}
		if !sn.same(st, pub, aOff, aOff+64) {
			m.fail(st, "the key is changed")
		}
		if back {
			for id, cells := range kept {
				q := st.heap[id]
				for i := range cells {
					if q == nil || len(q.cells) != len(cells) || q.cells[i].v != cells[i].v || q.cells[i].n != cells[i].n {
						vary[id] = true
						break
					}
				}
			}
			nback++
			return nil
		}
		if !m.prove(st, good) {
			m.fail(st, "a value that is not below p, or one of 2 and -2, gets to the order computation")
		}
		entered = true
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			i := fr.info.idx[ph]
			if t, ok := fr.regs[i].(*T); ok {
				fr.regs[i] = c.Fresh(t.w, "phi")
			} else {
				fr.regs[i] = poison{}
			}
		}
		for id := sn.n; id < len(st.heap); id++ {
			q := st.heap[id]
			if q == nil {
				continue
			}
			n := &OState{owner: st, cells: append([]Cell(nil), q.cells...)}
			con := true
			for i := range n.cells {
				if n.cells[i].n > 0 {
					t, ok := n.cells[i].v.(*T)
					con = con && ok && t.isC()
				}
			}
			if con && !vary[id] {
				kept[id] = n.cells
				continue
			}
			if con && len(n.cells) == 64 && n.cells[0].n == 8 && m.someProduct(st, n) {
				st.heap[id] = n
				continue
			}
			for i := range n.cells {
				if n.cells[i].n == 0 {
					continue
				}
				switch v := n.cells[i].v.(type) {
				case *T:
					n.cells[i].v = c.Fresh(v.w, "loop")
				default:
					n.cells[i].v = poison{}
				}
			}
			st.heap[id] = n
		}
		delete(st.ghost, "act")
		st.SetG("loop", true)
		return st
	}
	x.cutAll = mc
	g := x.newRng("rng", false)
	fn := x.P.MustFn(csidhPkg, "Validate")
	outs, err := x.Call(st, fn, Ptr{pub, c.I(0)}, g.iface())
	if z := m.res(nil); z != nil {
		return *z
	}
	if err != nil {
		unsup("%v", err)
	}
	nt, nf := 0, 0
	for _, o := range outs {
		if o.kind != "ret" {
			if o.st.G("rngfailed") != nil {
				continue
			}
			return refuted("panics: %s", o.msg)
		}
		if f := sn.frame(o.st, pub); f != "" {
			return refuted("frame: %s", f)
		}
		if !sn.same(o.st, pub, aOff, aOff+64) {
			return refuted("the key is changed")
		}
		v, ok := o.v.(*T)
		if !ok || !v.isC() {
			unsup("result of unknown form")
		}
		acc := m.gh(o.st).acc
		switch {
		case v.k == 1 && !m.prove(o.st, good):
			m.fail(o.st, "a value that is not below p, or one of 2 and -2, is accepted")
		case v.k == 1 && acc != "supersingular "+cv.key:
			m.fail(o.st, "a key is accepted though its curve is not known to be supersingular")
		case v.k == 0 && acc != "ordinary "+cv.key && !m.prove(o.st, c.Not(good)):
			m.fail(o.st, "a key is refused though it is in range and its curve is not known to be ordinary")
		}
		if z := m.res(nil); z != nil {
			return *z
		}
		if v.k == 1 {
			nt++
		} else {
			nf++
		}
	}
	if !entered || nt == 0 || nf == 0 {
		return refuted("%d paths accept, %d refuse", nt, nf)
	}
	return okd("%d paths accept, %d refuse, %d ways round the loop", nt, nf, nback)
}

// someProduct replaces an integer that is a product of the primes by the product of an unknown subset.
func (m *csAct) someProduct(st *State, o *OState) (done bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(execErr); !ok {
				panic(e)
			}
		}
	}()
	var ws []*T
	for i := 0; i < 64; i += 8 {
		if o.cells[i].n != 8 {
			return false
		}
		ws = append(ws, o.cells[i].v.(*T))
	}
	v, ok := conWords(ws)
	if !ok {
		return false
	}
	m.factor(v)
	n := &nprod{}
	for i := range n.ps {
		n.ps[i] = []*T{m.x.C.Fresh(1, "some")}
	}
	for i, w := range m.words[m.tok(&csTok{kind: 'n', n: n})] {
		o.cells[8*i].v = w
	}
	return true
}

// ---- random elements

func csRandFp(r *Report) Res {
	x := newX("amd64")
	defer x.Close()
	defer r.Merge(x)
	c := x.C
	fn := x.P.Fn(csidhPkg, "fpRngGen.randFp")
	if fn == nil || len(fn.Params) != 3 {
		return okd("no such function: its code is checked where it is used")
	}
	st := x.NewState()
	GT, FT := x.P.Type(csidhPkg, "fpRngGen"), x.P.Type(csidhPkg, "fp")
	s, v := x.NewTyped(st, "s", GT), x.NewTyped(st, "v", FT)
	x.havocAt(st, s, 0, GT, "s")
	x.havocAt(st, v, 0, FT, "v")
	sn := snap(st)
	g := x.newRng("rng", true)
	nbyte := 0
	g.byteAt = func(st *State, i int) *T { nbyte++; return c.Var(8, fmt.Sprintf("rng%d.%d", nbyte, i)) }
	reads := func(fr *Frame, h *ssa.BasicBlock) bool {
		for b := range fr.info.headers[h] {
			for _, in := range b.Instrs {
				if cl, ok := in.(*ssa.Call); ok {
					if f, ok := cl.Call.Value.(*ssa.Function); ok && (f.String() == "io.ReadFull" || f.String() == "io.ReadAtLeast") {
						return true
					}
					if cl.Call.IsInvoke() && cl.Call.Method.Name() == "Read" {
						return true
					}
				}
			}
		}
		return false
	}
	mc := &mergeCut{x: x, isInv: reads}
	var bad *Res
	entered := false
	mc.inv = func(st *State, fr *Frame, h *ssa.BasicBlock, back bool) *State {
		if f := sn.frame(st, s, v); f != "" {
			z := refuted("frame: %s", f)
			bad = &z
		}
		if back {
			return nil
		}
		entered = true
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			i := fr.info.idx[ph]
			if t, ok := fr.regs[i].(*T); ok {
				fr.regs[i] = c.Fresh(t.w, "phi")
			} else {
				fr.regs[i] = poison{}
			}
		}
		x.havocAt(st, s, 0, GT, "s'")
		x.havocAt(st, v, 0, FT, "v'")
		return st
	}
	x.cutAll = mc
	outs, err := x.Call(st, fn, Ptr{s, c.I(0)}, Ptr{v, c.I(0)}, g.iface())
	if bad != nil {
		return *bad
	}
	if err != nil {
		unsup("%v", err)
	}
	if !entered {
		unsup("no loop that reads")
	}
	n := 0
	for _, o := range outs {
		if o.kind != "ret" {
			if !g.failed(o.st) {
				return refuted("panics: %s", o.msg)
			}
			continue
		}
		if g.failed(o.st) {
			return refuted("returns an element though the source failed")
		}
		if f := sn.frame(o.st, s, v); f != "" {
			return refuted("frame: %s", f)
		}
		less := c.Bool(false)
		for i := 0; i < 8; i++ {
			w, k := x.loadBits(o.st, v, int64(8*i), 8), c.U64(new(big.Int).And(new(big.Int).Rsh(csidhP, uint(64*i)), new(big.Int).SetUint64(^uint64(0))).Uint64())
			less = c.Or(c.Ult(w, k), c.And(c.Eq(w, k), less))
		}
		if !x.Prove(o.st, less) {
			return refuted("the element returned may not be below p")
		}
		n++
	}
	if n == 0 {
		return refuted("never returns")
	}
	return okd("%d returning paths", n)
}

// ---- key objects

// csTop: DeriveSecret and GeneratePublicKey over the contracts of Validate and groupAction.
func csTop(r *Report, derive bool) Res {
	x := newX("amd64")
	defer x.Close()
	defer r.Merge(x)
	c := x.C
	m := newCsAct(x)
	PT, KT := x.P.Type(csidhPkg, "PublicKey"), x.P.Type(csidhPkg, "PrivateKey")
	aOff, eOff := x.fieldOff(PT, "a"), x.fieldOff(KT, "e")
	st := x.NewState()
	pub, prv := x.NewTyped(st, "pub", PT), x.NewTyped(st, "prv", KT)
	x.havocAt(st, pub, 0, PT, "pub")
	x.havocAt(st, prv, 0, KT, "prv")
	cv := m.newCurve("pub")
	ta := m.tok(&csTok{kind: 'a', cv: cv})
	if derive {
		m.put(st, Ptr{pub, c.I(aOff)}, ta)
	}
	g := x.newRng("rng", false)
	GT := x.P.Type(csidhPkg, "fpRngGen")
	nv := 0
	m.hook("Validate", 2, []string{"bool"}, func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		p := a[0].(Ptr)
		if t := m.get(st, m.at(p, aOff)); t == nil || t.cv.key != cv.key || t.kind != 'a' {
			m.fail(st, "Validate is called on something other than the peer's key")
		}
		if !g.is(a[1]) {
			m.fail(st, "Validate is given another random source")
		}
		f := st.Clone()
		t := c.Var(1, "valid")
		st.Assume(t)
		f.Assume(c.Not(t))
		pan := st.Clone()
		for i, q := range []*State{st, f, pan} {
			nv++
			x.havocAt(q, p.obj, int64(p.off.k), GT, fmt.Sprintf("wbuf%d.%d", nv, i))
		}
		st.SetG("valid", true)
		pan.SetG("rngfailed", true)
		return []Alt{{st: st, v: c.Bool(true)}, {st: f, v: c.Bool(false)}, {st: pan, panic: "Can't read random number"}}
	})
	m.hook("groupAction", 3, nil, func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
		p, k := a[0].(Ptr), a[1].(Ptr)
		n := m.newCurve("result")
		t := m.get(st, m.at(p, aOff))
		if derive {
			if t == nil || t.kind != 'a' || t.cv.key != cv.key {
				m.fail(st, "the key acts on something other than the peer's key")
			}
			if st.G("valid") == nil {
				m.fail(st, "the key acts on a key that has not been validated")
			}
		} else if v, ok := conWords(m.rd(st, m.at(p, aOff))); !ok || v.Sign() != 0 {
			m.fail(st, "the key does not act on the curve with coefficient 0")
		}
		if k.obj != prv || !k.off.isCV(0) {
			// a copy of the key will do
			for i := int64(0); i < 37; i++ {
				if x.loadBits(st, k.obj, int64(k.off.k)+eOff+i, 1) != c.Var(8, fmt.Sprintf("prv.e[%d]", i)) {
					m.fail(st, "another key acts")
					break
				}
			}
		}
		if !g.is(a[2]) {
			m.fail(st, "the action is given another random source")
		}
		pan := st.Clone()
		for i, q := range []*State{st, pan} {
			nv++
			x.havocAt(q, k.obj, int64(k.off.k), GT, fmt.Sprintf("wbufk%d.%d", nv, i))
		}
		x.havocAt(pan, p.obj, int64(p.off.k), PT, "partial")
		pan.SetG("rngfailed", true)
		st.SetG("acted", nv)
		m.put(st, m.at(p, aOff), m.tok(&csTok{kind: 'a', cv: n}))
		return []Alt{{st: st}, {st: pan, panic: "Can't read random number"}}
	})
	out := x.NewObj(st, "out", 64)
	args := []Value{}
	var fn *ssa.Function
	if derive {
		fn = x.P.MustFn(csidhPkg, "DeriveSecret")
		OT := fn.Params[0].Type().Underlying().(*types.Pointer).Elem()
		out = x.NewTyped(st, "out", OT)
		x.havocAt(st, out, 0, OT, "out")
		args = append(args, Ptr{out, c.I(0)})
	} else {
		fn = x.P.MustFn(csidhPkg, "GeneratePublicKey")
	}
	args = append(args, Ptr{pub, c.I(0)}, Ptr{prv, c.I(0)}, g.iface())
	sn := snap(st)
	outs, err := x.Call(st, fn, args...)
	if z := m.res(nil); z != nil {
		return *z
	}
	if err != nil {
		unsup("%v", err)
	}
	n := 0
	for _, o := range outs {
		if o.kind != "ret" {
			if o.st.G("rngfailed") != nil {
				continue
			}
			return refuted("panics: %s", o.msg)
		}
		if f := sn.frame(o.st, pub, prv, out); f != "" {
			return refuted("frame: %s", f)
		}
		if !sn.same(o.st, prv, eOff, eOff+37) {
			return refuted("the private key is changed")
		}
		if !derive {
			t := m.get(o.st, Ptr{pub, c.I(aOff)})
			if t == nil || t.kind != 'a' || t.cv.base != "result" {
				return refuted("the public key is not the result of the action")
			}
			n++
			continue
		}
		if !sn.same(o.st, pub, aOff, aOff+64) {
			return refuted("the peer's key is changed")
		}
		v, ok := o.v.(*T)
		if !ok || !v.isC() {
			unsup("result of unknown form")
		}
		switch {
		case v.k == 0:
			if o.st.G("valid") != nil {
				return refuted("fails though the key is valid")
			}
			if !sn.same(o.st, out, 0, 64) {
				return refuted("writes the output though it fails")
			}
		case o.st.G("valid") == nil:
			return refuted("succeeds though the key is not valid")
		default:
			if o.st.G("acted") == nil {
				return refuted("the key does not act")
			}
			var ws []*T
			for i := int64(0); i < 8; i++ {
				ws = append(ws, x.loadBits(o.st, out, 8*i, 8))
			}
			if t := m.ofWords(ws); t == nil || t.kind != 'a' || t.cv.base != "result" {
				return refuted("the output is not the encoding of the resulting coefficient")
			}
			n++
		}
	}
	if n == 0 {
		return refuted("never succeeds")
	}
	return okd("%d paths succeed", n)
}

func csPrimeList(r *Report) Res {
	x := newX("amd64")
	defer x.Close()
	v := big.NewInt(4)
	seen := map[int64]bool{}
	for _, l := range csidhPrimes {
		if seen[l] || !big.NewInt(l).ProbablyPrime(20) || l == 2 {
			return refuted("%d is not another odd prime", l)
		}
		seen[l] = true
		v.Mul(v, big.NewInt(l))
	}
	if v.Sub(v, big1).Cmp(csidhP) != 0 || !csidhP.ProbablyPrime(20) || v.And(v, big.NewInt(7)).Int64() != 3 {
		return refuted("p is not the prime 4 * product - 1 = 3 mod 8")
	}
	if len(csidhPrimes) != nPr {
		return refuted("%d primes", len(csidhPrimes))
	}
	return okd("p = 4 * product of %d primes - 1, p = 3 mod 8", nPr)
}

func propC12(r *Report) {
	r.Replay = csidhReplay("TestVerifAction")
	var jobs []func()
	ob := func(nm, be string, f func() Res) {
		jobs = append(jobs, func() { r.Ob(nm, be, func() Res { return r.orBounded(f) }) })
	}
	be := "symbolic execution with merged paths over the contracts of C09 and C10 + loop invariant"
	ob("groupAction: every prime is used |e_i| times, in the direction of the sign, with kernels of its order; the private key is unchanged", be, func() Res { return *csAction(r) })
	ob("Validate: refuses values not below p, 2 and -2; accepts only after a supersingular, refuses only after an ordinary result; the key is unchanged", be+", SMT", func() Res { return csValidate(r) })
	ob("cofactorMul: collects only primes that divide the order; supersingular only with [p+1]P == O and an order above 4 sqrt(p), ordinary only with [p+1]P != O (all ranges of the recursion)", be, func() Res { return csCofactorOb(r) })
	ob("randFp: the element is below p; panics only if the source fails", "symbolic execution + loop invariant, SMT", func() Res { return csRandFp(r) })
	ob("DeriveSecret: false without writing for a refused key, else the encoding of the action's result; the inputs are unchanged", "symbolic execution over the contracts of Validate and groupAction", func() Res { return csTop(r, true) })
	ob("GeneratePublicKey: the action on coefficient 0, whatever the object held; the private key is unchanged", "symbolic execution over the contract of groupAction", func() Res { return csTop(r, false) })
	ob("the primes", "evaluation", func() Res { return csPrimeList(r) })
	Par(8, jobs...)
}
