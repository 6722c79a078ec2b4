package main

// Field-element layer: functions above the word-level arithmetic are executed with the arithmetic
// replaced by its contract. A group of words holding an element is bound to its value, an element of
// the ring of polynomials (integers modulo p, or F_p^2); moving words around moves the binding.

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type feVal struct {
	v    *FE
	max  *big.Int // largest integer the words may represent (nil: not an integer group)
	ws   []*T
	name string
}

type FL struct {
	x     *Exec
	R     *Ring
	offs  []int // word offsets of an element within its object
	max   *big.Int
	tups  map[string]*feVal
	vars  map[*T]*feVal // word -> its group
	n     int
	kcon  func(ws []*big.Int) *FE // value of constant words
	deps  []*FL
	errs  []string // violated preconditions
	nodec bool     // groups are not integers: word arithmetic on them is not interpreted
}

func wkey(ws []*T) string {
	var b strings.Builder
	for _, w := range ws {
		fmt.Fprintf(&b, "%d,", w.id)
	}
	return b.String()
}

func NewFL(x *Exec, R *Ring, offs []int, max *big.Int) *FL {
	l := &FL{x: x, R: R, offs: offs, max: max, tups: map[string]*feVal{}, vars: map[*T]*feVal{}}
	if x.never == nil {
		known := map[*T]bool{}
		x.never = func(t *T) bool {
			r, ok := known[t]
			if !ok {
				r = l.never(t)
				known[t] = r
			}
			return r
		}
	}
	return l
}

func iota0(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// fresh words holding v.
func (l *FL) fresh(name string, v *FE, max *big.Int, n int) []*T {
	l.n++
	ws := make([]*T, n)
	for i := range ws {
		ws[i] = l.x.C.Var(64, fmt.Sprintf("%s#%d.%d", name, l.n, i))
	}
	l.bind(ws, v, max, name)
	return ws
}

func (l *FL) bind(ws []*T, v *FE, max *big.Int, name string) *feVal {
	f := &feVal{v, max, ws, name}
	l.tups[wkey(ws)] = f
	for _, w := range ws {
		l.vars[w] = f
	}
	return f
}

func (l *FL) ptrOff(p Value) (Ptr, int64) {
	q, ok := p.(Ptr)
	if !ok || q.obj == nil {
		unsup("field element through %T", p)
	}
	if !q.off.isC() {
		return q, -1
	}
	return q, int64(q.off.k)
}

func (l *FL) words(st *State, o *Obj, off int64) []*T {
	ws := make([]*T, len(l.offs))
	for i, k := range l.offs {
		ws[i] = l.x.loadBits(st, o, off+int64(8*k), 8)
	}
	return ws
}

// Write stores a fresh element at p.
func (l *FL) Write(st *State, p Value, name string, v *FE, max *big.Int) {
	q, off := l.ptrOff(p)
	if off < 0 {
		unsup("field element written at a symbolic index")
	}
	ws := l.fresh(name, v, max, len(l.offs))
	for i, k := range l.offs {
		l.x.storeAt(st, q.obj, off+int64(8*k), 8, ws[i])
	}
}

// Obj makes an object of size words with the element at its beginning; the other words are zero.
func (l *FL) Obj(st *State, name string, v *FE, size int) Ptr {
	z := make([]*T, size)
	for i := range z {
		z[i] = l.x.C.Const(64, 0)
	}
	o := l.x.wordObj(st, name, z)
	p := Ptr{o, l.x.C.I(0)}
	if v != nil {
		l.Write(st, p, name, v, l.max)
	}
	return p
}

// Read returns the element at p.
func (l *FL) Read(st *State, p Value) *feVal {
	q, off := l.ptrOff(p)
	if off < 0 {
		return l.readSym(st, q)
	}
	return l.val(l.words(st, q.obj, off))
}

// val interprets a group of words.
func (l *FL) val(ws []*T) *feVal {
	if f := l.tups[wkey(ws)]; f != nil {
		return f
	}
	if f := l.constVal(ws); f != nil {
		l.tups[wkey(ws)] = f
		return f
	}
	// a narrower element extended with zeroes
	n := len(ws)
	for n > 0 && ws[n-1].isCV(0) {
		n--
	}
	if n < len(ws) {
		for m := len(ws) - 1; m >= n && m > 0; m-- {
			if f := l.tups[wkey(ws[:m])]; f != nil {
				return f
			}
		}
	}
	for _, d := range l.deps {
		if len(d.offs) <= len(ws) {
			f := d.tups[wkey(ws[:len(d.offs)])]
			for _, w := range ws[len(d.offs):] {
				if !w.isCV(0) {
					f = nil
				}
			}
			if f != nil {
				return f
			}
		}
	}
	if f := l.decode(ws); f != nil {
		return f
	}
	if l.vars[ws[0]] == nil && len(l.vars) == 0 {
		unsup("words without a field-element value: %v ...", ws[0])
	}
	unsup("words that do not hold one field element: %v ...", ws[0])
	return nil
}

func (l *FL) constVal(ws []*T) *feVal {
	var k []*big.Int
	for _, w := range ws {
		if !w.isC() {
			return nil
		}
		k = append(k, bu(w.k))
	}
	if l.kcon != nil {
		if v := l.kcon(k); v != nil {
			return &feVal{v, l.max, ws, "constant"}
		}
		return nil
	}
	v := new(big.Int)
	for i := len(k) - 1; i >= 0; i-- {
		v.Lsh(v, 64)
		v.Or(v, k[i])
	}
	return &feVal{l.R.Const(v), v, ws, "constant"}
}

// decode: words computed from known groups by word arithmetic (a conditional subtraction, say).
func (l *FL) decode(ws []*T) (res *feVal) {
	if l.max == nil || l.nodec {
		return nil
	}
	groups := map[*feVal]bool{}
	for _, t := range reach(ws...) {
		if t.op == OVar {
			f := l.vars[t]
			if f == nil || f.max == nil {
				return nil
			}
			groups[f] = true
		}
	}
	if len(groups) == 0 || len(groups) > 6 {
		return nil
	}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(execErr); !ok {
				panic(p)
			}
			res = nil
		}
	}()
	b := NewBN(l.x.C, ws...)
	b.x = l.x
	b.Thr = 60
	var gs []*feVal
	for g := range groups {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].ws[0].id < gs[j].ws[0].id })
	vec := map[*feVal]*bpoly{}
	for _, g := range gs {
		vec[g] = b.Vec(g.ws, g.max)
	}
	s := b.Sum(ws)
	var out *FE
	err := b.Cases([]*bpoly{s}, 8, func(ps []*bpoly, path string) error {
		d := ps[0]
		v := l.R.Int(0)
		if d.sh != 0 {
			return fmt.Errorf("fraction")
		}
		for _, g := range gs {
			w0 := b.Val(g.ws[0])
			var k *big.Int
			for m := range w0.m {
				k = d.m[m]
			}
			if k == nil {
				continue
			}
			d = d.sub(vec[g].scale(k))
			v = l.R.Add(v, l.R.Scale(g.v, k))
		}
		for m, k := range d.m {
			if m != "" {
				return fmt.Errorf("not a combination")
			}
			v = l.R.Add(v, l.R.Const(k))
		}
		if !b.nonneg(bpC(l.max).sub(ps[0]), 0, true) {
			return fmt.Errorf("out of range")
		}
		if out == nil {
			out = v
		} else if !l.R.Eq(out, v) {
			return fmt.Errorf("cases differ")
		}
		return nil
	})
	if err != nil || out == nil {
		return nil
	}
	// exactly one of the groups?
	for _, g := range gs {
		same := true
		for i := range ws {
			if i >= len(g.ws) || !b.norm(b.Val(ws[i])).sub(b.Val(g.ws[i])).isZero() {
				same = false
				break
			}
		}
		if same {
			l.tups[wkey(ws)] = g
			return g
		}
	}
	return l.bind2(ws, out)
}

// simplify replaces words that equal a word of a known group (the bounds of the groups decide the
// carries) by that word.
// never: the condition on words of field elements cannot hold, because of the elements' ranges.
func (l *FL) never(t *T) (res bool) {
	bit, v, ok := NewBN(l.x.C).condBit(t)
	if !ok || bit.op != OAdcC && bit.op != OSbbB || l.nodec {
		return false
	}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(execErr); !ok {
				panic(p)
			}
		}
	}()
	groups := map[*feVal]bool{}
	for _, v := range reach(t) {
		if v.op != OVar {
			continue
		}
		f := l.vars[v]
		if f == nil || f.max == nil {
			return false
		}
		groups[f] = true
	}
	if len(groups) == 0 || len(groups) > 4 {
		return false
	}
	b := NewBN(l.x.C, t)
	b.x = l.x
	b.Thr = 60
	var gs []*feVal
	for g := range groups {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].ws[0].id < gs[j].ws[0].id })
	for _, g := range gs {
		b.Vec(g.ws, g.max)
	}
	p := b.Val(bit)
	b.settleAll(p)
	p = b.norm(p)
	if k := p.m[""]; len(p.m) > 1 || len(p.m) == 1 && k == nil || p.sh != 0 {
		return false
	}
	return (len(p.m) == 1) != (v == 1)
}

func (l *FL) simplify(t *T) (res *T) {
	res = t
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(execErr); !ok {
				panic(p)
			}
		}
	}()
	groups := map[*feVal]bool{}
	for _, v := range reach(t) {
		if f := l.vars[v]; v.op == OVar && f != nil && f.max != nil {
			groups[f] = true
		}
	}
	if len(groups) == 0 || len(groups) > 4 {
		return
	}
	b := NewBN(l.x.C, t)
	b.x = l.x
	b.Thr = 60
	var gs []*feVal
	for g := range groups {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].ws[0].id < gs[j].ws[0].id })
	at := map[int]*T{}
	for _, g := range gs {
		b.Vec(g.ws, g.max)
		for _, w := range g.ws {
			for m := range b.Val(w).m {
				if len(m) == 2 {
					at[monoAt(m, 0)] = w
				}
			}
		}
	}
	sub := map[*T]*T{}
	for _, u := range reach(t) {
		if u.w != 64 || u.op != OOr && u.op != OIte && u.op != OXor && u.op != OAnd {
			continue
		}
		p := b.Val(u)
		b.settleAll(p)
		p = b.norm(p)
		if len(p.m) != 1 || p.sh != 0 {
			continue
		}
		for m, k := range p.m {
			if len(m) == 2 && k.Cmp(big1) == 0 && at[monoAt(m, 0)] != nil {
				sub[u] = at[monoAt(m, 0)]
			}
		}
	}
	return l.x.C.rewrite(t, sub, map[*T]*T{})
}

func (l *FL) bind2(ws []*T, v *FE) *feVal {
	f := &feVal{v, l.max, ws, "computed"}
	l.tups[wkey(ws)] = f
	return f
}

// bitExpo is the integer value of an index as a combination of its bits.
func (l *FL) bitExpo(t *T) *expo {
	e := eI(new(big.Int))
	c := l.x.C
	for i := uint8(0); i < t.w; i++ {
		b := c.Extract(t, i, 1)
		if b.isC() {
			if b.k == 1 {
				e = e.add(eI(big1), pow2(uint(i)))
			}
			continue
		}
		e = e.add(&expo{map[string]*big.Int{fmt.Sprintf("b%d", b.id): big1}}, pow2(uint(i)))
	}
	return e
}

// readSym: a table entry at a symbolic index, where entry k holds v0 * v1^k.
func (l *FL) readSym(st *State, q Ptr) *feVal {
	base, scale, idx := l.x.splitIdx(q.off)
	if idx == nil {
		unsup("field element at a symbolic offset")
	}
	n := int64(l.x.C.ubound(idx)) + 1
	if n > 256 {
		unsup("field element at a symbolic offset (table of %d)", n)
	}
	var f0, f1 *feVal
	var step *FE
	max := new(big.Int)
	for k := int64(0); k < n; k++ {
		f := l.val(l.words(st, q.obj, base+scale*k))
		if f.max != nil && f.max.Cmp(max) > 0 {
			max = f.max
		}
		switch k {
		case 0:
			f0 = f
		case 1:
			f1 = f
			step = l.R.Div(f1.v, f0.v)
		default:
			if !l.R.Eq(f.v, l.R.Mul(f0.v, l.R.Pow(step, k))) {
				unsup("table whose entries are not successive powers (entry %d is %s)", k, l.R.str(f.v))
			}
		}
	}
	v := f0.v
	if step != nil {
		e := l.bitExpo(idx)
		p := &FE{big1, map[string]ffac{}}
		if step.c.Cmp(big1) != 0 {
			unsup("table of powers with a constant factor")
		}
		for k, g := range step.fs {
			c, ok := g.e.con()
			if !ok {
				unsup("table of symbolic powers")
			}
			p.fs[k] = ffac{g.p, eI(new(big.Int)).add(e, c)}
		}
		v = l.R.Mul(v, p)
	}
	return &feVal{v, max, nil, "table entry"}
}

// pre records a violated precondition.
func (l *FL) pre(f *feVal, max *big.Int, what string) {
	if max != nil && (f.max == nil || f.max.Cmp(max) > 0) {
		l.errs = append(l.errs, fmt.Sprintf("precondition of %s: operand may reach %#x (limit %#x)", what, f.max, max))
	}
}

// bin registers a contract dst = op(x, y).
func (l *FL) bin(fn string, inMax, outMax *big.Int, op func(a, b *FE) *FE) {
	l.x.H[fn] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
		p, q := l.Read(st, a[1]), l.Read(st, a[2])
		l.pre(p, inMax, shortFn(fn))
		l.pre(q, inMax, shortFn(fn))
		l.Write(st, a[0], shortFn(fn), op(p.v, q.v), outMax)
		return []Alt{{st: st}}
	}
}

func (l *FL) un(fn string, inMax, outMax *big.Int, op func(a *FE) *FE) {
	l.x.H[fn] = func(x *Exec, st *State, a []Value, _ *ssa.CallCommon) []Alt {
		p := l.Read(st, a[1])
		l.pre(p, inMax, shortFn(fn))
		l.Write(st, a[0], shortFn(fn), op(p.v), outMax)
		return []Alt{{st: st}}
	}
}

// feDiff compares an element with its specification; a nonzero difference is confirmed at random points.
func (R *Ring) feDiff(got, want *FE, seed uint64) (Res, bool) {
	same := true
	rng := rand.New(rand.NewSource(int64(seed) + 7))
	var point string
	for k := 0; k < 4 && same && len(R.rels) == 0; k++ {
		at := make([]*big.Int, len(R.names))
		for i := range at {
			at[i] = new(big.Int).Rand(rng, R.p)
		}
		bits := map[string]bool{}
		for _, f := range []*FE{got, want} {
			for _, g := range f.fs {
				var ns []string
				for n := range g.e.m {
					ns = append(ns, n)
				}
				sort.Strings(ns)
				for _, n := range ns {
					if _, ok := bits[n]; !ok {
						bits[n] = rng.Intn(2) == 1
					}
				}
			}
		}
		a, b := R.Eval(got, at, bits), R.Eval(want, at, bits)
		if a.Cmp(b) != 0 {
			same = false
			var s []string
			for i, n := range R.names {
				if i < 6 {
					s = append(s, fmt.Sprintf("%s=%#x", n, at[i]))
				}
			}
			point = fmt.Sprintf("at %s: computed %#x, specified %#x", strings.Join(s, " "), a, b)
		}
	}
	if !same {
		return refuted("computed %s; specified %s; %s", R.str(got), R.str(want), point), false
	}
	if R.Eq(got, want) {
		return Res{OK: true}, true
	}
	if len(R.rels) > 0 {
		return refuted("computed and specified elements differ: %s vs %s", R.str(got), R.str(want)), false
	}
	return undecided("could not decide %s == %s", R.str(got), R.str(want)), false
}
