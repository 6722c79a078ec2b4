package main

// Hash-consed bit-vector terms (width 1..64; width 1 doubles as bool).

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAnd
	OOr
	OXor
	OAdd
	OSub
	OAdc  // x+y+c (c: 1 bit)
	OSbb  // x-y-b
	OAdcC // carry out of x+y+c (1 bit)
	OSbbB // borrow out of x-y-b (1 bit)
	OMul  // low half
	OMulHi
	OUdiv
	OUrem
	OShlV // variable shifts
	OLshrV
	OAshrV
	ORotl    // constant rotate, amount k
	OExtract // bits [k, k+w)
	OConcat  // a[0] most significant
	OSext    // sign extension
	OEq
	OUlt
	OSlt
	OIte
	OLut // table lookup, k = table id, a[0] index (8 bit)
	OUF  // uninterpreted, name + args
)

var opNames = [...]string{"const", "var", "and", "or", "xor", "add", "sub", "adc", "sbb", "adcC", "sbbB", "mul", "mulhi", "udiv", "urem", "shl", "lshr", "ashr", "rotl", "extract", "concat", "sext", "eq", "ult", "slt", "ite", "lut", "uf"}

type T struct {
	op   Op
	w    uint8
	idx  bool // term built only of symbolic lengths/offsets and constants
	id   uint32
	k    uint64
	name string
	a    []*T
	// variable ranges (unsigned), for OVar
	lo, hi uint64
}

type tkey struct {
	op         Op
	w          uint8
	k          uint64
	name       string
	a0, a1, a2 uint32
	rest       string
}

// Ctx builds terms. Not safe for concurrent use; one per worker.
type Ctx struct {
	tab     map[tkey]*T
	n       uint32
	luts    []*LutTab
	lutIdx  map[string]int
	consts  [65]map[uint64]*T
	nofresh int
	exP     map[*T][]piece
}

type LutTab struct {
	w    uint8
	tab  [256]uint64
	name string
}

func NewCtx() *Ctx {
	return &Ctx{tab: map[tkey]*T{}, lutIdx: map[string]int{}}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) mk(op Op, w uint8, k uint64, name string, a ...*T) *T {
	key := tkey{op: op, w: w, k: k, name: name}
	if len(a) > 0 {
		key.a0 = a[0].id + 1
	}
	if len(a) > 1 {
		key.a1 = a[1].id + 1
	}
	if len(a) > 2 {
		key.a2 = a[2].id + 1
	}
	if len(a) > 3 {
		b := make([]byte, 0, 4*len(a))
		for _, x := range a[3:] {
			b = append(b, byte(x.id), byte(x.id>>8), byte(x.id>>16), byte(x.id>>24))
		}
		key.rest = string(b)
	}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &T{op: op, w: w, k: k, name: name, id: c.n}
	if len(a) > 0 {
		t.a = append([]*T(nil), a...)
	}
	switch op {
	case OConst:
		t.idx = true
	case OVar, OUF, OLut, OIte:
	default:
		t.idx = true
		for _, x := range a {
			if !x.idx {
				t.idx = false
				break
			}
		}
	}
	c.n++
	c.tab[key] = t
	return t
}

func (c *Ctx) Const(w uint8, v uint64) *T {
	v &= mask(w)
	m := c.consts[w]
	if m == nil {
		m = map[uint64]*T{}
		c.consts[w] = m
	}
	if t, ok := m[v]; ok {
		return t
	}
	t := c.mk(OConst, w, v, "")
	m[v] = t
	return t
}
func (c *Ctx) U64(v uint64) *T { return c.Const(64, v) }
func (c *Ctx) I(v int64) *T    { return c.Const(64, uint64(v)) }
func (c *Ctx) Bool(b bool) *T {
	if b {
		return c.Const(1, 1)
	}
	return c.Const(1, 0)
}
func (c *Ctx) Var(w uint8, name string) *T {
	t := c.mk(OVar, w, 0, name)
	if t.hi == 0 {
		t.hi = mask(w)
	}
	return t
}

// IdxVar makes a symbolic length/offset variable with a range.
func (c *Ctx) IdxVar(name string, lo, hi uint64) *T {
	t := c.mk(OVar, 64, 0, name)
	t.idx = true
	t.lo, t.hi = lo, hi
	return t
}
func (c *Ctx) Fresh(w uint8, name string) *T {
	c.nofresh++
	return c.Var(w, fmt.Sprintf("%s!%d", name, c.nofresh))
}
func (c *Ctx) UF(w uint8, name string, a ...*T) *T { return c.mk(OUF, w, 0, name, a...) }

func (t *T) isC() bool { return t.op == OConst }
func (t *T) isCV(v uint64) bool {
	return t.op == OConst && t.k == v&mask(t.w)
}

func sort2(x, y *T) (*T, *T) {
	if x.op == OConst && y.op != OConst {
		return y, x
	}
	if y.op == OConst {
		return x, y
	}
	if x.id > y.id {
		return y, x
	}
	return x, y
}

func (c *Ctx) Not(x *T) *T { return c.Xor(x, c.Const(x.w, ^uint64(0))) }

func (c *Ctx) Xor(x, y *T) *T {
	if x.w != y.w {
		panic(fmt.Sprintf("xor width %d %d", x.w, y.w))
	}
	x, y = sort2(x, y)
	if x.isC() && y.isC() {
		return c.Const(x.w, x.k^y.k)
	}
	if x == y {
		return c.Const(x.w, 0)
	}
	if y.isC() {
		if y.k == 0 {
			return x
		}
		if x.op == OXor && x.a[1].isC() {
			return c.Xor(x.a[0], c.Const(x.w, x.a[1].k^y.k))
		}
		if x.op == OConcat {
			// push a constant into the pieces: keeps masks canonical
			var ps []*T
			lo := x.w
			for _, p := range x.a {
				lo -= p.w
				ps = append(ps, c.Xor(p, c.Const(p.w, y.k>>lo)))
			}
			return c.Concat(ps...)
		}
	} else {
		// hoist constants: (a^k)^y = (a^y)^k
		if x.op == OXor && x.a[1].isC() {
			return c.Xor(c.Xor(x.a[0], y), x.a[1])
		}
		if y.op == OXor && y.a[1].isC() {
			return c.Xor(c.Xor(x, y.a[0]), y.a[1])
		}
		if x.op == OXor && (x.a[0] == y || x.a[1] == y) {
			if x.a[0] == y {
				return x.a[1]
			}
			return x.a[0]
		}
		if y.op == OXor && (y.a[0] == x || y.a[1] == x) {
			if y.a[0] == x {
				return y.a[1]
			}
			return y.a[0]
		}
	}
	if r := c.mergeDisjoint(x, y); r != nil {
		return r
	}
	return c.mk(OXor, x.w, 0, "", x, y)
}

func (c *Ctx) And(x, y *T) *T {
	if x.w != y.w {
		panic("and width")
	}
	x, y = sort2(x, y)
	if x.isC() && y.isC() {
		return c.Const(x.w, x.k&y.k)
	}
	if x == y {
		return x
	}
	if y.isC() {
		if y.k == 0 {
			return y
		}
		if y.k == mask(x.w) {
			return x
		}
		if x.idx && x.w == 64 {
			if y.k&(y.k+1) == 0 && y.k < 1<<32 {
				if _, r, ok := c.splitDiv(x, y.k+1); ok {
					return r
				}
			} else if n := ^y.k + 1; n&(n-1) == 0 && n < 1<<32 {
				if q, _, ok := c.splitDiv(x, n); ok {
					return c.Mul(q, c.Const(64, n))
				}
			}
		}
		// contiguous mask -> slices
		tz := uint8(bits.TrailingZeros64(y.k))
		ln := uint8(bits.OnesCount64(y.k))
		if y.k>>tz == mask(ln) {
			var ps []*T
			if tz+ln < x.w {
				ps = append(ps, c.Const(x.w-tz-ln, 0))
			}
			ps = append(ps, c.Extract(x, tz, ln))
			if tz > 0 {
				ps = append(ps, c.Const(tz, 0))
			}
			return c.Concat(ps...)
		}
		// general mask on a concat
		if x.op == OConcat || x.op == OAnd && x.a[1].isC() {
			if x.op == OAnd {
				return c.And(x.a[0], c.Const(x.w, x.a[1].k&y.k))
			}
			var ps []*T
			lo := x.w
			for _, p := range x.a {
				lo -= p.w
				ps = append(ps, c.And(p, c.Const(p.w, y.k>>lo)))
			}
			return c.Concat(ps...)
		}
	}
	if x.w == 1 && c.isNotOf(x, y) {
		return c.Const(1, 0)
	}
	return c.mk(OAnd, x.w, 0, "", x, y)
}

func (c *Ctx) isNotOf(x, y *T) bool {
	n := func(a, b *T) bool {
		return a.op == OXor && a.a[1].isC() && a.a[1].k == mask(a.w) && a.a[0] == b
	}
	return n(x, y) || n(y, x)
}

func (c *Ctx) Or(x, y *T) *T {
	if x.w != y.w {
		panic("or width")
	}
	x, y = sort2(x, y)
	if x.isC() && y.isC() {
		return c.Const(x.w, x.k|y.k)
	}
	if x == y {
		return x
	}
	if y.isC() {
		if y.k == 0 {
			return x
		}
		if y.k == mask(x.w) {
			return y
		}
		// x | k: pieces
		return c.orConst(x, y.k)
	}
	if r := c.mergeDisjoint(x, y); r != nil {
		return r
	}
	if c.isNotOf(x, y) {
		return c.Const(x.w, ^uint64(0))
	}
	return c.mk(OOr, x.w, 0, "", x, y)
}

func (c *Ctx) orConst(x *T, k uint64) *T {
	// runs of ones become constants; runs of zeros are slices of x
	var ps []*T
	hi := int(x.w)
	for hi > 0 {
		b := (k >> (hi - 1)) & 1
		lo := hi - 1
		for lo > 0 && (k>>(lo-1))&1 == b {
			lo--
		}
		if b == 1 {
			ps = append(ps, c.Const(uint8(hi-lo), ^uint64(0)))
		} else {
			ps = append(ps, c.Extract(x, uint8(lo), uint8(hi-lo)))
		}
		hi = lo
	}
	return c.Concat(ps...)
}

type piece struct {
	t *T
	w uint8
}

// mergeDisjoint returns the concat when for each bit one of x,y is constant zero.
func (c *Ctx) mergeDisjoint(x, y *T) *T {
	hasZero := func(t *T) bool {
		if t.op != OConcat {
			return false
		}
		for _, p := range t.a {
			if p.isCV(0) {
				return true
			}
		}
		return false
	}
	if !hasZero(x) && !hasZero(y) {
		return nil
	}
	px, py := x.a, y.a
	if x.op != OConcat {
		px = []*T{x}
	}
	if y.op != OConcat {
		py = []*T{y}
	}
	// first pass: check feasibility by widths
	var out []*T
	i, j := 0, 0
	var ri, rj uint8 // remaining width of current pieces
	ri, rj = px[0].w, py[0].w
	for i < len(px) && j < len(py) {
		w := ri
		if rj < w {
			w = rj
		}
		xi, yj := px[i], py[j]
		xz, yz := xi.isCV(0), yj.isCV(0)
		// constants that are zero on this segment
		if !xz && xi.isC() && (xi.k>>(ri-w))&mask(w) == 0 {
			xz = true
		}
		if !yz && yj.isC() && (yj.k>>(rj-w))&mask(w) == 0 {
			yz = true
		}
		if !xz && !yz {
			return nil
		}
		if xz && yz {
			out = append(out, c.Const(w, 0))
		} else if xz {
			out = append(out, c.Extract(yj, rj-w, w))
		} else {
			out = append(out, c.Extract(xi, ri-w, w))
		}
		ri -= w
		rj -= w
		if ri == 0 {
			i++
			if i < len(px) {
				ri = px[i].w
			}
		}
		if rj == 0 {
			j++
			if j < len(py) {
				rj = py[j].w
			}
		}
	}
	return c.Concat(out...)
}

// Concat: a[0] most significant. Canonicalises.
func (c *Ctx) Concat(ps ...*T) *T {
	var f []*T
	for _, p := range ps {
		if p.w == 0 {
			continue
		}
		if p.op == OConcat {
			f = append(f, p.a...)
		} else {
			f = append(f, p)
		}
	}
	var g []*T
	var tot uint8
	for _, p := range f {
		tot += p.w
		if n := len(g); n > 0 {
			q := g[n-1]
			if q.isC() && p.isC() {
				g[n-1] = c.Const(q.w+p.w, q.k<<p.w|p.k)
				continue
			}
			if q.op == OExtract && p.op == OExtract && q.a[0] == p.a[0] && q.k == p.k+uint64(p.w) {
				g[n-1] = c.Extract(p.a[0], uint8(p.k), p.w+q.w)
				continue
			}
		}
		g = append(g, p)
	}
	if len(g) == 1 {
		return g[0]
	}
	if tot > 64 {
		panic("concat too wide")
	}
	if len(g) == 2 && g[0].op == OExtract && g[1].op == OExtract && g[0].a[0] == g[1].a[0] {
		x := g[0].a[0]
		// x[lo0.. ] low part on top, high part at the bottom
		if x.w == tot && g[0].k == 0 && g[1].k == uint64(g[0].w) {
			return c.Rotl(x, uint64(g[1].w))
		}
	}
	return c.mk(OConcat, tot, 0, "", g...)
}

func (c *Ctx) Rotl(x *T, n uint64) *T {
	n %= uint64(x.w)
	if n == 0 {
		return x
	}
	if x.isC() {
		return c.Const(x.w, x.k<<n|x.k>>(uint64(x.w)-n))
	}
	if x.op == ORotl {
		return c.Rotl(x.a[0], n+x.k)
	}
	if x.op == OXor && x.a[1].isC() {
		return c.Xor(c.Rotl(x.a[0], n), c.Rotl(x.a[1], n))
	}
	if x.op == OConcat {
		return c.Concat(c.Extract(x, 0, x.w-uint8(n)), c.Extract(x, x.w-uint8(n), uint8(n)))
	}
	return c.mk(ORotl, x.w, n, "", x)
}

// Extract w bits starting at lo.
func (c *Ctx) Extract(x *T, lo, w uint8) *T {
	if lo+w > x.w {
		panic(fmt.Sprintf("extract %d+%d of %d", lo, w, x.w))
	}
	if w == x.w {
		return x
	}
	if x.op == OAdd || x.op == OMul {
		if k, ok := x.lowBits(lo + w); ok {
			return c.Const(w, k>>lo)
		}
	}
	switch x.op {
	case OConst:
		return c.Const(w, x.k>>lo)
	case OExtract:
		return c.Extract(x.a[0], uint8(x.k)+lo, w)
	case OConcat:
		hi := lo + w
		pos := x.w
		var ps []*T
		for _, p := range x.a {
			top := pos
			bot := pos - p.w
			pos = bot
			if bot >= hi || top <= lo {
				continue
			}
			l, h := bot, top
			if lo > l {
				l = lo
			}
			if hi < h {
				h = hi
			}
			ps = append(ps, c.Extract(p, l-bot, h-l))
		}
		return c.Concat(ps...)
	case ORotl:
		// result bits [lo,lo+w) = source bits (lo-k mod W)...
		W := uint64(x.w)
		s := (uint64(lo) + W - x.k) % W
		if s+uint64(w) <= W {
			return c.Extract(x.a[0], uint8(s), w)
		}
		l1 := W - s
		return c.Concat(c.Extract(x.a[0], 0, w-uint8(l1)), c.Extract(x.a[0], uint8(s), uint8(l1)))
	case OXor:
		if x.a[1].isC() {
			return c.Xor(c.Extract(x.a[0], lo, w), c.Extract(x.a[1], lo, w))
		}
		if w <= 8 && x.depthLe(4) {
			return c.Xor(c.Extract(x.a[0], lo, w), c.Extract(x.a[1], lo, w))
		}
	case OAnd:
		if x.a[1].isC() {
			return c.And(c.Extract(x.a[0], lo, w), c.Extract(x.a[1], lo, w))
		}
	case OIte:
		if x.a[1].isC() || x.a[2].isC() {
			return c.Ite(x.a[0], c.Extract(x.a[1], lo, w), c.Extract(x.a[2], lo, w))
		}
	case OSext:
		if lo+w <= x.a[0].w {
			return c.Extract(x.a[0], lo, w)
		}
	case OAdd:
		if x.idx {
			break
		}
		if lo == 0 && w <= 8 {
			return c.Add(c.Extract(x.a[0], 0, w), c.Extract(x.a[1], 0, w))
		}
	case OLut:
		lt := c.luts[x.k]
		var n LutTab
		n.w = w
		for i := range n.tab {
			n.tab[i] = lt.tab[i] >> lo & mask(w)
		}
		return c.Lut(&n, x.a[0])
	}
	return c.mk(OExtract, w, uint64(lo), "", x)
}

// lowBits: the value of the n lowest bits, when it does not depend on any variable.
func (x *T) lowBits(n uint8) (uint64, bool) {
	switch x.op {
	case OConst:
		return x.k & mask(n), true
	case OConcat:
		if l := x.a[len(x.a)-1]; l.w >= n {
			return l.lowBits(n)
		} else if l.isC() && len(x.a) == 2 {
			k, ok := x.a[0].lowBits(n - l.w)
			return k<<l.w | l.k, ok
		}
	case OAdd, OMul:
		if x.op == OMul && x.a[1].isC() && x.a[1].k&mask(n) == 0 {
			return 0, true
		}
		p, ok := x.a[0].lowBits(n)
		if !ok {
			return 0, false
		}
		q, ok := x.a[1].lowBits(n)
		if x.op == OAdd {
			return (p + q) & mask(n), ok
		}
		return p * q & mask(n), ok
	}
	return 0, false
}

func (x *T) depthLe(n int) bool {
	if n == 0 {
		return false
	}
	if x.op == OXor || x.op == OAnd || x.op == OOr {
		return x.a[0].depthLe(n-1) && x.a[1].depthLe(n-1)
	}
	return true
}

func (c *Ctx) Zext(x *T, w uint8) *T {
	if w == x.w {
		return x
	}
	if w < x.w {
		return c.Extract(x, 0, w)
	}
	return c.Concat(c.Const(w-x.w, 0), x)
}
func (c *Ctx) Sext(x *T, w uint8) *T {
	if w == x.w {
		return x
	}
	if w < x.w {
		return c.Extract(x, 0, w)
	}
	if x.isC() {
		v := x.k
		if v>>(x.w-1)&1 == 1 {
			v |= ^mask(x.w)
		}
		return c.Const(w, v)
	}
	// top bit known zero
	if x.op == OConcat && x.a[0].isC() && x.a[0].k>>(x.a[0].w-1) == 0 {
		return c.Zext(x, w)
	}
	if x.op == OLut {
		lt := c.luts[x.k]
		var n LutTab
		n.w = w
		for i := range n.tab {
			v := lt.tab[i]
			if v>>(x.w-1)&1 == 1 {
				v |= ^mask(x.w)
			}
			n.tab[i] = v & mask(w)
		}
		return c.Lut(&n, x.a[0])
	}
	return c.mk(OSext, w, 0, "", x)
}

func (c *Ctx) ShlK(x *T, n uint64) *T {
	if n >= uint64(x.w) {
		return c.Const(x.w, 0)
	}
	if n == 0 {
		return x
	}
	if x.idx && x.w == 64 && n < 32 {
		return c.Mul(x, c.Const(64, 1<<n))
	}
	return c.Concat(c.Extract(x, 0, x.w-uint8(n)), c.Const(uint8(n), 0))
}
func (c *Ctx) LshrK(x *T, n uint64) *T {
	if n >= uint64(x.w) {
		return c.Const(x.w, 0)
	}
	if n == 0 {
		return x
	}
	if x.idx && x.w == 64 {
		if q, _, ok := c.splitDiv(x, 1<<n); ok {
			return q
		}
	}
	return c.Concat(c.Const(uint8(n), 0), c.Extract(x, uint8(n), x.w-uint8(n)))
}
func (c *Ctx) AshrK(x *T, n uint64) *T {
	if n >= uint64(x.w) {
		n = uint64(x.w) - 1
	}
	if n == 0 {
		return x
	}
	if x.idx && x.w == 64 {
		if _, h := c.Range(x); h < 1<<63 {
			return c.LshrK(x, n)
		}
	}
	return c.Sext(c.Extract(x, uint8(n), x.w-uint8(n)), x.w)
}

// variable shifts, Go semantics (amount unsigned of any width)
func (c *Ctx) Shift(op Op, x, n *T) *T {
	if n.isC() {
		switch op {
		case OShlV:
			return c.ShlK(x, n.k)
		case OLshrV:
			return c.LshrK(x, n.k)
		default:
			return c.AshrK(x, n.k)
		}
	}
	if x.isCV(0) {
		return x
	}
	if n.w < 64 {
		n = c.Zext(n, 64)
	}
	return c.mk(op, x.w, 0, "", x, n)
}

// ---- arithmetic

type linf struct {
	m map[*T]uint64
	k uint64
}

func (c *Ctx) lin(t *T, mul uint64, l *linf) {
	switch t.op {
	case OConst:
		l.k += mul * t.k
	case OAdd:
		c.lin(t.a[0], mul, l)
		c.lin(t.a[1], mul, l)
	case OSub:
		c.lin(t.a[0], mul, l)
		c.lin(t.a[1], -mul, l)
	case OMul:
		if t.a[1].isC() {
			c.lin(t.a[0], mul*t.a[1].k, l)
			return
		}
		l.m[t] += mul
	default:
		l.m[t] += mul
	}
}

func (c *Ctx) fromLin(w uint8, l *linf) *T {
	var ks []*T
	for t, k := range l.m {
		if k&mask(w) != 0 {
			ks = append(ks, t)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var r *T
	var neg []*T
	for _, t := range ks {
		k := l.m[t] & mask(w)
		if k == mask(w) { // -1
			neg = append(neg, t)
			continue
		}
		x := t
		if k != 1 {
			x = c.mk(OMul, w, 0, "", t, c.Const(w, k))
		}
		if r == nil {
			r = x
		} else {
			r = c.mk(OAdd, w, 0, "", r, x)
		}
	}
	kk := c.Const(w, l.k)
	if r == nil {
		r = kk
		if len(neg) == 0 {
			return r
		}
	} else if !kk.isCV(0) {
		r = c.mk(OAdd, w, 0, "", r, kk)
	}
	for _, t := range neg {
		r = c.mk(OSub, w, 0, "", r, t)
	}
	return r
}

func (c *Ctx) linCanon(op Op, x, y *T) *T {
	l := &linf{m: map[*T]uint64{}}
	c.lin(x, 1, l)
	switch op {
	case OAdd:
		c.lin(y, 1, l)
	case OSub:
		c.lin(y, ^uint64(0), l)
	}
	return c.fromLin(x.w, l)
}

func (c *Ctx) Add(x, y *T) *T {
	if x.w != y.w {
		panic("add width")
	}
	x, y = sort2(x, y)
	if x.isC() && y.isC() {
		return c.Const(x.w, x.k+y.k)
	}
	if y.isCV(0) {
		return x
	}
	if x.idx && y.idx {
		return c.linCanon(OAdd, x, y)
	}
	if y.isC() && x.op == OAdd && x.a[1].isC() {
		return c.Add(x.a[0], c.Const(x.w, x.a[1].k+y.k))
	}
	if x.w == 1 {
		return c.Xor(x, y)
	}
	if x.op == OSub && x.a[1] == y {
		return x.a[0]
	}
	if y.op == OSub && y.a[1] == x {
		return y.a[0]
	}
	if r := c.mergeDisjoint(x, y); r != nil {
		return r
	}
	return c.mk(OAdd, x.w, 0, "", x, y)
}
func (c *Ctx) Sub(x, y *T) *T {
	if x.w != y.w {
		panic("sub width")
	}
	if x.isC() && y.isC() {
		return c.Const(x.w, x.k-y.k)
	}
	if y.isCV(0) {
		return x
	}
	if x == y {
		return c.Const(x.w, 0)
	}
	if x.idx && y.idx {
		return c.linCanon(OSub, x, y)
	}
	if x.w == 1 {
		return c.Xor(x, y)
	}
	if y.isC() && !x.idx {
		return c.Add(x, c.Const(x.w, -y.k))
	}
	if x.op == OAdd {
		if x.a[0] == y {
			return x.a[1]
		}
		if x.a[1] == y {
			return x.a[0]
		}
	}
	return c.mk(OSub, x.w, 0, "", x, y)
}
func (c *Ctx) Neg(x *T) *T { return c.Sub(c.Const(x.w, 0), x) }

func (c *Ctx) Mul(x, y *T) *T {
	x, y = sort2(x, y)
	if x.isC() && y.isC() {
		return c.Const(x.w, x.k*y.k)
	}
	if y.isC() {
		if y.k == 0 {
			return y
		}
		if y.k == 1 {
			return x
		}
		if x.idx {
			l := &linf{m: map[*T]uint64{}}
			c.lin(x, y.k, l)
			return c.fromLin(x.w, l)
		}
		if bits.OnesCount64(y.k) == 1 {
			return c.ShlK(x, uint64(bits.TrailingZeros64(y.k)))
		}
	}
	if x.w == 1 {
		return c.And(x, y)
	}
	return c.mk(OMul, x.w, 0, "", x, y)
}
func (c *Ctx) MulHi(x, y *T) *T {
	x, y = sort2(x, y)
	if x.isC() && y.isC() {
		h, _ := bits.Mul64(x.k, y.k)
		return c.Const(64, h)
	}
	if y.isCV(0) || y.isCV(1) {
		return c.Const(64, 0)
	}
	return c.mk(OMulHi, 64, 0, "", x, y)
}

func (c *Ctx) Adc(x, y, ci *T) (s, co *T) {
	if ci.w != 1 {
		panic("adc carry width")
	}
	if ci.isCV(0) {
		s = c.Add(x, y)
		if x.isC() && y.isC() {
			_, cc := bits.Add64(x.k, y.k, 0)
			if x.w < 64 {
				cc = (x.k + y.k) >> x.w & 1
			}
			return s, c.Const(1, cc)
		}
		if x.isCV(0) || y.isCV(0) {
			return s, c.Const(1, 0)
		}
		x, y = sort2(x, y)
		return s, c.mk(OAdcC, 1, 0, "", x, y, ci)
	}
	if ci.isC() && x.isC() && y.isC() {
		v, cc := bits.Add64(x.k, y.k, ci.k)
		if x.w < 64 {
			cc = v >> x.w & 1
		}
		return c.Const(x.w, v), c.Const(1, cc)
	}
	x, y = sort2(x, y)
	if x.isC() && y.isC() {
		v, cc := bits.Add64(x.k, y.k, 0)
		if cc == 0 && v == 0 {
			return c.Zext(ci, x.w), c.Const(1, 0)
		}
		if cc == 0 && v != mask(x.w) && x.w == 64 {
			return c.mk(OAdc, x.w, 0, "", x, y, ci), c.Const(1, 0)
		}
		if x.w == 64 && cc == 0 && v == mask(64) { // -1 + c
			return c.mk(OAdc, x.w, 0, "", x, y, ci), ci
		}
	}
	return c.mk(OAdc, x.w, 0, "", x, y, ci), c.mk(OAdcC, 1, 0, "", x, y, ci)
}
func (c *Ctx) Sbb(x, y, bi *T) (d, bo *T) {
	if bi.isCV(0) {
		d = c.Sub(x, y)
		if x.isC() && y.isC() {
			return d, c.Bool(x.k < y.k)
		}
		if y.isCV(0) || x == y {
			return d, c.Const(1, 0)
		}
		return d, c.mk(OSbbB, 1, 0, "", x, y, bi)
	}
	if bi.isC() && x.isC() && y.isC() {
		v, b := bits.Sub64(x.k, y.k, bi.k)
		return c.Const(x.w, v), c.Const(1, b)
	}
	if x == y {
		return c.Sext(bi, x.w), bi
	}
	return c.mk(OSbb, x.w, 0, "", x, y, bi), c.mk(OSbbB, 1, 0, "", x, y, bi)
}

func (c *Ctx) Eq(x, y *T) *T {
	if x.w != y.w {
		panic("eq width")
	}
	x, y = sort2(x, y)
	if x == y {
		return c.Bool(true)
	}
	if x.isC() && y.isC() {
		return c.Bool(x.k == y.k)
	}
	if x.w == 1 && y.isC() {
		if y.k == 1 {
			return x
		}
		return c.Not(x)
	}
	if x.idx && y.idx {
		d := c.linCanon(OSub, x, y)
		if d.isC() {
			return c.Bool(d.k == 0)
		}
		if l1, h1 := c.Range(x); true {
			l2, h2 := c.Range(y)
			if h1 < l2 || h2 < l1 {
				return c.Bool(false)
			}
		}
	}
	if y.isC() && x.op == OXor && x.a[1].isC() {
		return c.Eq(x.a[0], c.Const(x.w, x.a[1].k^y.k))
	}
	if y.isC() && x.op == OConcat {
		r := c.Bool(true)
		lo := x.w
		for _, p := range x.a {
			lo -= p.w
			e := c.Eq(p, c.Const(p.w, y.k>>lo))
			if e.isCV(0) {
				return e
			}
			r = c.And(r, e)
		}
		return r
	}
	if y.isC() && x.op == OIte && (x.a[1].isC() || x.a[2].isC()) {
		return c.Ite(x.a[0], c.Eq(x.a[1], y), c.Eq(x.a[2], y))
	}
	if y.isC() && x.op == OSext {
		in := x.a[0]
		v := y.k & mask(in.w)
		if c.Sext(c.Const(in.w, v), x.w) == y {
			return c.Eq(in, c.Const(in.w, v))
		}
		return c.Bool(false)
	}
	if !x.isC() && !y.isC() {
		h1 := c.ubound(x)
		h2 := c.ubound(y)
		_, _ = h1, h2
	} else if y.isC() && c.ubound(x) < y.k {
		return c.Bool(false)
	}
	return c.mk(OEq, 1, 0, "", x, y)
}

// ubound: cheap unsigned upper bound
func (c *Ctx) ubound(x *T) uint64 {
	_, h := c.Range(x)
	return h
}

// Range: cheap unsigned interval
func (c *Ctx) Range(x *T) (uint64, uint64) {
	switch x.op {
	case OConst:
		return x.k, x.k
	case OVar:
		return x.lo, x.hi
	case OAdd:
		l0, h0 := c.Range(x.a[0])
		if y := x.a[1]; y.isC() && int64(y.k) < 0 && x.w == 64 {
			m := -y.k
			if l0 >= m {
				return l0 - m, h0 - m
			}
			return 0, mask(x.w)
		}
		l1, h1 := c.Range(x.a[1])
		s, cc := bits.Add64(h0, h1, 0)
		if cc == 0 && s <= mask(x.w) {
			return l0 + l1, s
		}
	case OSub:
		l0, h0 := c.Range(x.a[0])
		l1, h1 := c.Range(x.a[1])
		if l0 >= h1 {
			return l0 - h1, h0 - l1
		}
	case OMul:
		l0, h0 := c.Range(x.a[0])
		l1, h1 := c.Range(x.a[1])
		hh, ll := bits.Mul64(h0, h1)
		if hh == 0 && ll <= mask(x.w) {
			return l0 * l1, ll
		}
	case OConcat:
		var lo, hi uint64
		for _, p := range x.a {
			l, h := c.Range(p)
			lo = lo<<p.w | l
			hi = hi<<p.w | h
		}
		return lo, hi
	case OExtract:
		l, h := c.Range(x.a[0])
		if x.k > 0 {
			l >>= x.k
			h >>= x.k
		}
		if h <= mask(x.w) {
			return l, h
		}
	case OAnd:
		h0 := c.ubound(x.a[0])
		h1 := c.ubound(x.a[1])
		if h1 < h0 {
			h0 = h1
		}
		return 0, h0
	case OIte:
		l0, h0 := c.Range(x.a[1])
		l1, h1 := c.Range(x.a[2])
		if l1 < l0 {
			l0 = l1
		}
		if h1 > h0 {
			h0 = h1
		}
		return l0, h0
	case OUrem:
		if x.a[1].isC() && x.a[1].k > 0 {
			h := c.ubound(x.a[0])
			if h > x.a[1].k-1 {
				h = x.a[1].k - 1
			}
			return 0, h
		}
	case OUdiv:
		if x.a[1].isC() && x.a[1].k > 0 {
			l, h := c.Range(x.a[0])
			return l / x.a[1].k, h / x.a[1].k
		}
	}
	return 0, mask(x.w)
}

func (c *Ctx) Ult(x, y *T) *T {
	if x.w != y.w {
		panic("ult width")
	}
	if x == y {
		return c.Bool(false)
	}
	l0, h0 := c.Range(x)
	l1, h1 := c.Range(y)
	if h0 < l1 {
		return c.Bool(true)
	}
	if l0 >= h1 {
		return c.Bool(false)
	}
	return c.mk(OUlt, 1, 0, "", x, y)
}
func (c *Ctx) Ule(x, y *T) *T { return c.Not(c.Ult(y, x)) }
func (c *Ctx) Slt(x, y *T) *T {
	if x == y {
		return c.Bool(false)
	}
	h := mask(x.w) >> 1
	l0, h0 := c.Range(x)
	l1, h1 := c.Range(y)
	if h0 <= h && h1 <= h {
		if h0 < l1 {
			return c.Bool(true)
		}
		if l0 >= h1 {
			return c.Bool(false)
		}
		return c.Ult(x, y)
	}
	if x.isC() && y.isC() {
		sx := int64(x.k<<(64-x.w)) >> (64 - x.w)
		sy := int64(y.k<<(64-y.w)) >> (64 - y.w)
		return c.Bool(sx < sy)
	}
	// x known negative constant vs nonneg etc.
	if x.isC() && x.k > h && h1 <= h {
		return c.Bool(true)
	}
	if y.isC() && y.k > h && h0 <= h {
		return c.Bool(false)
	}
	if x.op == OLut && y.isC() {
		return c.lutPred(x, func(v uint64) bool { return sgn(v, x.w) < sgn(y.k, y.w) })
	}
	if y.op == OLut && x.isC() {
		return c.lutPred(y, func(v uint64) bool { return sgn(x.k, x.w) < sgn(v, y.w) })
	}
	return c.mk(OSlt, 1, 0, "", x, y)
}
func sgn(v uint64, w uint8) int64 { return int64(v<<(64-w)) >> (64 - w) }

func (c *Ctx) lutPred(x *T, f func(uint64) bool) *T {
	lt := c.luts[x.k]
	var n LutTab
	n.w = 1
	for i := range n.tab {
		if f(lt.tab[i]) {
			n.tab[i] = 1
		}
	}
	return c.Lut(&n, x.a[0])
}

func (c *Ctx) Ite(b, x, y *T) *T {
	if x.w != y.w {
		panic("ite width")
	}
	if b.isC() {
		if b.k == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if b.op == OXor && b.a[1].isCV(1) {
		return c.Ite(b.a[0], y, x)
	}
	if x.w == 1 && x.isC() && y.isC() {
		if x.k == 1 {
			return b
		}
		return c.Not(b)
	}
	if x.w == 1 {
		if x.isCV(1) {
			return c.Or(b, y)
		}
		if x.isCV(0) {
			return c.And(c.Not(b), y)
		}
		if y.isCV(1) {
			return c.Or(c.Not(b), x)
		}
		if y.isCV(0) {
			return c.And(b, x)
		}
	}
	return c.mk(OIte, x.w, 0, "", b, x, y)
}

func (c *Ctx) Udiv(x, y *T) *T {
	if x.isC() && y.isC() && y.k != 0 {
		return c.Const(x.w, x.k/y.k)
	}
	if y.isC() && bits.OnesCount64(y.k) == 1 {
		return c.LshrK(x, uint64(bits.TrailingZeros64(y.k)))
	}
	if y.isC() && y.k != 0 && c.ubound(x) < y.k {
		return c.Const(x.w, 0)
	}
	// (q*k + r)/k with linear idx terms
	if x.idx && y.isC() {
		if q, _, ok := c.splitDiv(x, y.k); ok {
			return q
		}
	}
	return c.mk(OUdiv, x.w, 0, "", x, y)
}

// splitDiv writes x = k*q + r with 0<=r<k when the linear form shows it
// (assumes no wrap-around, justified by the variables' ranges).
func (c *Ctx) splitDiv(x *T, k uint64) (q, r *T, ok bool) {
	l := &linf{m: map[*T]uint64{}}
	c.lin(x, 1, l)
	lq := &linf{m: map[*T]uint64{}}
	lr := &linf{m: map[*T]uint64{}}
	for t, cf := range l.m {
		if int64(cf) < 0 {
			return nil, nil, false
		}
		if cf%k == 0 {
			lq.m[t] = cf / k
		} else {
			lr.m[t] = cf
		}
	}
	if int64(l.k) < 0 {
		return nil, nil, false
	}
	lq.k = l.k / k
	lr.k = l.k % k
	if len(lq.m) == 0 && lq.k == 0 {
		return nil, nil, false
	}
	q = c.fromLin(64, lq)
	r = c.fromLin(64, lr)
	if _, h := c.Range(r); h >= k {
		return nil, nil, false
	}
	if _, h := c.Range(x); h == mask(64) {
		return nil, nil, false
	}
	return q, r, true
}

func (c *Ctx) Urem(x, y *T) *T {
	if x.isC() && y.isC() && y.k != 0 {
		return c.Const(x.w, x.k%y.k)
	}
	if y.isC() && bits.OnesCount64(y.k) == 1 && !x.idx {
		return c.And(x, c.Const(x.w, y.k-1))
	}
	if y.isC() && y.k != 0 && c.ubound(x) < y.k {
		return x
	}
	if x.idx && y.isC() {
		if _, r, ok := c.splitDiv(x, y.k); ok {
			return r
		}
	}
	if y.isC() && bits.OnesCount64(y.k) == 1 {
		return c.And(x, c.Const(x.w, y.k-1))
	}
	return c.mk(OUrem, x.w, 0, "", x, y)
}

// ---- lookup tables

func (c *Ctx) lutID(l *LutTab) int {
	var b [1 + 256*8]byte
	b[0] = l.w
	for i, v := range l.tab {
		for j := 0; j < 8; j++ {
			b[1+i*8+j] = byte(v >> (8 * j))
		}
	}
	k := string(b[:])
	if id, ok := c.lutIdx[k]; ok {
		return id
	}
	n := *l
	c.luts = append(c.luts, &n)
	c.lutIdx[k] = len(c.luts) - 1
	return len(c.luts) - 1
}

// Lut applies a 256-entry table to an 8-bit term.
func (c *Ctx) Lut(l *LutTab, x *T) *T {
	if x.w != 8 {
		panic("lut index width")
	}
	if x.isC() {
		return c.Const(l.w, l.tab[x.k])
	}
	same := true
	id := l.w == 8
	for i, v := range l.tab {
		if v != l.tab[0] {
			same = false
		}
		if v != uint64(i) {
			id = false
		}
	}
	if same {
		return c.Const(l.w, l.tab[0])
	}
	if id {
		return x
	}
	if x.op == OXor && x.a[1].isC() {
		var n LutTab
		n.w = l.w
		for i := range n.tab {
			n.tab[i] = l.tab[uint64(i)^x.a[1].k]
		}
		return c.Lut(&n, x.a[0])
	}
	if x.op == OLut {
		in := c.luts[x.k]
		var n LutTab
		n.w = l.w
		for i := range n.tab {
			n.tab[i] = l.tab[in.tab[i]]
		}
		return c.Lut(&n, x.a[0])
	}
	return c.mk(OLut, l.w, uint64(c.lutID(l)), "", x)
}

func (t *T) String() string { return t.str(6) }
func (t *T) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 64 && t.k < 1<<20 {
			return fmt.Sprint(t.k)
		}
		return fmt.Sprintf("0x%x:%d", t.k, t.w)
	case OVar:
		return t.name
	}
	if d == 0 {
		return "..."
	}
	var s []string
	for _, a := range t.a {
		s = append(s, a.str(d-1))
	}
	n := opNames[t.op]
	switch t.op {
	case OExtract:
		n = fmt.Sprintf("ext[%d+:%d]", t.k, t.w)
	case ORotl, OLut:
		n = fmt.Sprintf("%s%d", n, t.k)
	case OUF:
		n = t.name
	}
	return n + "(" + strings.Join(s, ",") + ")"
}

func (c *Ctx) nextID() int { c.nofresh++; return c.nofresh }
