package main

// Normal forms that decide equality of cipher/hash terms:
//  - word level: algebraic normal form over GF(2) with rotated atoms and
//    per-monomial bit masks; additions are canonical linear atoms mod 2^w
//  - byte level: XOR of lookup tables over interned index atoms

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
)

type nfCap struct{}

type NF struct {
	c      *Ctx
	memo   map[*T]wpoly
	bar    map[*T]barrier
	ids    map[string]uint32
	atoms  map[*T]uint32
	cap    int
	b8     map[bkey]*lin8
	batoms map[string]uint32
	nb     uint32
	NMono  int
	defs   map[uint32]linDef
	kp     map[uint32]wpoly // polynomial behind a key
}
type linDef struct {
	w uint8
	k uint64
	m map[uint32]uint64
}
type bkey struct {
	t  *T
	lo uint8
}

type barrier struct {
	atom uint32
	k    uint64 // the value is atom ^ k
}

type wpoly map[string]uint64 // monomial -> bit mask

func NewNF(c *Ctx) *NF {
	return &NF{c: c, memo: map[*T]wpoly{}, bar: map[*T]barrier{}, ids: map[string]uint32{}, atoms: map[*T]uint32{}, cap: 60000, b8: map[bkey]*lin8{}, batoms: map[string]uint32{}, defs: map[uint32]linDef{}, kp: map[uint32]wpoly{}}
}

func (n *NF) intern(s string) uint32 {
	if i, ok := n.ids[s]; ok {
		return i
	}
	i := uint32(len(n.ids) + 1)
	n.ids[s] = i
	return i
}

func encM(id uint32, rot uint8) string {
	var b [5]byte
	binary.BigEndian.PutUint32(b[:], id)
	b[4] = rot
	return string(b[:])
}

func mulM(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" || a == b {
		return a
	}
	// merge sorted 5-byte items, removing duplicates
	out := make([]byte, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		x, y := a[i:i+5], b[j:j+5]
		switch {
		case x < y:
			out = append(out, x...)
			i += 5
		case x > y:
			out = append(out, y...)
			j += 5
		default:
			out = append(out, x...)
			i += 5
			j += 5
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return string(out)
}

func rotMask(v uint64, k uint64, w uint8) uint64 {
	k %= uint64(w)
	return (v<<k | v>>(uint64(w)-k)) & mask(w)
}

func (n *NF) add(p, q wpoly) wpoly {
	if len(p) < len(q) {
		p, q = q, p
	}
	r := make(wpoly, len(p)+len(q))
	for k, v := range p {
		r[k] = v
	}
	for k, v := range q {
		if x := r[k] ^ v; x == 0 {
			delete(r, k)
		} else {
			r[k] = x
		}
	}
	return r
}
func (n *NF) mul(p, q wpoly) wpoly {
	if len(p)*len(q) > n.cap {
		panic(nfCap{})
	}
	r := make(wpoly, len(p)*len(q))
	for a, x := range p {
		for b, y := range q {
			if z := x & y; z != 0 {
				m := mulM(a, b)
				if v := r[m] ^ z; v == 0 {
					delete(r, m)
				} else {
					r[m] = v
				}
			}
		}
	}
	n.NMono += len(p) * len(q)
	return r
}
func (n *NF) rot(p wpoly, k uint64, w uint8) wpoly {
	r := make(wpoly, len(p))
	for m, v := range p {
		b := []byte(m)
		var items []string
		for i := 0; i < len(b); i += 5 {
			b[i+4] = byte((uint64(b[i+4]) + k) % uint64(w))
			items = append(items, string(b[i:i+5]))
		}
		if len(items) > 1 {
			sort.Strings(items)
		}
		r[strings.Join(items, "")] = rotMask(v, k, w)
	}
	return r
}
func (n *NF) cst(w uint8, v uint64) wpoly {
	if v&mask(w) == 0 {
		return wpoly{}
	}
	return wpoly{"": v & mask(w)}
}

// Poly returns the normal form of t.
func (n *NF) Poly(t *T) wpoly {
	if p, ok := n.memo[t]; ok {
		return p
	}
	var p wpoly
	if b, ok := n.bar[t]; ok {
		p = wpoly{encM(b.atom, 0): mask(t.w)}
		if b.k != 0 {
			p[""] = b.k
		}
	} else {
		switch t.op {
		case OConst:
			p = n.cst(t.w, t.k)
		case OXor:
			p = n.add(n.Poly(t.a[0]), n.Poly(t.a[1]))
		case OAnd:
			p = n.mul(n.Poly(t.a[0]), n.Poly(t.a[1]))
		case OOr:
			a, b := n.Poly(t.a[0]), n.Poly(t.a[1])
			p = n.add(n.add(a, b), n.mul(a, b))
		case ORotl:
			p = n.rot(n.Poly(t.a[0]), t.k, t.w)
		case OIte:
			if t.w == 1 {
				c, a, b := n.Poly(t.a[0]), n.Poly(t.a[1]), n.Poly(t.a[2])
				p = n.add(b, n.mul(c, n.add(a, b)))
			} else {
				p = n.atomPoly(t)
			}
		case OAdd, OSub:
			p = n.linPoly(t)
		case OMul:
			if t.a[1].isC() {
				p = n.linPoly(t)
			} else {
				p = n.atomPoly(t)
			}
		default:
			p = n.atomPoly(t)
		}
	}
	if len(p) > n.cap {
		panic(nfCap{})
	}
	n.memo[t] = p
	return p
}

// Key is a canonical identifier of the polynomial.
func (n *NF) Key(p wpoly, w uint8) uint32 {
	ks := make([]string, 0, len(p))
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	fmt.Fprintf(&b, "P%d:", w)
	for _, k := range ks {
		b.WriteByte(byte(len(k) / 5))
		b.WriteString(k)
		var q [8]byte
		binary.LittleEndian.PutUint64(q[:], p[k])
		b.Write(q[:])
	}
	id := n.intern(b.String())
	n.kp[id] = p
	return id
}

func (n *NF) atomPoly(t *T) wpoly {
	id, ok := n.atoms[t]
	if !ok {
		var b strings.Builder
		fmt.Fprintf(&b, "A%s:%d:%d:%s", opNames[t.op], t.w, t.k, t.name)
		for _, a := range t.a {
			fmt.Fprintf(&b, ":%d", n.Key(n.Poly(a), a.w))
		}
		id = n.intern(b.String())
		n.atoms[t] = id
	}
	return wpoly{encM(id, 0): mask(t.w)}
}

// linPoly: sums modulo 2^w.
func (n *NF) linPoly(t *T) wpoly {
	l := linDef{w: t.w, m: map[uint32]uint64{}}
	n.collect(t, 1, &l, true)
	for k, v := range l.m {
		if v&mask(t.w) == 0 {
			delete(l.m, k)
		}
	}
	l.k &= mask(t.w)
	if len(l.m) == 0 {
		return n.cst(t.w, l.k)
	}
	if len(l.m) == 1 && l.k == 0 {
		for k, v := range l.m {
			if v&mask(t.w) == 1 {
				return n.kp[k]
			}
		}
	}
	var ks []uint32
	for k := range l.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	var b strings.Builder
	fmt.Fprintf(&b, "L%d:%d", t.w, l.k)
	for _, k := range ks {
		fmt.Fprintf(&b, ":%d*%d", k, l.m[k]&mask(t.w))
	}
	id := n.intern(b.String())
	n.defs[id] = l
	return wpoly{encM(id, 0): mask(t.w)}
}

func (n *NF) collect(t *T, mul uint64, l *linDef, top bool) {
	if _, ok := n.bar[t]; !ok || top {
		switch t.op {
		case OConst:
			l.k += mul * t.k
			return
		case OAdd:
			n.collect(t.a[0], mul, l, false)
			n.collect(t.a[1], mul, l, false)
			return
		case OSub:
			n.collect(t.a[0], mul, l, false)
			n.collect(t.a[1], -mul, l, false)
			return
		case OMul:
			if t.a[1].isC() {
				n.collect(t.a[0], mul*t.a[1].k, l, false)
				return
			}
		}
	}
	p := n.Poly(t)
	// ~x = -x-1
	if p[""] == mask(t.w) {
		q := n.add(p, n.cst(t.w, mask(t.w)))
		l.k -= mul
		mul = -mul
		p = q
	}
	if len(p) == 0 {
		return
	}
	if len(p) == 1 {
		if v, ok := p[""]; ok {
			l.k += mul * v
			return
		}
		// an interned sum: flatten
		for m, v := range p {
			if len(m) == 5 && m[4] == 0 && v == mask(t.w) {
				id := binary.BigEndian.Uint32([]byte(m[:4]))
				if d, ok := n.defs[id]; ok && d.w == t.w {
					l.k += mul * d.k
					for k, c := range d.m {
						l.m[k] += mul * c
					}
					return
				}
			}
		}
	}
	k := n.Key(p, t.w)
	l.m[k] += mul
}

func polyEq(p, q wpoly) bool {
	if len(p) != len(q) {
		return false
	}
	for k, v := range p {
		if q[k] != v {
			return false
		}
	}
	return true
}

// Equal decides t == u by normal forms ("proved", "unknown").
func (n *NF) Equal(t, u *T) (ok bool, err string) {
	if t == u {
		return true, ""
	}
	defer func() {
		if r := recover(); r != nil {
			if _, c := r.(nfCap); c {
				ok, err = false, "normal form too large"
				return
			}
			panic(r)
		}
	}()
	return polyEq(n.Poly(t), n.Poly(u)), ""
}

// Cut makes nodes proved equal up to the constants ks share one fresh atom.
func (n *NF) Cut(name string, nodes []*T, ks []uint64) {
	id := n.intern("C" + name)
	for i, c := range nodes {
		n.bar[c] = barrier{id, ks[i]}
		delete(n.memo, c)
	}
}

// reach collects the nodes reachable from roots.
func reach(roots ...*T) []*T {
	seen := map[*T]bool{}
	var out []*T
	var stack []*T
	for _, r := range roots {
		stack = append(stack, r)
	}
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[t] {
			continue
		}
		seen[t] = true
		out = append(out, t)
		stack = append(stack, t.a...)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// ---- byte level

type lin8 struct {
	k  byte
	m  map[uint32]*[256]byte
	id uint32 // interned identity of the part without the constant
}

func (n *NF) mk8(k byte, m map[uint32]*[256]byte) *lin8 {
	for a, t := range m {
		if t[0] != 0 {
			u := *t
			z := u[0]
			k ^= z
			for i := range u {
				u[i] ^= z
			}
			m[a] = &u
			t = &u
		}
		zero := true
		for _, v := range t {
			if v != 0 {
				zero = false
				break
			}
		}
		if zero {
			delete(m, a)
		}
	}
	var ks []uint32
	for a := range m {
		ks = append(ks, a)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	var b strings.Builder
	b.WriteString("B")
	for _, a := range ks {
		var q [4]byte
		binary.LittleEndian.PutUint32(q[:], a)
		b.Write(q[:])
		b.Write(m[a][:])
	}
	return &lin8{k, m, n.intern(b.String())}
}

func (n *NF) atom8(key string) *lin8 {
	id := n.intern("a8" + key)
	var t [256]byte
	for i := range t {
		t[i] = byte(i)
	}
	return n.mk8(0, map[uint32]*[256]byte{id: &t})
}

func (n *NF) xor8(p, q *lin8) *lin8 {
	m := map[uint32]*[256]byte{}
	for a, t := range p.m {
		m[a] = t
	}
	for a, t := range q.m {
		if o, ok := m[a]; ok {
			u := *o
			for i := range u {
				u[i] ^= t[i]
			}
			m[a] = &u
		} else {
			m[a] = t
		}
	}
	return n.mk8(p.k^q.k, m)
}

func affine(t *[256]byte) bool {
	for i := 1; i < 256; i++ {
		l := i & -i
		if i != l && t[i]^t[0] != t[l]^t[i^l] {
			return false
		}
	}
	return true
}

func (n *NF) lut8(t *[256]byte, p *lin8) *lin8 {
	if len(p.m) == 0 {
		return n.mk8(t[p.k], map[uint32]*[256]byte{})
	}
	if affine(t) {
		m := map[uint32]*[256]byte{}
		for a, u := range p.m {
			var v [256]byte
			for i := range v {
				v[i] = t[u[i]] ^ t[0]
			}
			m[a] = &v
		}
		return n.mk8(t[p.k], m)
	}
	if len(p.m) == 1 {
		for a, u := range p.m {
			var v [256]byte
			for i := range v {
				v[i] = t[u[i]^p.k]
			}
			return n.mk8(0, map[uint32]*[256]byte{a: &v})
		}
	}
	id := n.intern(fmt.Sprintf("s8:%d", p.id))
	var v [256]byte
	for i := range v {
		v[i] = t[byte(i)^p.k]
	}
	return n.mk8(0, map[uint32]*[256]byte{id: &v})
}

// Byte returns the normal form of bits [lo,lo+8) of t.
func (n *NF) Byte(t *T, lo uint8) *lin8 {
	k := bkey{t, lo}
	if p, ok := n.b8[k]; ok {
		return p
	}
	p := n.byte1(t, lo)
	n.b8[k] = p
	return p
}

func (n *NF) byte1(t *T, lo uint8) *lin8 {
	c := n.c
	switch t.op {
	case OConst:
		return n.mk8(byte(t.k>>lo), map[uint32]*[256]byte{})
	case OXor:
		return n.xor8(n.Byte(t.a[0], lo), n.Byte(t.a[1], lo))
	case OExtract:
		if t.k+uint64(lo)+8 <= uint64(t.a[0].w) {
			return n.Byte(t.a[0], lo+uint8(t.k))
		}
	case OConcat:
		pos := t.w
		for _, p := range t.a {
			pos -= p.w
			if lo >= pos && lo+8 <= pos+p.w {
				return n.Byte(p, lo-pos)
			}
		}
		// a byte assembled of smaller pieces: each piece as a table
		r := n.mk8(0, map[uint32]*[256]byte{})
		pos = t.w
		for _, p := range t.a {
			top := pos
			pos -= p.w
			if top <= lo || pos >= lo+8 {
				continue
			}
			l, h := pos, top
			if lo > l {
				l = lo
			}
			if lo+8 < h {
				h = lo + 8
			}
			q := c.Extract(p, l-pos, h-l)
			r = n.xor8(r, n.small(q, l-lo))
		}
		return r
	case ORotl:
		s := (uint64(lo) + uint64(t.w) - t.k) % uint64(t.w)
		if s+8 <= uint64(t.w) {
			return n.Byte(t.a[0], uint8(s))
		}
	case OLut:
		lt := c.luts[t.k]
		var tab [256]byte
		for i := range tab {
			tab[i] = byte(lt.tab[i] >> lo)
		}
		return n.lut8(&tab, n.Byte(t.a[0], 0))
	case OAnd:
		for i := 0; i < 2; i++ {
			if t.a[i].isC() {
				m := byte(t.a[i].k >> lo)
				var tab [256]byte
				for j := range tab {
					tab[j] = byte(j) & m
				}
				return n.lut8(&tab, n.Byte(t.a[1-i], lo))
			}
		}
	case OVar:
		return n.atom8(fmt.Sprintf("v%d.%d", t.id, lo))
	}
	return n.atom8(fmt.Sprintf("t%d.%d", t.id, lo))
}

// small: a term narrower than a byte placed at bit position sh.
func (n *NF) small(q *T, sh uint8) *lin8 {
	if q.isC() {
		return n.mk8(byte(q.k<<sh), map[uint32]*[256]byte{})
	}
	switch q.op {
	case OXor:
		return n.xor8(n.small(q.a[0], sh), n.small(q.a[1], sh))
	case OExtract:
		base := q.a[0]
		lo := uint8(q.k) / 8 * 8
		if uint8(q.k)+q.w <= lo+8 && lo+8 <= base.w {
			var tab [256]byte
			for j := range tab {
				tab[j] = byte((uint64(j)>>(uint8(q.k)-lo))&mask(q.w)) << sh
			}
			return n.lut8(&tab, n.Byte(base, lo))
		}
	case OLut:
		lt := n.c.luts[q.k]
		var tab [256]byte
		for j := range tab {
			tab[j] = byte(lt.tab[j]) << sh
		}
		return n.lut8(&tab, n.Byte(q.a[0], 0))
	}
	id := n.intern(fmt.Sprintf("q%d.%d", q.id, sh))
	var v [256]byte
	for i := range v {
		v[i] = byte(uint64(i)&mask(q.w)) << sh
	}
	return n.mk8(0, map[uint32]*[256]byte{id: &v})
}

// EqualByte decides equality of two 8-bit terms.
func (n *NF) EqualByte(t, u *T) bool {
	if t == u {
		return true
	}
	p, q := n.Byte(t, 0), n.Byte(u, 0)
	return p.k == q.k && p.id == q.id
}
