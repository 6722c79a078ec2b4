package main

// Field arithmetic on word vectors: harness shared by C09 (CSIDH-512) and C13 (SIDH primes).

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type fpArg struct {
	name  string
	n     int      // words; 0: scalar
	pad   int      // further words of the object, which keep their value
	w     uint8    // scalar width
	max   *big.Int // largest admissible value (nil: any)
	out   bool     // pure output: contents on entry irrelevant
	t     string   // type: "ptr" default
	words []*T
	obj   *Obj
	p     *bpoly
	pads  []*T
}

type fpFn struct {
	pkg, fn string
	cfg     string // "amd64" or "noasm"
	flags   map[string]bool
	globals map[string]bool // package-level flags set directly
	args    []*fpArg
	alias   []int // args with the same number share an object
	outs    []int // args checked after the call
	scratch []int // args whose value afterwards is unspecified
	// spec: in[i] is the entry value of arg i, out[j] the exit value of outs[j], ret the result words
	spec func(b *BN, in []*bpoly, out []*bpoly, ret *T) error
	conc func(in []*big.Int, out []*big.Int, ret uint64) string
	// enumerate values of a scalar argument instead of treating it symbolically
	fixArg map[int]uint64
	limit  int
	x      *Exec
	keep   map[string][]*T
}

func (x *Exec) setFlag(st *State, pkg, name string, v bool) {
	sp := x.P.pkgs[pkgPath(pkg)]
	if sp == nil {
		unsup("package %s", pkg)
	}
	if g, ok := sp.Members[name].(*ssa.Global); ok {
		if o := x.globals[g]; o != nil {
			x.storeAt(st, o, 0, 1, x.C.Bool(v))
		}
	}
}

func (x *Exec) readWords(st *State, o *Obj, off int64, n int) []*T {
	r := make([]*T, n)
	for i := range r {
		r[i] = x.loadBits(st, o, off+int64(8*i), 8)
	}
	return r
}

func (x *Exec) wordObj(st *State, name string, ws []*T) *Obj {
	o := x.NewObj(st, name, int64(8*len(ws)))
	for i, w := range ws {
		x.storeAt(st, o, int64(8*i), 8, w)
	}
	return o
}

func aliasName(args []*fpArg, al []int) string {
	if al == nil {
		return ""
	}
	m := map[int][]string{}
	for i, a := range al {
		if args[i].n > 0 {
			m[a] = append(m[a], args[i].name)
		}
	}
	var s []string
	for _, v := range m {
		if len(v) > 1 {
			s = append(s, strings.Join(v, "=="))
		}
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// partitions of the pointer arguments of equal size.
func aliasings(args []*fpArg) [][]int {
	var r [][]int
	var rec func(i int, cur []int, k int)
	rec = func(i int, cur []int, k int) {
		if i == len(args) {
			r = append(r, append([]int(nil), cur...))
			return
		}
		for c := 0; c < k; c++ {
			ok := args[i].n > 0
			for j := 0; j < i; j++ {
				if cur[j] == c && args[j].n != args[i].n {
					ok = false
				}
			}
			if ok {
				rec(i+1, append(cur, c), k)
			}
		}
		rec(i+1, append(cur, k), k+1)
	}
	rec(0, nil, 0)
	return r
}

// rewrite rebuilds t with variables replaced.
func (c *Ctx) rewrite(t *T, sub map[*T]*T, memo map[*T]*T) *T {
	if r, ok := sub[t]; ok {
		return r
	}
	if len(t.a) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	a := make([]*T, len(t.a))
	same := true
	for i := range t.a {
		a[i] = c.rewrite(t.a[i], sub, memo)
		same = same && a[i] == t.a[i]
	}
	r := t
	if !same {
		r = c.rebuild(t, a)
	}
	memo[t] = r
	return r
}

func (c *Ctx) rebuild(t *T, a []*T) *T {
	switch t.op {
	case OAnd:
		return c.And(a[0], a[1])
	case OOr:
		return c.Or(a[0], a[1])
	case OXor:
		return c.Xor(a[0], a[1])
	case OAdd:
		return c.Add(a[0], a[1])
	case OSub:
		return c.Sub(a[0], a[1])
	case OAdc:
		r, _ := c.Adc(a[0], a[1], a[2])
		return r
	case OSbb:
		r, _ := c.Sbb(a[0], a[1], a[2])
		return r
	case OAdcC:
		_, r := c.Adc(a[0], a[1], a[2])
		return r
	case OSbbB:
		_, r := c.Sbb(a[0], a[1], a[2])
		return r
	case OMul:
		return c.Mul(a[0], a[1])
	case OMulHi:
		return c.MulHi(a[0], a[1])
	case OShlV, OLshrV, OAshrV:
		return c.Shift(t.op, a[0], a[1])
	case ORotl:
		return c.Rotl(a[0], t.k)
	case OExtract:
		return c.Extract(a[0], uint8(t.k), t.w)
	case OConcat:
		return c.Concat(a...)
	case OSext:
		return c.Sext(a[0], t.w)
	case OEq:
		return c.Eq(a[0], a[1])
	case OUlt:
		return c.Ult(a[0], a[1])
	case OSlt:
		return c.Slt(a[0], a[1])
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case OUF:
		return c.UF(t.w, t.name, a...)
	}
	return c.mk(t.op, t.w, t.k, t.name, a...)
}

// run executes the function symbolically and decides the specification. Where two inputs share an
// object, the result may also be shown to be the instance of the unshared case.
func (f *fpFn) run(r *Report) Res {
	in := map[int]bool{}
	share := false
	for i, a := range f.args {
		if f.alias != nil && a.n > 0 && !a.out {
			share = share || in[f.alias[i]]
			in[f.alias[i]] = true
		}
	}
	if !share || f.limit < 0 {
		return f.run1(r)
	}
	x := newX(f.cfg)
	defer x.Close()
	defer r.Merge(x)
	g := *f
	g.x = x
	g.keep = map[string][]*T{}
	z := g.run1(r)
	if z.OK || z.Status == "refuted" {
		return z
	}
	// separate inputs, same aliasing of the outputs with the first of them
	h := *f
	h.x = x
	h.keep = map[string][]*T{}
	h.alias = append([]int(nil), f.alias...)
	first := map[int]int{}
	for i, a := range f.args {
		if a.n > 0 && !a.out {
			if _, dup := first[f.alias[i]]; dup {
				h.alias[i] = 100 + i
			} else {
				first[f.alias[i]] = i
			}
		}
	}
	z2 := h.run1(r)
	if !z2.OK {
		return z
	}
	sub := map[*T]*T{}
	for i, a := range f.args {
		if a.n > 0 {
			for k, t := range h.keep["in"+a.name] {
				if h.alias[i] >= 100 {
					sub[t] = g.keep["in"+a.name][k]
				}
			}
		}
	}
	memo := map[*T]*T{}
	if len(h.keep["out"]) != len(g.keep["out"]) {
		return z
	}
	for k, t := range h.keep["out"] {
		if x.C.rewrite(t, sub, memo) != g.keep["out"][k] {
			return z
		}
	}
	z2.Detail += "; instance of the case of separate operands"
	return z2
}

func (f *fpFn) run1(r *Report) Res {
	x := f.x
	if x == nil {
		x = newX(f.cfg)
		defer x.Close()
		defer r.Merge(x)
	}
	x.cpuFlags = f.flags
	c := x.C
	st := x.NewState()
	for k, v := range f.globals {
		x.setFlag(st, f.pkg, k, v)
	}
	fn := x.P.MustFn(f.pkg, f.fn)
	objs := map[int]*Obj{}
	var vals []Value
	args := make([]*fpArg, len(f.args))
	for i := range f.args {
		a := *f.args[i]
		args[i] = &a
		if a.n == 0 {
			w := a.w
			if v, ok := f.fixArg[i]; ok {
				args[i].words = []*T{c.Const(w, v)}
			} else {
				args[i].words = []*T{c.Var(w, a.name)}
			}
			vals = append(vals, args[i].words[0])
			continue
		}
		g := i
		if f.alias != nil {
			g = f.alias[i]
		}
		if o, ok := objs[g]; ok {
			args[i].obj = o
			for j := 0; j < i; j++ {
				if args[j].obj == o && (args[i].words == nil) {
					args[i].words = args[j].words
				}
			}
		} else {
			for k := 0; k < a.n; k++ {
				args[i].words = append(args[i].words, c.Var(64, fmt.Sprintf("%s[%d]", a.name, k)))
			}
			for k := 0; k < a.pad; k++ {
				args[i].pads = append(args[i].pads, c.Var(64, fmt.Sprintf("%s[%d]", a.name, a.n+k)))
			}
			args[i].obj = x.wordObj(st, a.name, append(append([]*T(nil), args[i].words...), args[i].pads...))
			objs[g] = args[i].obj
		}
		vals = append(vals, Ptr{args[i].obj, c.I(0)})
	}
	if f.keep != nil {
		for _, a := range args {
			f.keep["in"+a.name] = a.words
		}
	}
	sn := snap(st)
	outs, msg := onlyRets(x.Call(st, fn, vals...))
	if msg != "" {
		return refuted("%s", msg)
	}
	if len(x.illegal) > 0 {
		return refuted("%s", x.illegal[0])
	}
	info := ""
	for _, q := range outs {
		var ok []*Obj
		var ows [][]*T
		var all []*T
		for _, j := range f.outs {
			ok = append(ok, args[j].obj)
			ws := x.readWords(q.st, args[j].obj, 0, args[j].n)
			ows = append(ows, ws)
			all = append(all, ws...)
		}
		for _, j := range f.scratch {
			ok = append(ok, args[j].obj)
		}
		for _, a := range args {
			for k, t := range a.pads {
				// clearing them is no change: no code stores anything but zeroes there
				if w := x.loadBits(q.st, a.obj, int64(8*(a.n+k)), 8); w != t && !w.isCV(0) {
					return refuted("writes word %d of %s, beyond the field's width", a.n+k, a.name)
				}
			}
		}
		if m := sn.frame(q.st, ok...); m != "" {
			// scratch inputs (documented as destroyed) are listed among the outputs by the caller
			return refuted("frame: %s", m)
		}
		var ret *T
		if t, isT := q.v.(*T); isT {
			ret = t
			all = append(all, ret)
		}
		if f.keep != nil {
			f.keep["out"] = append(f.keep["out"], all...)
			f.keep["out"] = append(f.keep["out"], q.st.pc...)
		}
		// concrete search first: it also yields the counterexample
		if f.conc != nil {
			if cex, msg := f.search(r, c, args, ows, ret, q.st.pc); cex != "" {
				return Res{Status: "refuted", Detail: msg, Cex: cex}
			}
		}
		var last error
		pre := map[*T]int64{}
		for _, thr := range []int{12, 60, -1, 1000, 3, 1} {
			err := func() (err error) {
				defer func() {
					if p := recover(); p != nil {
						if e, isE := p.(execErr); isE {
							err = fmt.Errorf("%s", e.msg)
							return
						}
						panic(p)
					}
				}()
				b := NewBN(c, append(append([]*T(nil), all...), q.st.pc...)...)
				b.x = x
				b.Thr = thr
				b.pre = pre
				if thr < 0 {
					b.Thr = 1
				}
				in := make([]*bpoly, len(args))
				done := map[*Obj]*bpoly{}
				for i, a := range args {
					if a.out && (f.alias == nil || !sharedIn(f.alias, args, i)) {
						continue
					}
					mx := a.max
					if a.n == 0 {
						in[i] = b.Val(a.words[0])
						continue
					}
					for k, a2 := range args {
						if a2.obj == a.obj && !args[k].out && a2.max != nil && (mx == nil || a2.max.Cmp(mx) < 0) {
							mx = a2.max
						}
					}
					if p := done[a.obj]; p != nil {
						in[i] = p
						continue
					}
					if mx == nil {
						in[i] = b.Sum(a.words)
					} else {
						in[i] = b.Vec(a.words, mx)
					}
					done[a.obj] = in[i]
				}
				var o []*bpoly
				for _, ws := range ows {
					o = append(o, b.Sum(ws))
				}
				if thr < 0 {
					// every factor a named word: the carries that plain word bounds decide
					b.settleEvery()
					pre = b.decided()
					return fmt.Errorf("%d carries decided", len(pre))
				}
				if !b.assume(q.st.pc) {
					return nil
				}
				if err := f.spec(b, in, o, ret); err != nil {
					return err
				}
				info = fmt.Sprintf("%d terms, %d carries and products", len(b.memo), len(b.atoms))
				return nil
			}()
			if err != nil && os.Getenv("GOVC_BN") != "" {
				fmt.Printf("thr %d: %v\n", thr, err)
			}
			if last = err; err == nil {
				break
			}
			if time.Now().After(x.deadline) {
				break
			}
		}
		if last != nil {
			return undecided("%v", last)
		}
	}
	return okd("%d paths; %s", len(outs), info)
}

func sharedIn(al []int, args []*fpArg, i int) bool {
	for j := range args {
		if j != i && al[j] == al[i] && !args[j].out {
			return true
		}
	}
	return false
}

// search evaluates the result terms on boundary and random inputs.
func (f *fpFn) search(r *Report, c *Ctx, args []*fpArg, ows [][]*T, ret *T, pc []*T) (string, string) {
	rng := rand.New(rand.NewSource(r.Seed*31 + int64(len(args))))
	gen := func(n int, max *big.Int) *big.Int {
		m := pow2(uint(64 * n))
		if max != nil {
			m = new(big.Int).Add(max, big1)
		}
		v := new(big.Int)
		switch rng.Intn(8) {
		case 0:
			v.SetInt64(int64(rng.Intn(3)))
		case 1, 2:
			v.Sub(m, big.NewInt(int64(1+rng.Intn(3))))
		case 3:
			v.Rsh(m, 1)
			v.Add(v, big.NewInt(int64(rng.Intn(4)-2)))
		case 4, 5: // extreme words
			for i := 0; i < n; i++ {
				w := []uint64{0, 1, ^uint64(0), ^uint64(0) - 1, 1 << 63, rng.Uint64()}[rng.Intn(6)]
				v.Lsh(v, 64)
				v.Or(v, bu(w))
			}
			v.Mod(v, m)
		default:
			v.Rand(rng, m)
		}
		if v.Sign() < 0 {
			v.SetInt64(0)
		}
		return v.Mod(v, m)
	}
	for k := 0; k < 400; k++ {
		e := RandEnv(uint64(k))
		in := make([]*big.Int, len(args))
		done := map[*Obj]*big.Int{}
		for i, a := range args {
			if a.n == 0 {
				if a.words[0].isC() {
					in[i] = bu(a.words[0].k)
				} else {
					v := gen(1, bu(mask(a.w)))
					in[i] = v
					e.val[a.words[0]] = v.Uint64()
				}
				continue
			}
			if v := done[a.obj]; v != nil {
				in[i] = v
				continue
			}
			mx := a.max
			for _, b := range args {
				if b.obj == a.obj && b.max != nil && !b.out && (mx == nil || a.out || b.max.Cmp(mx) < 0) {
					mx = b.max
				}
			}
			v := gen(a.n, mx)
			in[i] = v
			done[a.obj] = v
			for j, t := range a.words {
				if t.op == OVar {
					e.val[t] = new(big.Int).And(new(big.Int).Rsh(v, uint(64*j)), bu(mask(64))).Uint64()
				}
			}
		}
		feas := true
		for _, p := range pc {
			if e.Eval(c, p) == 0 {
				feas = false
			}
		}
		if !feas {
			continue
		}
		var o []*big.Int
		for _, ws := range ows {
			v := new(big.Int)
			for j := len(ws) - 1; j >= 0; j-- {
				v.Lsh(v, 64)
				v.Or(v, bu(e.Eval(c, ws[j])))
			}
			o = append(o, v)
		}
		rv := uint64(0)
		if ret != nil {
			rv = e.Eval(c, ret)
		}
		if msg := f.conc(in, o, rv); msg != "" {
			m := map[string]string{"fn": f.fn, "alias": aliasName(f.args, f.alias), "pkg": f.pkg}
			for k, v := range f.globals {
				m["flag:"+k] = fmt.Sprint(v)
			}
			for i, a := range args {
				m[a.name] = fmt.Sprintf("%#x", in[i])
			}
			return jsonStr(m), fmt.Sprintf("%s; inputs %v", msg, m)
		}
	}
	return "", ""
}

// ---- specifications over polynomials

// congruent: for every case of the carries, out ≡ want modulo m and 0 <= out <= max.
func specMod(b *BN, out, want *bpoly, m, max *big.Int, limit int) error {
	return b.Cases([]*bpoly{out}, limit, func(ps []*bpoly, path string) error {
		z := ps[0]
		d := b.norm(z.sub(b.norm(want)))
		if !d.divisible(m) {
			return fmt.Errorf("result minus specification is not a multiple of the modulus [%s]: %s", path, b.str(modPoly(d, m)))
		}
		if max != nil && !b.nonneg(bpC(max).sub(z), 0, true) {
			return fmt.Errorf("result may exceed %#x [%s]: %s", max, path, b.str(z))
		}
		return nil
	})
}

func modPoly(p *bpoly, m *big.Int) *bpoly {
	r := &bpoly{m: map[string]*big.Int{}, sh: p.sh}
	for k, v := range p.m {
		if x := new(big.Int).Mod(v, m); x.Sign() != 0 {
			r.m[k] = x
		}
	}
	return r
}

// specEq: out == want as integers; words beyond 2^bits are cut (both sides lie in [0, 2^bits)).
func specEq(b *BN, out, want *bpoly, bitlen uint, limit int) error {
	return b.Cases([]*bpoly{out}, limit, func(ps []*bpoly, path string) error {
		d := b.norm(ps[0].sub(b.norm(want)))
		if d.isZero() {
			return nil
		}
		// differences that are multiples of 2^bits vanish when the specification's value is in range
		if d.sh == 0 && bitlen > 0 {
			mult := true
			for _, v := range d.m {
				if v.TrailingZeroBits() < bitlen {
					mult = false
				}
			}
			if mult && b.nonneg(want, 0, true) && b.nonneg(bpC(new(big.Int).Sub(pow2(bitlen), big1)).sub(want), 0, true) {
				return nil
			}
		}
		return fmt.Errorf("result minus specification [%s]: %s", path, b.str(d))
	})
}

func bigWords(ws []uint64) *big.Int {
	v := new(big.Int)
	for i := len(ws) - 1; i >= 0; i-- {
		v.Lsh(v, 64)
		v.Or(v, bu(ws[i]))
	}
	return v
}

// globalWords reads a package-level word array after initialisation.
func (x *Exec) globalWords(st *State, pkg, name string, off int64, n int) (*big.Int, bool) {
	sp := x.P.pkgs[pkgPath(pkg)]
	if sp == nil {
		return nil, false
	}
	g, ok := sp.Members[name].(*ssa.Global)
	if !ok || x.globals[g] == nil {
		return nil, false
	}
	var ws []uint64
	for i := 0; i < n; i++ {
		t := x.loadBits(st, x.globals[g], off+int64(8*i), 8)
		if !t.isC() {
			return nil, false
		}
		ws = append(ws, t.k)
	}
	return bigWords(ws), true
}
