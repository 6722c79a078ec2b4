package main

// C07: CTR_DRBG (AES-256, no derivation function) over the AES contract, and C08: feature flags.

import (
	stdaes "crypto/aes"
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func init() { props["C07"] = propC07; props["C08"] = propC08 }

func constBytesOf(b []*T) ([]byte, bool) {
	r := make([]byte, len(b))
	for i, t := range b {
		if !t.isC() {
			return nil, false
		}
		r[i] = byte(t.k)
	}
	return r, true
}

func word64(c *Ctx, b []*T) *T { // big endian
	return c.Concat(b[:8]...)
}

// aesUF is the AES-256 block function of the contract (evaluated when everything is concrete).
func aesUF(c *Ctx, key, blk []*T) []*T {
	if k, ok := constBytesOf(key); ok {
		if b, ok := constBytesOf(blk); ok {
			ci, err := stdaes.NewCipher(k)
			if err == nil {
				o := make([]byte, 16)
				ci.Encrypt(o, b)
				r := make([]*T, 16)
				for i := range r {
					r[i] = c.Const(8, uint64(o[i]))
				}
				return r
			}
		}
	}
	var a []*T
	for i := 0; i+8 <= len(key); i += 8 {
		a = append(a, word64(c, key[i:]))
	}
	a = append(a, word64(c, blk), word64(c, blk[8:]))
	var r []*T
	for h := 0; h < 2; h++ {
		w := c.UF(64, fmt.Sprintf("AES%d.%d", 8*len(key), h), a...)
		for i := 7; i >= 0; i-- {
			r = append(r, c.Extract(w, uint8(8*i), 8))
		}
	}
	return r
}

// inc128: v+1 mod 2^128, big endian
func inc128(c *Ctx, v []*T) []*T {
	if b, ok := constBytesOf(v); ok {
		r := make([]*T, 16)
		cy := uint(1)
		for i := 15; i >= 0; i-- {
			s := uint(b[i]) + cy
			r[i], cy = c.Const(8, uint64(s&255)), s>>8
		}
		return r
	}
	var r []*T
	for h := 0; h < 2; h++ {
		w := c.UF(64, fmt.Sprintf("inc128.%d", h), word64(c, v), word64(c, v[8:]))
		for i := 7; i >= 0; i-- {
			r = append(r, c.Extract(w, uint8(8*i), 8))
		}
	}
	return r
}

func drbgUpd(c *Ctx, key, v, data []*T) (k2, v2 []*T) {
	var t []*T
	for i := 0; i < 3; i++ {
		v = inc128(c, v)
		t = append(t, aesUF(c, key, v)...)
	}
	t = xorB(c, t, data)
	return t[:32], t[32:]
}

type drbgObj struct {
	x              *Exec
	o, ao          *Obj
	v, key, st, be int64
	strength       uint8
}

func (d *drbgObj) ptr() Ptr             { return Ptr{d.o, d.x.C.I(0)} }
func (d *drbgObj) V(st *State) []*T     { return d.x.readBytes(st, Ptr{d.o, d.x.C.I(d.v)}, 16) }
func (d *drbgObj) Key(st *State) []*T   { return d.x.readBytes(st, Ptr{d.o, d.x.C.I(d.key)}, 32) }
func (d *drbgObj) Sched(st *State) []*T { return d.x.readBytes(st, Ptr{d.ao, d.x.C.I(0)}, 32) }
func (d *drbgObj) set(st *State, at int64, b []*T) {
	for i, t := range b {
		d.x.storeAt(st, d.o, at+int64(i), 1, t)
	}
}

// drbgFields finds the fields of the working state by name.
func drbgFields(x *Exec, d *drbgObj) {
	u := x.P.Type("drbg", "CtrDrbg").Underlying().(*types.Struct)
	offs := x.fieldOffs(u)
	d.v, d.key, d.st, d.be = -1, -1, -1, -1
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		switch f.Name() {
		case "v":
			d.v = offs[i]
		case "key":
			d.key = offs[i]
		case "strength":
			d.st = offs[i]
			d.strength = uint8(x.sizeof(f.Type()) * 8)
		case "blockEnc":
			d.be = offs[i]
		}
	}
	if d.v < 0 || d.key < 0 || d.st < 0 || d.be < 0 {
		unsup("CtrDrbg no longer has fields v, key, strength, blockEnc")
	}
}

// drbgNew makes an object in an arbitrary state. inv: the cipher is keyed with the working key.
func drbgNew(x *Exec, st *State, ty string, strength uint64, inv bool) *drbgObj {
	c := x.C
	d := &drbgObj{x: x}
	drbgFields(x, d)
	T := x.P.Type("drbg", "CtrDrbg")
	d.o = x.NewTyped(st, "c", T)
	x.havocAt(st, d.o, 0, T, "c")
	x.storeAt(st, d.o, d.st, int64(d.strength/8), c.Const(d.strength, strength))
	AT := x.P.Type("drbg/internal/aes", ty)
	d.ao = x.NewTyped(st, "aes", AT)
	for i := int64(0); i < 32; i++ {
		b := c.Var(8, fmt.Sprintf("sched%d", i))
		if inv {
			b = x.loadBits(st, d.o, d.key+i, 1)
		}
		x.storeAt(st, d.ao, i, 1, b)
	}
	kl := uint64(32)
	x.storeAt(st, d.ao, 32, 4, c.Const(32, kl))
	u := T.Underlying().(*types.Struct)
	var it types.Type
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "blockEnc" {
			it = u.Field(i).Type()
		}
	}
	x.store(st, Ptr{d.o, c.I(d.be)}, it, Iface{types.NewPointer(AT), Ptr{d.ao, c.I(0)}})
	return d
}

// drbgContracts replaces the block cipher (decided by C06) and inc by their contracts.
func drbgContracts(x *Exec, inc bool) {
	c := x.C
	for _, ty := range []string{"AES", "AESAsm"} {
		x.H[x.P.MustFn("drbg/internal/aes", ty+".SetKey").String()] = func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
			p, k := a[0].(Ptr), a[1].(Slice)
			if p.obj == nil || !p.off.isCV(0) {
				unsup("SetKey receiver")
			}
			if !k.len.isC() {
				unsup("SetKey with a key of unknown length")
			}
			if k.len.k != 16 && k.len.k != 24 && k.len.k != 32 {
				return []Alt{{st: st, v: Iface{types.NewPointer(types.Typ[types.String]), Opaque{name: "KeySizeError"}}}}
			}
			b := x.readBytes(st, k.p, int64(k.len.k))
			for i := int64(0); i < 32; i++ {
				t := c.Const(8, 0)
				if i < int64(len(b)) {
					t = b[i]
				}
				x.storeAt(st, p.obj, i, 1, t)
			}
			x.storeAt(st, p.obj, 32, 4, c.Const(32, k.len.k))
			return []Alt{{st: st, v: Iface{}}}
		}
		x.H[x.P.MustFn("drbg/internal/aes", ty+".Encrypt").String()] = func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
			p, dst, src := a[0].(Ptr), a[1].(Slice), a[2].(Slice)
			for _, s := range []Slice{dst, src} {
				if !x.leq(st, c.I(16), s.len) {
					return []Alt{{st: st, panic: "Encrypt: the block may be shorter than 16 bytes"}}
				}
			}
			if dst.p.obj == src.p.obj {
				if d, ok := x.cdiff(dst.p.off, src.p.off); !ok || d != 0 && d > -16 && d < 16 {
					return []Alt{{st: st, panic: "Encrypt: overlapping blocks"}}
				}
			}
			kl := x.loadBits(st, p.obj, 32, 4)
			if !kl.isC() || kl.k == 0 {
				return []Alt{{st: st, panic: "Encrypt: no key was set"}}
			}
			key := x.readBytes(st, Ptr{p.obj, c.I(0)}, int64(kl.k))
			x.writeBytes(st, dst.p, aesUF(c, key, x.readBytes(st, src.p, 16)))
			return []Alt{{st: st}}
		}
	}
	if fn := x.P.Fn("drbg", "CtrDrbg.inc"); inc && fn != nil {
		x.H[fn.String()] = func(x *Exec, st *State, a []Value, _ *ssaCall) []Alt {
			d := &drbgObj{x: x}
			drbgFields(x, d)
			p := a[0].(Ptr)
			if p.obj == nil || !p.off.isC() {
				unsup("inc receiver")
			}
			d.o = p.obj
			d.set(st, d.v+int64(p.off.k), inc128(c, x.readBytes(st, Ptr{p.obj, c.I(d.v + int64(p.off.k))}, 16)))
			return []Alt{{st: st}}
		}
	}
}

// input of length n (<= 48: exact; 49: any length >= 49), with spare capacity holding other bytes
func drbgIn(x *Exec, st *State, name string, n int, spare bool, conc bool) (Slice, []*T) {
	c := x.C
	if n == 0 && !spare {
		return x.nilSlice(), nil
	}
	by := func(i int) *T {
		if conc {
			return c.Const(8, uint64((i*37+len(name)*11+n*3)&255))
		}
		return c.UF(8, name, c.I(int64(i)))
	}
	if n <= 48 {
		k := n
		if spare {
			k += 60
		}
		b := make([]*T, k)
		for i := range b {
			b[i] = by(i)
		}
		s, _ := x.bytesSlice(st, name, b)
		s.len = c.I(int64(n))
		return s, b[:n]
	}
	ln := c.IdxVar("len("+name+")", 49, 1<<40)
	o := x.NewSymBytes(st, name, ln)
	var b []*T
	for i := 0; i < 48; i++ {
		b = append(b, c.UF(8, name, c.I(int64(i))))
	}
	return Slice{Ptr{o, c.I(0)}, ln, ln}, b
}

func pad48(c *Ctx, b []*T) []*T {
	r := append([]*T(nil), b...)
	for len(r) < 48 {
		r = append(r, c.Const(8, 0))
	}
	return r[:48]
}

// drbgPost compares the working state, the frame and (inv) the keying of the cipher.
func drbgPost(r *Report, d *drbgObj, sn snapshot, q *Outcome, k, v []*T, inv bool, also ...*Obj) Res {
	c := d.x.C
	if m := sn.frame(q.st, append(also, d.o, d.ao)...); m != "" {
		return refuted("frame: %s", m)
	}
	if e := eqAll(c, r.Seed, "Key byte", d.Key(q.st), k); e != nil {
		return *e
	}
	if e := eqAll(c, r.Seed, "V byte", d.V(q.st), v); e != nil {
		return *e
	}
	if inv {
		if e := eqAll(c, r.Seed, "cipher key byte", d.Sched(q.st), d.Key(q.st)); e != nil {
			return *e
		}
	}
	if !sn.same(q.st, d.o, d.be, d.be+16) {
		return refuted("blockEnc replaced")
	}
	return ok()
}

type drbgMode struct {
	ty   string
	inv  bool
	inc  bool
	conc bool
}

func (m drbgMode) start(x *Exec, strength uint64) (*State, *drbgObj) {
	drbgContracts(x, m.inc)
	st := x.NewState()
	d := drbgNew(x, st, m.ty, strength, m.inv)
	if m.conc {
		for i := int64(0); i < 32; i++ {
			d.set(st, d.key+i, []*T{x.C.Const(8, uint64(i*73+5)&255)})
			if m.inv {
				x.storeAt(st, d.ao, i, 1, x.C.Const(8, uint64(i*73+5)&255))
			}
		}
		for i := int64(0); i < 16; i++ {
			v := uint64(0xff)
			if i < 3 {
				v = uint64(i)
			}
			d.set(st, d.v+i, []*T{x.C.Const(8, v)})
		}
	}
	return st, d
}

// drbgInit: seed(entropy, personalization) from any state; reseed keeps Key and V.
func drbgSeed(r *Report, m drbgMode, fn string, strength uint64, es, ps []int, short *bool) Res {
	x := newX("amd64")
	defer x.Close()
	defer r.Merge(x)
	c := x.C
	base, d := m.start(x, strength)
	f := x.P.MustFn("drbg", "CtrDrbg."+fn)
	n := 0
	for _, e := range es {
		for _, p := range ps {
			for _, spare := range []bool{false, true} {
				if m.conc && (e == 49 || p == 49) {
					continue
				}
				n++
				st := base.Clone()
				E, eb := drbgIn(x, st, "entropy", e, spare, m.conc)
				P, pb := drbgIn(x, st, "data", p, spare, m.conc)
				sn := snap(st)
				key, v := d.Key(st), d.V(st)
				outs, msg := onlyRets(x.Call(st, f, d.ptr(), E, P))
				if msg != "" {
					return refuted("%d/%d bytes: %s", e, p, msg)
				}
				for _, q := range outs {
					if !x.Feasible(q.st, c.Bool(true)) {
						continue
					}
					if fn == "Init" {
						z := make([]*T, 48)
						for i := range z {
							z[i] = c.Const(8, 0)
						}
						key, v = z[:32], z[:16]
						rv, okv := q.v.(*T)
						if !okv || !rv.isC() {
							return refuted("Init returns %v", q.v)
						}
						if rv.k == 0 {
							if e >= 32 {
								return refuted("Init refuses %d bytes of entropy", e)
							}
							if f := sn.frame(q.st); f != "" {
								return refuted("refusing Init: %s", f)
							}
							continue
						}
						if e < 32 {
							if strength != 0 {
								return refuted("Init accepts %d bytes of entropy", e)
							}
							*short = true
						}
						if s := x.loadBits(q.st, d.o, d.st, int64(d.strength/8)); !s.isCV(256) {
							return refuted("strength is %v after Init", s)
						}
					} else if !sn.same(q.st, d.o, d.st, d.st+int64(d.strength/8)) {
						return refuted("strength changed")
					}
					k2, v2 := drbgUpd(c, key, v, xorB(c, pad48(c, eb), pad48(c, pb)))
					if z := drbgPost(r, d, sn, q, k2, v2, m.inv); !z.OK {
						z.Detail = fmt.Sprintf("%d/%d bytes: ", e, p) + z.Detail
						return z
					}
				}
			}
		}
	}
	return okd("%d length pairs", n)
}

func drbgBlocks(c *Ctx, key, v []*T, n int) (out, v2 []*T) {
	for len(out) < n {
		v = inc128(c, v)
		out = append(out, aesUF(c, key, v)...)
	}
	return out[:n], v
}

// drbgRead: generate with concrete output lengths.
func drbgRead(r *Report, m drbgMode, ads []int, lens []int) Res {
	x := newX("amd64")
	defer x.Close()
	defer r.Merge(x)
	c := x.C
	base, d := m.start(x, 256)
	n := 0
	for _, ad := range ads {
		for _, l := range lens {
			for _, spare := range []bool{false, true} {
				if m.conc && ad == 49 {
					continue
				}
				n++
				st := base.Clone()
				A, ab := x.nilSlice(), []*T(nil)
				if ad >= 0 {
					A, ab = drbgIn(x, st, "ad", ad, spare, m.conc)
				}
				b := x.byteVars("out", l+40)
				if !spare {
					b = b[:l]
				}
				O, oo := x.bytesSlice(st, "out", b)
				O.len = c.I(int64(l))
				args := []Value{d.ptr(), O}
				fn := "CtrDrbg.Read"
				if ad >= 0 {
					fn, args = "CtrDrbg.ReadWithAdditionalData", append(args, A)
				}
				key, v := d.Key(st), d.V(st)
				sn := snap(st)
				outs, msg := onlyRets(x.Call(st, x.P.MustFn("drbg", fn), args...))
				if msg != "" {
					return refuted("%d/%d bytes: %s", ad, l, msg)
				}
				seed := pad48(c, nil)
				if len(ab) > 0 {
					seed = pad48(c, ab)
					key, v = drbgUpd(c, key, v, seed)
				}
				want, v2 := drbgBlocks(c, key, v, l)
				k3, v3 := drbgUpd(c, key, v2, seed)
				for _, q := range outs {
					if !x.Feasible(q.st, c.Bool(true)) {
						continue
					}
					if e := sha3Ret(r, c, q, c.I(int64(l))); e != nil {
						return *e
					}
					if e := eqAll(c, r.Seed, "output byte", x.readBytes(q.st, Ptr{oo, c.I(0)}, int64(len(b))), append(append([]*T(nil), want...), b[l:]...)); e != nil {
						e.Detail = fmt.Sprintf("additional data %d, output %d: ", ad, l) + e.Detail
						return *e
					}
					if z := drbgPost(r, d, sn, q, k3, v3, m.inv, oo); !z.OK {
						z.Detail = fmt.Sprintf("additional data %d, output %d: ", ad, l) + z.Detail
						return z
					}
				}
			}
		}
	}
	return okd("%d cases", n)
}

// drbgReadMany: 16*m + rem bytes for every m >= 2.
func drbgReadMany(r *Report, m drbgMode, ad, rem int) (res Res) {
	x := newX("amd64")
	defer x.Close()
	defer r.Merge(x)
	c := x.C
	st, d := m.start(x, 256)
	defer func() {
		x.cutAll = nil
		if p := recover(); p != nil {
			if e, isE := p.(execErr); isE {
				res = Res{OK: true, Bounded: e.msg}
				return
			}
			panic(p)
		}
	}()
	A, ab := drbgIn(x, st, "ad", ad, false, false)
	M := c.IdxVar("m", 2, 1<<40)
	n := c.Add(c.Mul(M, c.I(16)), c.I(int64(rem)))
	out := x.NewSymBytes(st, "out", n)
	key, v := d.Key(st), d.V(st)
	seed := pad48(c, nil)
	if len(ab) > 0 {
		seed = pad48(c, ab)
		key, v = drbgUpd(c, key, v, seed)
	}
	fold := func(i int, _ uint8, j *T) *T { return c.UF(8, fmt.Sprintf("ctr%d", i), j) }
	sc := &StreamCut{N: M, Seed: r.Seed, Init: v, Out: out,
		OutB: func(_ *T, _, next []*T) []*T { return aesUF(c, key, next) },
		Cells: func(*State) (*Obj, []int64, int64) {
			var o []int64
			for i := int64(0); i < 16; i++ {
				o = append(o, d.v+i)
			}
			return d.o, o, 1
		},
		Step: func(_ *State, v []*T, _ *T) [][]*T { return [][]*T{inc128(c, v)} },
		Fold: fold,
	}
	x.cutAll = sc
	sn := snap(st)
	outs, err := x.Call(st, x.P.MustFn("drbg", "CtrDrbg.ReadWithAdditionalData"), d.ptr(), Slice{Ptr{out, c.I(0)}, n, n}, A)
	if err != nil || sc.Structure != "" || sc.Cut == 0 && sc.Refuted == "" {
		return Res{OK: true, Bounded: fmt.Sprintf("%v %s", err, sc.Structure)}
	}
	if sc.Refuted != "" {
		return refuted("%s", sc.Refuted)
	}
	for _, q := range outs {
		if !x.Feasible(q.st, c.Bool(true)) {
			continue
		}
		if q.kind != "ret" {
			return refuted("panics: %s", q.msg)
		}
		if e := sha3Ret(r, c, q, n); e != nil {
			return *e
		}
		w := q.st.heap[out.id].wr
		at := c.I(0)
		var vm, exp []*T
		if k := x.pinnedTo(q.st, M, 3); k > 0 {
			exp, vm = drbgBlocks(c, key, v, 16*k)
			w = joinPieces(w, c)
		} else {
			if len(w) == 0 || w[0].tag != "stream" || !x.leq(q.st, w[0].off, at) || !x.leq(q.st, at, w[0].off) || !c.Sub(w[0].n, c.Mul(M, c.I(16))).isCV(0) {
				return refuted("the whole blocks are not written in order")
			}
			at = w[0].n
			w = w[1:]
			for i := 0; i < 16; i++ {
				vm = append(vm, fold(i, 8, M))
			}
		}
		ex2, vm2 := drbgBlocks(c, key, vm, rem)
		exp = append(exp, ex2...)
		for len(exp) > 0 {
			if len(w) == 0 || w[0].bytes == nil || len(w[0].bytes) > len(exp) || !x.leq(q.st, w[0].off, at) || !x.leq(q.st, at, w[0].off) {
				return refuted("the last block is not written behind the whole ones")
			}
			k := len(w[0].bytes)
			if e := eqAll(c, r.Seed, "output byte", w[0].bytes, exp[:k]); e != nil {
				return *e
			}
			at, exp, w = c.Add(at, c.I(int64(k))), exp[k:], w[1:]
		}
		if len(w) > 0 {
			return refuted("more written than requested")
		}
		k3, v3 := drbgUpd(c, key, vm2, seed)
		if z := drbgPost(r, d, sn, q, k3, v3, m.inv, out); !z.OK {
			return z
		}
	}
	return ok()
}

func rangeInts(a, b int) (r []int) {
	for i := a; i <= b; i++ {
		r = append(r, i)
	}
	return
}

func propC07(r *Report) {
	r.Under = []string{"drbg.NewCtrDrbg", "drbg.(*CtrDrbg).inc/update/Init/Reseed/Read/ReadWithAdditionalData"}
	r.Replay = &ReplaySpec{Files: map[string]string{"drbg/zz_verif_test.go": "drbg_test.go"}, Pkg: []string{"./drbg"}, Run: "TestVerifDrbg"}
	r.Trusted = append(r.Trusted, "contracts of AES and AESAsm SetKey and Encrypt (decided by C06)")
	be := "symbolic execution over the AES contract, canonical terms"
	hasInc := true
	{
		x := newX("amd64")
		hasInc = x.P.Fn("drbg", "CtrDrbg.inc") != nil
	}
	var jobs []func()
	if hasInc {
		jobs = append(jobs, func() {
			r.Ob("inc: V = V + 1 mod 2^128 (big endian) for every V; assigns only V", "symbolic execution (all carry lengths), z3", func() Res {
				x := newX("amd64")
				defer x.Close()
				defer r.Merge(x)
				c := x.C
				st := x.NewState()
				d := drbgNew(x, st, "AES", 256, false)
				v := d.V(st)
				sn := snap(st)
				outs, msg := onlyRets(x.Call(st, x.P.MustFn("drbg", "CtrDrbg.inc"), d.ptr()))
				if msg != "" {
					return refuted("%s", msg)
				}
				want := make([]*T, 16)
				cy := c.Bool(true)
				for i := 15; i >= 0; i-- {
					want[i] = c.Ite(cy, c.Add(v[i], c.Const(8, 1)), v[i])
					cy = c.And(cy, c.Eq(v[i], c.Const(8, 255)))
				}
				for _, q := range outs {
					if f := sn.frame(q.st, d.o); f != "" {
						return refuted("frame: %s", f)
					}
					if !sn.same(q.st, d.o, 0, d.v) || !sn.same(q.st, d.o, d.v+16, d.o.size) {
						return refuted("assigns more than V")
					}
					for i, g := range d.V(q.st) {
						if g != want[i] && !x.Prove(q.st, c.Eq(g, want[i])) {
							z := refuted("byte %d of V", i)
							z.Cex = x.cexOf(append(append([]*T(nil), q.st.pc...), c.Not(c.Eq(g, want[i]))))
							return z
						}
					}
				}
				return okd("%d paths", len(outs))
			})
		})
	}
	// does the code key the cipher before every use, or keep it keyed?
	inv := false
	short := make(chan bool, 64)
	mode := func(ty string) drbgMode { return drbgMode{ty: ty, inv: inv, inc: hasInc, conc: !hasInc} }
	func() {
		defer func() { recover() }()
		var s bool
		if q := drbgSeed(r, mode("AES"), "Reseed", 256, []int{48}, []int{48}, &s); !q.OK && q.Status == "refuted" {
			inv = true
		}
	}()
	lab := func(q Res) Res {
		if q.OK && !hasInc {
			q.Bounded = "sampled states and inputs: the counter increment is no function of its own"
		}
		return q
	}
	for _, ty := range []string{"AES", "AESAsm"} {
		ty := ty
		for _, fn := range []string{"Init", "Reseed"} {
			for _, s := range []uint64{256, 0} {
				if fn == "Reseed" && s == 0 {
					continue
				}
				for _, e := range [][]int{rangeInts(0, 16), rangeInts(17, 31), rangeInts(32, 40), rangeInts(41, 49)} {
					fn, s, e := fn, s, e
					what := fmt.Sprintf("%s(entropy of %d..%d bytes, any personalization) on a used object", fn, e[0], e[len(e)-1])
					if s == 0 {
						what = fmt.Sprintf("%s(entropy of %d..%d bytes, any personalization) on a new object", fn, e[0], e[len(e)-1])
					}
					if e[len(e)-1] == 49 {
						what = fmt.Sprintf("%s with 41 or more bytes of entropy, any personalization, object of strength %d", fn, s)
					}
					jobs = append(jobs, func() {
						r.Ob(fmt.Sprintf("[%s] %s: Key, V are CTR_DRBG_Update of the zero-padded or cut seed material; assigns only the object", ty, what), be, func() Res {
							var sh bool
							q := lab(drbgSeed(r, mode(ty), fn, s, e, rangeInts(0, 49), &sh))
							if q.OK {
								select {
								case short <- sh:
								default:
								}
							}
							return q
						})
					})
				}
			}
		}
		for _, ads := range [][]int{{-1, 0}, rangeInts(1, 16), rangeInts(17, 32), rangeInts(33, 49)} {
			ads := ads
			jobs = append(jobs, func() {
				r.Ob(fmt.Sprintf("[%s] generate 0..50 bytes, additional data of %d..%d bytes (49: any longer; -1: Read): output, Key, V as specified, (len(out), nil), assigns only out and the object", ty, ads[0], ads[len(ads)-1]), be, func() Res {
					return lab(drbgRead(r, mode(ty), ads, rangeInts(0, 50)))
				})
			})
		}
		for rem := 0; rem < 16; rem++ {
			rem := rem
			jobs = append(jobs, func() {
				r.Ob(fmt.Sprintf("[%s] generate 16*m+%d bytes for every m >= 2, any additional data: output, Key, V as specified, (len(out), nil)", ty, rem), be+"; loop invariant (counter fold)", func() Res {
					if hasInc {
						var q Res
						for ad := 0; ad <= 49; ad++ {
							q = drbgReadMany(r, mode(ty), ad, rem)
							if !q.OK {
								q.Detail = fmt.Sprintf("additional data %d: ", ad) + q.Detail
								return q
							}
							if q.Bounded != "" {
								break
							}
						}
						if q.Bounded == "" {
							return q
						}
						z := drbgRead(r, mode(ty), []int{0, 5, 48}, []int{160 + rem, 4096 + rem})
						if z.OK {
							z.Bounded = "loop induction not established for this form of the loop (" + q.Bounded + ")"
						}
						return z
					}
					return lab(drbgRead(r, mode(ty), []int{0, 5, 48}, []int{160 + rem, 4096 + rem}))
				})
			})
		}
	}
	for _, has := range []bool{false, true} {
		has := has
		jobs = append(jobs, func() {
			r.Ob(fmt.Sprintf("NewCtrDrbg, AES-NI available: %v: a fresh uninstantiated object with a cipher of its own; AES-NI only when available", has), be, func() Res { return drbgNewOb(r, has) })
		})
	}
	Par(8, jobs...)
	close(short)
	for s := range short {
		if s {
			r.Known = append(r.Known, "key=drbg-init-entropy-check Init on a fresh object accepts entropy shorter than the 32 bytes a second Init requires")
			break
		}
	}
}

func drbgNewOb(r *Report, has bool) Res {
	p, err := LoadProg("amd64")
	if err != nil {
		unsup("%v", err)
	}
	x := NewExec(p)
	defer x.Close()
	defer r.Merge(x)
	x.cpuFlags = map[string]bool{"HasAES": has}
	st := x.NewState()
	sn := snap(st)
	q := oneRet(x.Call(st, x.P.MustFn("drbg", "NewCtrDrbg")))
	if f := sn.frame(q.st); f != "" {
		return refuted("frame: %s", f)
	}
	d := &drbgObj{x: x}
	drbgFields(x, d)
	pp, okp := q.v.(Ptr)
	if !okp || pp.obj == nil || !pp.off.isCV(0) || pp.obj.id < sn.n {
		return refuted("result is not a fresh object")
	}
	if s := x.loadBits(q.st, pp.obj, d.st, int64(d.strength/8)); !s.isCV(0) {
		return refuted("strength %v", s)
	}
	be, okb := q.st.os(pp.obj).cells[d.be].v.(Iface)
	if !okb || be.typ == nil {
		return refuted("no block cipher")
	}
	bp, okp := be.v.(Ptr)
	if !okp || bp.obj == nil || bp.obj.id < sn.n || bp.obj == pp.obj {
		return refuted("the block cipher is not a fresh object")
	}
	tn := be.typ.String()
	if pt, ok := be.typ.(*types.Pointer); ok {
		if n, ok := pt.Elem().(*types.Named); ok {
			tn = n.Obj().Name()
		}
	}
	if tn != "AES" && tn != "AESAsm" {
		return refuted("unknown cipher %s", tn)
	}
	if tn == "AESAsm" && !has {
		return refuted("the AES-NI cipher is used although the CPU has no AES-NI")
	}
	return ok()
}

// ---- C08

func propC08(r *Report) {
	r.Under = []string{"utils.init", "utils.cpuid (amd64 assembly)", "utils.bitn", "drbg.NewCtrDrbg", "dh/csidh init, mulRdc", "dh/sidh/internal/p434|p503|p751 init, fpMul, fpMontRdc (dispatch)"}
	r.Replay = &ReplaySpec{Files: map[string]string{"utils/zz_verif_test.go": "utils_test.go"}, Pkg: []string{"./utils"}, Run: "TestVerifCPU"}
	r.Trusted = append(r.Trusted, "CPUID returns a function of EAX and ECX; leaves 0 and 1 ignore ECX")
	r.Ob("utils.init: for every answer of CPUID the flags are the feature bits when leaf 7 exists, and false otherwise", "symbolic execution of the initialiser and of the cpuid assembly, z3", func() Res {
		x := newX("amd64")
		defer x.Close()
		defer r.Merge(x)
		c := x.C
		st := x.NewState()
		X := x.GlobalPtr("utils", "X86")
		u := x.P.Global("utils", "X86").Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		offs := x.fieldOffs(u)
		fo := map[string]int64{}
		for i := 0; i < u.NumFields(); i++ {
			fo[u.Field(i).Name()] = offs[i]
			x.store(st, Ptr{X.obj, c.I(offs[i])}, u.Field(i).Type(), x.zero(u.Field(i).Type()))
		}
		// the handlers installed for the initialiser stand for the selected configuration: remove them
		fn := x.P.pkgs[pkgPath("utils")].Func("init")
		delete(x.H, fn.String())
		outs, msg := onlyRets(x.Call(st, fn))
		if msg != "" {
			return refuted("%s", msg)
		}
		id := func(reg string, leaf uint64) *T {
			return c.UF(32, "cpuid."+reg, c.Const(32, leaf), c.Const(32, 0))
		}
		has7 := c.Not(c.Ult(id("AX", 0), c.Const(32, 7)))
		want := map[string]*T{
			"HasAES":    c.Extract(id("CX", 1), 25, 1),
			"HasBMI2":   c.Extract(id("BX", 7), 8, 1),
			"HasADX":    c.Extract(id("BX", 7), 19, 1),
			"HasRDSEED": c.Extract(id("BX", 7), 18, 1),
		}
		for _, q := range outs {
			if !x.Feasible(q.st, c.Bool(true)) {
				continue
			}
			for f, w := range want {
				o, okf := fo[f]
				if !okf {
					return refuted("no flag %s", f)
				}
				g := c.Extract(x.loadBits(q.st, X.obj, o, 1), 0, 1)
				e := c.Eq(g, c.And(w, has7))
				if !x.Prove(q.st, e) {
					z := refuted("%s is %v", f, g)
					z.Cex = x.cexOf(append(append([]*T(nil), q.st.pc...), c.Not(e)))
					return z
				}
			}
		}
		return okd("%d paths", len(outs))
	})
	var jobs []func()
	for k := 0; k < 16; k++ {
		fl := map[string]bool{"HasAES": k&1 > 0, "HasBMI2": k&2 > 0, "HasADX": k&4 > 0, "HasRDSEED": k&8 > 0}
		jobs = append(jobs, func() {
			r.Ob(fmt.Sprintf("flags AES=%v BMI2=%v ADX=%v RDSEED=%v: every dispatching function executes only instructions of extensions that are flagged", fl["HasAES"], fl["HasBMI2"], fl["HasADX"], fl["HasRDSEED"]), "symbolic execution of the dispatching functions (all paths) with instruction feature tracking", func() Res { return cpuDispatch(r, fl) })
		})
	}
	Par(4, jobs...)
}

// cpuDispatch runs every function that leads to assembly with arbitrary operands under the flags.
func cpuDispatch(r *Report, fl map[string]bool) Res {
	p, err := LoadProg("amd64")
	if err != nil {
		unsup("%v", err)
	}
	x := NewExec(p)
	defer x.Close()
	defer r.Merge(x)
	x.deadline = time.Now().Add(obLimit - 15*time.Second)
	x.cpuFlags = fl
	base := x.NewState()
	n := 0
	run := func(fn *ssa.Function) (illegal, err string) {
		st := base.Clone()
		var args []Value
		for i, pm := range fn.Params {
			nm := fmt.Sprintf("p%d", i)
			switch t := pm.Type().Underlying().(type) {
			case *types.Pointer:
				if b, ok := t.Elem().Underlying().(*types.Basic); ok { // pointer into a buffer
					o := x.NewArr(st, nm, t.Elem(), 64)
					x.havocAt(st, o, 0, types.NewArray(t.Elem(), 64), nm)
					_ = b
					args = append(args, Ptr{o, x.C.I(0)})
					break
				}
				o := x.NewTyped(st, nm, t.Elem())
				x.havocAt(st, o, 0, t.Elem(), nm)
				args = append(args, Ptr{o, x.C.I(0)})
			case *types.Slice:
				ln := int64(60)
				if isByteLike(t.Elem()) {
					ln = 32
				}
				o := x.NewArr(st, nm, t.Elem(), ln)
				x.havocAt(st, o, 0, types.NewArray(t.Elem(), ln), nm)
				args = append(args, Slice{Ptr{o, x.C.I(0)}, x.C.I(ln), x.C.I(ln)})
			default:
				w := x.intWidth(t)
				if w == 0 {
					return "", "parameter types"
				}
				if w == 64 && pm.Name() == "nr" {
					args = append(args, x.C.I(14))
				} else {
					args = append(args, x.C.Var(w, nm))
				}
			}
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					err = fmt.Sprint(e)
				}
			}()
			if _, e := x.Call(st, fn, args...); e != nil {
				err = e.Error()
			}
		}()
		if len(x.illegal) > 0 {
			illegal = x.illegal[0]
			x.illegal = nil
		}
		return
	}
	need := map[*ssa.Function]string{}
	var all []*ssa.Function
	for f := range ssautil.AllFunctions(x.P.ssa) {
		if isOurs(f) {
			all = append(all, f)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].String() < all[j].String() })
	skipped := 0
	for _, f := range all {
		if len(f.Blocks) > 0 || f.Name() == "cpuid" {
			continue
		}
		n++
		ill, err := run(f)
		if ill != "" {
			need[f] = ill
		} else if err != "" {
			return undecided("%s: %s", f, err)
		}
	}
	for _, f := range all {
		calls := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && need[g] != "" {
						calls = true
					}
				}
			}
		}
		if !calls || strings.Contains(f.String(), "aes.AESAsm)") {
			continue
		}
		n++
		ill, err := run(f)
		if ill != "" {
			return refuted("%s: %s", f, ill)
		}
		if err != "" {
			skipped++
		}
	}
	// block ciphers reachable from NewCtrDrbg
	st := base.Clone()
	q := oneRet(x.Call(st, x.P.MustFn("drbg", "NewCtrDrbg")))
	b := x.byteVars("seed", 48)
	S, _ := x.bytesSlice(q.st, "seed", b)
	if pp, ok := q.v.(Ptr); ok {
		d := &drbgObj{x: x}
		drbgFields(x, d)
		be := q.st.os(pp.obj).cells[d.be].v.(Iface)
		for _, m := range []string{"SetKey", "Encrypt", "Decrypt"} {
			nm := be.typ.(*types.Pointer).Elem().(*types.Named).Obj().Name()
			fn := x.P.MustFn("drbg/internal/aes", nm+"."+m)
			args := []Value{be.v, S}
			if m == "SetKey" {
				args[1] = Slice{S.p, x.C.I(32), x.C.I(32)}
			} else {
				D, _ := x.bytesSlice(q.st, "dst", x.byteVars("dst", 16))
				args = []Value{be.v, D, S}
			}
			q2 := oneRet(x.Call(q.st, fn, args...))
			q.st = q2.st
			n++
		}
	}
	if len(x.illegal) > 0 {
		m := x.illegal[0]
		x.illegal = nil
		return refuted("%s", m)
	}
	if skipped > 0 {
		return Res{OK: true, Bounded: fmt.Sprintf("%d guarded callers not executable in isolation", skipped)}
	}
	return okd("%d functions, %d assembly functions behind guards", n, len(need))
}
