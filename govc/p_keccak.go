package main

import (
	"encoding/json"
	"fmt"
	"math/bits"
)

func init() { props["C01"] = propC01 }

// ---- FIPS 202 specification of Keccak-f[1600]

func keccakRC(ir int) uint64 {
	rcbit := func(t int) uint64 {
		if t%255 == 0 {
			return 1
		}
		r := uint(1) // r[0] is bit 0
		for i := 1; i <= t%255; i++ {
			r <<= 1
			if r&0x100 != 0 {
				r ^= 0x171
			}
		}
		return uint64(r & 1)
	}
	var v uint64
	for j := 0; j <= 6; j++ {
		v |= rcbit(j+7*ir) << ((1 << j) - 1)
	}
	return v
}

var keccakRho = func() (o [5][5]uint64) {
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		o[x][y] = uint64((t+1)*(t+2)/2) % 64
		x, y = y, (2*x+3*y)%5
	}
	return
}()

// keccakRound: lanes a[x+5y]
func keccakRound(c *Ctx, a []*T, ir int) []*T {
	var C, D [5]*T
	for x := 0; x < 5; x++ {
		C[x] = a[x]
		for y := 1; y < 5; y++ {
			C[x] = c.Xor(C[x], a[x+5*y])
		}
	}
	for x := 0; x < 5; x++ {
		D[x] = c.Xor(C[(x+4)%5], c.Rotl(C[(x+1)%5], 1))
	}
	b := make([]*T, 25)
	for x := 0; x < 5; x++ {
		for y := 0; y < 5; y++ {
			// pi: B[y][2x+3y] = rot(A[x][y])
			b[y+5*((2*x+3*y)%5)] = c.Rotl(c.Xor(a[x+5*y], D[x]), keccakRho[x][y])
		}
	}
	r := make([]*T, 25)
	for x := 0; x < 5; x++ {
		for y := 0; y < 5; y++ {
			r[x+5*y] = c.Xor(b[x+5*y], c.And(c.Not(b[(x+1)%5+5*y]), b[(x+2)%5+5*y]))
		}
	}
	r[0] = c.Xor(r[0], c.U64(keccakRC(ir)))
	return r
}

// keccakF is the concrete permutation (for validating the specification and replays).
func keccakF(a [25]uint64) [25]uint64 {
	for r := 0; r < 24; r++ {
		var C, D [5]uint64
		for x := 0; x < 5; x++ {
			C[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			D[x] = C[(x+4)%5] ^ bits.RotateLeft64(C[(x+1)%5], 1)
		}
		var b [25]uint64
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				b[y+5*((2*x+3*y)%5)] = bits.RotateLeft64(a[x+5*y]^D[x], int(keccakRho[x][y]))
			}
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				a[x+5*y] = b[x+5*y] ^ (^b[(x+1)%5+5*y] & b[(x+2)%5+5*y])
			}
		}
		a[0] ^= keccakRC(r)
	}
	return a
}

// proveByCuts proves outs[i] == specs[last][i] using the intermediate spec
// values as cut points found in the code by simulation.
func proveByCuts(c *Ctx, seed uint64, stages [][]*T, outs []*T) Res {
	sims := NewSims(c, 3, seed)
	last := stages[len(stages)-1]
	// refutation by simulation first
	for e := range sims.envs {
		for i := range outs {
			if g, w := sims.envs[e].Eval(c, outs[i]), sims.envs[e].Eval(c, last[i]); g != w {
				return Res{Status: "refuted", Detail: fmt.Sprintf("output %d is %#x, specification says %#x", i, g, w), Cex: envJSON(sims.envs[e])}
			}
		}
	}
	nf := NewNF(c)
	// signatures up to an XOR constant: values in two environments relative to a third
	sig := func(t *T) (k [2]uint64, v uint64) {
		s := sims.Sig(t)
		return [2]uint64{s[0] ^ s[1], s[0] ^ s[2]}, s[0]
	}
	bysig := map[[2]uint64][]*T{}
	code := reach(outs...)
	for _, t := range code {
		if t.w == last[0].w && t.op != OConst {
			s, _ := sig(t)
			bysig[s] = append(bysig[s], t)
		}
	}
	cuts, missing := 0, 0
	for si, st := range stages[:len(stages)-1] {
		for i, s := range st {
			if s.op == OXor && s.a[1].isC() {
				s = s.a[0]
			}
			if s.op == OVar || s.op == OConst {
				continue
			}
			sg, v := sig(s)
			if len(bysig[sg]) == 0 {
				missing++
			}
			nodes, ks := []*T{s}, []uint64{0}
			for _, t := range bysig[sg] {
				if t == s {
					continue
				}
				_, tv := sig(t)
				if nf.equalUpTo(t, s, tv^v) {
					nodes = append(nodes, t)
					ks = append(ks, tv^v)
				}
			}
			nf.Cut(fmt.Sprintf("%d.%d", si, i), nodes, ks)
			cuts += len(nodes) - 1
		}
		nf.memo = map[*T]wpoly{}
	}
	for i := range outs {
		ok, why := nf.Equal(outs[i], last[i])
		if !ok {
			return undecided("output %d: normal forms differ %s (cut points matched: %d, not present in the code: %d)", i, why, cuts, missing)
		}
	}
	return okd("%d outputs, %d code nodes, %d cut points, %d monomials", len(outs), len(code), cuts, nf.NMono)
}

// equalUpTo decides t == u ^ k by normal forms.
func (n *NF) equalUpTo(t, u *T, k uint64) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, c := r.(nfCap); c {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return polyEq(n.Poly(t), n.add(n.Poly(u), n.cst(u.w, k)))
}

func envJSON(e *Env) string {
	m := map[string]string{}
	for t, v := range e.memo {
		if t.op == OVar {
			m[t.name] = fmt.Sprintf("%#x", v)
		}
	}
	b, _ := json.Marshal(m)
	return string(b)
}

func propC01(r *Report) {
	r.Under = []string{"hash/sha3.keccakF1600 (Go, build tag noasm)", "hash/sha3.keccakF1600 (amd64 assembly)"}
	r.Replay = &ReplaySpec{Files: map[string]string{"hash/sha3/zz_verif_test.go": "sha3_test.go"}, Pkg: []string{"./hash/sha3"}, Tags: [][]string{{""}, {"noasm"}}, Run: "TestVerifKeccak"}
	r.Ob("spec: Keccak-f[1600] specification reproduces the published permutation of the zero state", "evaluation", func() Res {
		o := keccakF([25]uint64{})
		if o[0] != 0xF1258F7940E1DDE7 || o[1] != 0x84D5CCF933C0478A || o[24] != 0xEAF1FF7B5CECA249 {
			return undecided("specification self-test: %x", o)
		}
		return ok()
	})
	for _, cfg := range []string{"amd64", "noasm"} {
		cfg := cfg
		r.Ob("keccakF1600["+cfg+"]: ensures a == Keccak-f[1600](old(a)), assigns only *a", "symbolic execution + ANF normal form with per-round cut points", func() Res {
			x := newX(cfg)
			defer x.Close()
			defer r.Merge(x)
			st := x.NewState()
			fn := x.P.MustFn("hash/sha3", "keccakF1600")
			in := make([]*T, 25)
			o := x.NewObj(st, "a", 200)
			for i := range in {
				in[i] = x.C.Var(64, fmt.Sprintf("a%d", i))
				x.storeAt(st, o, int64(8*i), 8, in[i])
			}
			sn := snap(st)
			out := oneRet(x.Call(st, fn, Ptr{o, x.C.I(0)}))
			// frame: no other object existing before changed
			if m := sn.frame(out.st, o); m != "" {
				return refuted("frame: %s", m)
			}
			outs := make([]*T, 25)
			for i := range outs {
				outs[i] = x.loadBits(out.st, o, int64(8*i), 8)
			}
			stages := [][]*T{}
			a := in
			for k := 0; k < 24; k++ {
				a = keccakRound(x.C, a, k)
				stages = append(stages, a)
			}
			return proveByCuts(x.C, uint64(r.Seed)+7, stages, outs)
		})
	}
}

// frameChanged reports a pre-existing object (other than those allowed) whose contents differ.
func frameChanged(st *State, before []*OState, n int, allowed map[int]bool) string {
	for i := 0; i < n; i++ {
		if allowed[i] || before[i] == nil {
			continue
		}
		a, b := before[i], st.heap[i]
		if a == b {
			continue
		}
		if b == nil || len(a.cells) != len(b.cells) || len(a.wr) != len(b.wr) {
			return fmt.Sprintf("object %d changed", i)
		}
		for k := range a.cells {
			if a.cells[k].n != b.cells[k].n || a.cells[k].n > 0 && !sameVal(a.cells[k].v, b.cells[k].v) {
				return fmt.Sprintf("object %d changed at byte %d", i, k)
			}
		}
	}
	return ""
}

func sameVal(a, b Value) bool {
	switch p := a.(type) {
	case *T:
		q, ok := b.(*T)
		return ok && p == q
	case Ptr:
		q, ok := b.(Ptr)
		return ok && p.obj == q.obj && (p.obj == nil || p.off == q.off)
	case Slice:
		q, ok := b.(Slice)
		return ok && p.p.obj == q.p.obj && (p.p.obj == nil || p.p.off == q.p.off) && p.len == q.len && p.cap == q.cap
	}
	return fmt.Sprint(a) == fmt.Sprint(b)
}
