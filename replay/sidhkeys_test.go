//go:build go1.21

package sidh

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/dh/sidh/internal/p434"
	"github.com/henrydcase/nobs/dh/sidh/internal/p503"
	"github.com/henrydcase/nobs/dh/sidh/internal/p751"
)

func vEnv() (cex []map[string]string, secs time.Duration, rng *rand.Rand) {
	b, _ := os.ReadFile(os.Getenv("VERIF_CEX"))
	json.Unmarshal(b, &cex)
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if n == 0 {
		n = 1
	}
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return cex, time.Duration(n) * time.Second, rand.New(rand.NewSource(s))
}

func vFail(t *testing.T, f string, a ...interface{}) {
	fmt.Printf("VERIF-FAIL "+f+"\n", a...)
	t.Fatal("mismatch")
}

func vPanics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

type vPar struct {
	id           uint8
	bl, words    int
	e2, e3       uint
	aBits, bBits int
	msg          int
}

var vPars = []vPar{{Fp434, 55, 7, 216, 137, 216, 217, 16}, {Fp503, 63, 8, 250, 159, 250, 252, 24}, {Fp751, 94, 12, 372, 239, 372, 378, 32}}

func (v vPar) p() *big.Int {
	p := new(big.Int).Exp(big.NewInt(3), big.NewInt(int64(v.e3)), nil)
	p.Lsh(p, v.e2)
	return p.Sub(p, big.NewInt(1))
}

func vLE(v *big.Int, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(new(big.Int).Rsh(v, uint(8*i)).Uint64())
	}
	return b
}

func vWords(w []uint64) *big.Int {
	v := new(big.Int)
	for i := len(w) - 1; i >= 0; i-- {
		v.Lsh(v, 64).Add(v, new(big.Int).SetUint64(w[i]))
	}
	return v
}

type vRdr struct {
	b    []byte
	fail int // bytes after which reads fail; <0: never
	n    int
}

type vErr struct{}

func (vErr) Error() string { return "source failed" }

func (r *vRdr) Read(p []byte) (int, error) {
	n := len(p)
	if n > 7 && r.n%3 == 0 {
		n = 7 // short reads are allowed
	}
	for i := 0; i < n; i++ {
		if r.fail >= 0 && r.n >= r.fail {
			return i, vErr{}
		}
		p[i] = r.b[r.n%len(r.b)]
		r.n++
	}
	return n, nil
}

func vRandVal(rng *rand.Rand, p *big.Int) *big.Int {
	switch rng.Intn(6) {
	case 0:
		return big.NewInt(int64(rng.Intn(4)))
	case 1:
		return new(big.Int).Sub(p, big.NewInt(int64(1+rng.Intn(4))))
	case 2:
		return new(big.Int).Lsh(big.NewInt(1), uint(rng.Intn(p.BitLen()-1)))
	}
	return new(big.Int).Rand(rng, p)
}

func vCanon(rng *rand.Rand, v vPar) []byte {
	var in []byte
	for i := 0; i < 6; i++ {
		in = append(in, vLE(vRandVal(rng, v.p()), v.bl)...)
	}
	return in
}

func TestVerifKeys(t *testing.T) {
	cases := 0
	defer func() { fmt.Printf("VERIF-CASES %d\n", cases) }()
	_, secs, rng := vEnv()
	for end := time.Now().Add(secs); ; {
		for _, v := range vPars {
			for _, kv := range []KeyVariant{KeyVariantSidhA, KeyVariantSidhB, KeyVariantSike} {
				cases++
				vOne(t, rng, v, kv)
			}
		}
		if time.Now().After(end) {
			return
		}
	}
}

func vOne(t *testing.T, rng *rand.Rand, v vPar, kv KeyVariant) {
	p := v.p()
	// public keys
	pub := NewPublicKey(v.id, kv)
	pub.Import(vCanon(rng, v))
	in := vCanon(rng, v)
	if err := pub.Import(in); err != nil {
		vFail(t, "public key import: %v", err)
	}
	R := new(big.Int).Lsh(big.NewInt(1), uint(64*v.words))
	for i := 0; i < 3; i++ {
		for h := 0; h < 2; h++ {
			w := pub.affine3Pt[i].A
			if h == 1 {
				w = pub.affine3Pt[i].B
			}
			val := new(big.Int)
			for k := v.bl - 1; k >= 0; k-- {
				val.Lsh(val, 8).Add(val, big.NewInt(int64(in[(2*i+h)*v.bl+k])))
			}
			d := new(big.Int).Sub(vWords(w[:]), new(big.Int).Mul(val, R))
			if d.Mod(d, p).Sign() != 0 {
				vFail(t, "field %d, import: coordinate %d component %d is not the Montgomery form of %#x: %x", v.id, i, h, val, w)
			}
		}
	}
	out := make([]byte, len(in)+5)
	rng.Read(out)
	tail := append([]byte(nil), out[len(in):]...)
	pub.Export(out)
	if !bytes.Equal(out[:len(in)], in) || !bytes.Equal(out[len(in):], tail) {
		vFail(t, "field %d: export after import gives %x, want %x", v.id, out, in)
	}
	for _, n := range []int{0, 1, len(in) - 1, len(in) + 1, 2 * len(in)} {
		was := *pub
		var err error
		if vPanics(func() { err = pub.Import(make([]byte, n)) }) || err == nil || was.affine3Pt != pub.affine3Pt {
			vFail(t, "field %d: public key import of %d bytes: error %v, changed %v", v.id, n, err, was.affine3Pt != pub.affine3Pt)
		}
	}
	// private keys
	var prvI PrivateKey
	prvI.Init(v.id, kv)
	bits := v.aBits
	if kv != KeyVariantSidhA {
		bits = v.bBits
	}
	msg := 0
	if kv == KeyVariantSike {
		msg = v.msg
	}
	for _, prv := range []*PrivateKey{NewPrivateKey(v.id, kv), &prvI} {
		n := prv.Size()
		sl := n - msg
		if sl < (bits+7)/8 || sl > (bits+7)/8+1 || len(prv.S) != msg || len(prv.Scalar) != sl {
			vFail(t, "field %d variant %d: sizes: key %d, S %d, scalar %d", v.id, kv, n, len(prv.S), len(prv.Scalar))
		}
		rng.Read(prv.S)
		rng.Read(prv.Scalar)
		in := make([]byte, n)
		rng.Read(in)
		if err := prv.Import(in); err != nil {
			vFail(t, "private key import: %v", err)
		}
		out := make([]byte, n+3)
		prv.Export(out)
		if !bytes.Equal(prv.S, in[:msg]) || !bytes.Equal(prv.Scalar, in[msg:]) || !bytes.Equal(out, append(append([]byte(nil), in...), 0, 0, 0)) {
			vFail(t, "field %d variant %d: private key %x imported as S=%x scalar=%x exported as %x", v.id, kv, in, prv.S, prv.Scalar, out)
		}
		for _, m := range []int{0, 1, n - 1, n + 1, 2 * n, msg, sl} {
			if m == n {
				continue
			}
			var err error
			if vPanics(func() { err = prv.Import(make([]byte, m)) }) || err == nil || !bytes.Equal(prv.Scalar, in[msg:]) || !bytes.Equal(prv.S, in[:msg]) {
				vFail(t, "field %d variant %d: private key import of %d bytes: error %v or key changed", v.id, kv, m, err)
			}
		}
		// generation
		st := make([]byte, n)
		rng.Read(st)
		if rng.Intn(2) == 0 {
			for i := range st {
				st[i] = byte(-(rng.Intn(2)))
			}
		}
		want := append([]byte(nil), st...)
		s := want[msg:]
		for i := bits; i < 8*sl; i++ {
			s[i/8] &^= 1 << uint(i%8)
		}
		s[(bits-1)/8] |= 1 << uint((bits-1)%8)
		if rng.Intn(2) == 0 {
			if err := prv.Generate(&vRdr{b: st, fail: -1}); err != nil {
				vFail(t, "Generate: %v", err)
			}
		} else {
			GeneratePrivateKey(prv, &vRdr{b: st, fail: -1})
		}
		if !bytes.Equal(prv.S, want[:msg]) || !bytes.Equal(prv.Scalar, want[msg:]) {
			vFail(t, "field %d variant %d: key from stream %x: S=%x scalar=%x want %x", v.id, kv, st, prv.S, prv.Scalar, want)
		}
		if prv.Generate(&vRdr{b: st, fail: rng.Intn(n)}) == nil {
			vFail(t, "field %d variant %d: Generate reports no error from a failing source", v.id, kv)
		}
	}
}

// The key objects use the operation of their prime and group.
func TestVerifIsogeny(t *testing.T) {
	_, _, rng := vEnv()
	n := 0
	type ops struct {
		gen [2]func(*[3]common.Fp2, []byte)
		der [2]func(ss, prv []byte, pub *[3]common.Fp2)
	}
	o := map[uint8]ops{
		Fp434: {[2]func(*[3]common.Fp2, []byte){p434.PublicKeyGenA, p434.PublicKeyGenB}, [2]func(ss, prv []byte, pub *[3]common.Fp2){p434.DeriveSecretA, p434.DeriveSecretB}},
		Fp503: {[2]func(*[3]common.Fp2, []byte){p503.PublicKeyGenA, p503.PublicKeyGenB}, [2]func(ss, prv []byte, pub *[3]common.Fp2){p503.DeriveSecretA, p503.DeriveSecretB}},
		Fp751: {[2]func(*[3]common.Fp2, []byte){p751.PublicKeyGenA, p751.PublicKeyGenB}, [2]func(ss, prv []byte, pub *[3]common.Fp2){p751.DeriveSecretA, p751.DeriveSecretB}},
	}
	kvs := []KeyVariant{KeyVariantSidhA, KeyVariantSidhB, KeyVariantSike}
	g := func(v KeyVariant) int {
		if v == KeyVariantSidhA {
			return 0
		}
		return 1
	}
	for _, p := range vPars {
		for _, kv := range kvs {
			for _, pv := range kvs {
				for _, q := range vPars {
					prv, pub := NewPrivateKey(p.id, kv), NewPublicKey(q.id, pv)
					if e := prv.Generate(rng); e != nil {
						vFail(t, "Generate: %v", e)
					}
					nm := fmt.Sprintf("private key %d/%d, public key %d/%d", p.id, kv, q.id, pv)
					if p.id != q.id || kv != pv {
						old := *pub
						if !vPanics(func() { prv.GeneratePublicKey(pub) }) || pub.affine3Pt != old.affine3Pt {
							vFail(t, "GeneratePublicKey, %s: not refused", nm)
						}
					} else {
						var w [3]common.Fp2
						o[p.id].gen[g(kv)](&w, prv.Scalar)
						prv.GeneratePublicKey(pub)
						if pub.affine3Pt != w {
							vFail(t, "GeneratePublicKey, %s: not the key's own operation", nm)
						}
					}
					ss := make([]byte, 200)
					if p.id != q.id || kv == pv {
						if !vPanics(func() { prv.DeriveSecret(ss, pub) }) || !bytes.Equal(ss, make([]byte, 200)) {
							vFail(t, "DeriveSecret, %s: not refused", nm)
						}
					} else {
						peer := NewPrivateKey(q.id, pv)
						peer.Generate(rng)
						peer.GeneratePublicKey(pub)
						w := make([]byte, 200)
						o[p.id].der[g(kv)](w, prv.Scalar, &pub.affine3Pt)
						prv.DeriveSecret(ss, pub)
						if !bytes.Equal(ss, w) {
							vFail(t, "DeriveSecret, %s: not the key's own operation", nm)
						}
					}
					n++
				}
			}
		}
	}
	fmt.Printf("VERIF-CASES %d\n", n)
	fmt.Printf("VERIF-SAMPLE %d combinations\n", n)
}
