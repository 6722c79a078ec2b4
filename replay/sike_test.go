//go:build go1.21

package sidh

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/henrydcase/nobs/hash/sha3"
)

func vXof(n int, parts ...[]byte) []byte {
	h := sha3.NewShake256()
	for _, p := range parts {
		h.Write(p)
	}
	o := make([]byte, n)
	h.Read(o)
	return o
}

// vEph: scalar and public key of the ephemeral pair for a seed
func vEph(v vPar, seed ...[]byte) (*PrivateKey, []byte) {
	prv := NewPrivateKey(v.id, KeyVariantSidhA)
	r := vXof((v.aBits+7)/8, seed...)
	if v.aBits%8 != 0 {
		r[len(r)-1] &= 1<<uint(v.aBits%8) - 1
	}
	prv.Import(append(r, make([]byte, prv.Size()-len(r))...))
	pub := NewPublicKey(v.id, KeyVariantSidhA)
	prv.GeneratePublicKey(pub)
	b := make([]byte, 6*v.bl)
	pub.Export(b)
	return prv, b
}

func vDerive(v vPar, prv *PrivateKey, kv KeyVariant, pk []byte) []byte {
	p := NewPublicKey(v.id, kv)
	p.Import(pk)
	j := make([]byte, 2*v.bl)
	prv.DeriveSecret(j, p)
	return j
}

func vEncaps(v vPar, m, pk []byte) (ct, K []byte) {
	skA, c0 := vEph(v, m, pk)
	j := vDerive(v, skA, KeyVariantSidhB, pk)
	c1 := vXof(v.msg, j)
	for i := range c1 {
		c1[i] ^= m[i]
	}
	ct = append(append([]byte(nil), c0...), c1...)
	return ct, vXof(v.msg, m, ct)
}

func vDecaps(v vPar, prv *PrivateKey, pk, ct []byte) []byte {
	sk := NewPrivateKey(v.id, KeyVariantSidhB)
	sk.Import(prv.Scalar)
	m := vXof(v.msg, vDerive(v, sk, KeyVariantSidhA, ct[:6*v.bl]))
	for i := range m {
		m[i] ^= ct[6*v.bl+i]
	}
	_, c0 := vEph(v, m, pk)
	if !bytes.Equal(c0, ct[:6*v.bl]) {
		m = prv.S
	}
	return vXof(v.msg, m, ct)
}

func vKem(v vPar, r *vRdr) *KEM {
	switch v.id {
	case Fp434:
		return NewSike434(r)
	case Fp503:
		return NewSike503(r)
	}
	return NewSike751(r)
}

type vPairT struct {
	prv *PrivateKey
	pub *PublicKey
	pk  []byte
}

func vPair(rng *rand.Rand, v vPar) (k vPairT) {
	k.prv, k.pub = NewPrivateKey(v.id, KeyVariantSike), NewPublicKey(v.id, KeyVariantSike)
	b := make([]byte, 200)
	rng.Read(b)
	k.prv.Generate(&vRdr{b: b, fail: -1})
	k.prv.GeneratePublicKey(k.pub)
	k.pk = make([]byte, k.pub.Size())
	k.pub.Export(k.pk)
	return
}

func TestVerifSike(t *testing.T) {
	cases := 0
	defer func() { fmt.Printf("VERIF-CASES %d\n", cases) }()
	_, secs, rng := vEnv()
	for end := time.Now().Add(secs); ; {
		for _, v := range vPars {
			cases++
			vSike(t, rng, v)
			if time.Now().After(end) && v.id == Fp751 {
				return
			}
		}
	}
}

func vSike(t *testing.T, rng *rand.Rand, v vPar) {
	src := &vRdr{b: make([]byte, 97), fail: -1}
	rng.Read(src.b)
	kem := vKem(v, src)
	ks := []vPairT{vPair(rng, v), vPair(rng, v)}
	if kem.CiphertextSize() != 6*v.bl+v.msg || kem.SharedSecretSize() != v.msg {
		vFail(t, "field %d: sizes %d %d", v.id, kem.CiphertextSize(), kem.SharedSecretSize())
	}
	for it := 0; it < 3; it++ {
		k := ks[it%2]
		m := make([]byte, v.msg)
		cp := *src
		for i := range m {
			m[i] = cp.b[(cp.n+i)%len(cp.b)]
		}
		ex := rng.Intn(2) * 9
		ct, ss := make([]byte, kem.CiphertextSize()+ex), make([]byte, v.msg+ex)
		if err := kem.Encapsulate(ct, ss, k.pub); err != nil {
			vFail(t, "field %d: Encapsulate: %v", v.id, err)
		}
		wct, wK := vEncaps(v, m, k.pk)
		if !bytes.Equal(ct[:len(wct)], wct) || !bytes.Equal(ss[:v.msg], wK) || !bytes.Equal(ct[len(wct):], make([]byte, ex)) || !bytes.Equal(ss[v.msg:], make([]byte, ex)) {
			vFail(t, "field %d, operation %d: Encapsulate for message %x:\n ct %x\nwant %x\n ss %x want %x", v.id, it, m, ct, wct, ss, wK)
		}
		ct = ct[:len(wct)]
		mods := [][]byte{wct}
		for i := 0; i < 3; i++ {
			c := append([]byte(nil), wct...)
			switch i {
			case 0:
				c[rng.Intn(6*v.bl)] ^= 1 << uint(rng.Intn(3))
			case 1:
				c[6*v.bl+rng.Intn(v.msg)] ^= 1 << uint(rng.Intn(8))
			case 2:
				c[6*v.bl-v.bl] ^= 1
			}
			mods = append(mods, c)
		}
		for i, c := range mods {
			got := make([]byte, v.msg)
			if err := kem.Decapsulate(got, k.prv, k.pub, c); err != nil {
				vFail(t, "field %d: Decapsulate: %v", v.id, err)
			}
			if want := vDecaps(v, k.prv, k.pk, c); !bytes.Equal(got, want) || i == 0 && !bytes.Equal(got, wK) {
				vFail(t, "field %d, operation %d, ciphertext variant %d: Decapsulate gives %x want %x", v.id, it, i, got, want)
			}
		}
		if it == 1 {
			kem.Reset()
		}
	}
	// refusals
	k := ks[0]
	for i := 0; i < 10; i++ {
		ct, ss := make([]byte, kem.CiphertextSize()), make([]byte, v.msg)
		rng.Read(ct)
		rng.Read(ss)
		prv, pub, kk := *k.prv, *k.pub, kem
		enc := i < 5
		switch i {
		case 0, 5:
			pub.KeyVariant = KeyVariantSidhB
		case 1, 6:
			ss = ss[:v.msg-1]
		case 2, 7:
			ct = ct[:len(ct)-1]
		case 3:
			kk = vKem(v, &vRdr{b: src.b, fail: rng.Intn(v.msg)})
		case 8:
			prv.KeyVariant = KeyVariantSidhB
		case 9:
			ct = append(ct, 0)
		case 4:
			kk = new(KEM)
		}
		c0, s0 := append([]byte(nil), ct...), append([]byte(nil), ss...)
		var err error
		p := vPanics(func() {
			if enc {
				err = kk.Encapsulate(ct, ss, &pub)
			} else {
				err = kk.Decapsulate(ss, &prv, &pub, ct)
			}
		})
		if !p && err == nil {
			vFail(t, "field %d: case %d is not refused", v.id, i)
		}
		if !bytes.Equal(c0, ct) || !bytes.Equal(s0, ss) {
			vFail(t, "field %d: case %d is refused after writing output", v.id, i)
		}
	}
}
