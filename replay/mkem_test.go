//go:build go1.21

package mkem

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/hash/sha3"
)

func vSecs() (time.Duration, *rand.Rand) {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if n == 0 {
		n = 1
	}
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return time.Duration(n) * time.Second, rand.New(rand.NewSource(s))
}

func vFail(t *testing.T, f string, a ...interface{}) {
	fmt.Printf("VERIF-FAIL "+f+"\n", a...)
	t.Fatal("mismatch")
}

func vPanics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

type vRdr struct {
	r    *rand.Rand
	last []byte
	fail bool
}

func (r *vRdr) Read(p []byte) (int, error) {
	if r.fail {
		return 0, fmt.Errorf("source failed")
	}
	r.r.Read(p)
	r.last = append([]byte(nil), p...)
	return len(p), nil
}

func vXof(n int, parts ...[]byte) []byte {
	h := sha3.NewShake256()
	for _, p := range parts {
		h.Write(p)
	}
	o := make([]byte, n)
	h.Read(o)
	return o
}

func vEph(p *common.SidhParams, m []byte) (*sidh.PrivateKey, []byte) {
	prv := sidh.NewPrivateKey(p.ID, sidh.KeyVariantSidhA)
	r := vXof(int(p.A.SecretByteLen), []byte{1}, m)
	r[len(r)-1] &= 1<<(p.A.SecretBitLen%8) - 1
	prv.Import(r)
	pub := sidh.NewPublicKey(p.ID, sidh.KeyVariantSidhA)
	prv.GeneratePublicKey(pub)
	b := make([]byte, pub.Size())
	pub.Export(b)
	return prv, b
}

func vMask(p *common.SidhParams, j, m []byte) []byte {
	x := vXof(p.MsgLen, []byte{2}, j)
	for i := range x {
		x[i] ^= m[i]
	}
	return x
}

func vCt(p *common.SidhParams, a *sidh.PrivateKey, pk, m []byte) []byte {
	b := sidh.NewPublicKey(p.ID, sidh.KeyVariantSidhB)
	b.Import(pk)
	j := make([]byte, p.SharedSecretSize)
	a.DeriveSecret(j, b)
	return vMask(p, j, m)
}

func vDecaps(p *common.SidhParams, prv *sidh.PrivateKey, pk, ct0, ct []byte) []byte {
	sk := sidh.NewPrivateKey(p.ID, sidh.KeyVariantSidhB)
	sk.Import(prv.Scalar)
	e := sidh.NewPublicKey(p.ID, sidh.KeyVariantSidhA)
	e.Import(ct0)
	j := make([]byte, p.SharedSecretSize)
	sk.DeriveSecret(j, e)
	m := vMask(p, j, ct)
	a, c0 := vEph(p, m)
	if !bytes.Equal(c0, ct0) || !bytes.Equal(vCt(p, a, pk, m), ct) {
		m = prv.S
	}
	return vXof(p.KemSize, []byte{3}, m)
}

func TestVerifMultiKem(t *testing.T) {
	cases := 0
	defer func() { fmt.Printf("VERIF-CASES %d\n", cases) }()
	secs, rng := vSecs()
	big := 0
	for end := time.Now().Add(secs); ; {
		for _, id := range []uint8{sidh.Fp434, sidh.Fp503, sidh.Fp751} {
			cases++
			vMulti(t, rng, id, 1+rng.Intn(4))
		}
		if time.Now().After(end) {
			return
		}
		if big++; big == 1 {
			vMulti(t, rng, sidh.Fp434, 300)
		}
	}
}

func vMulti(t *testing.T, rng *rand.Rand, id uint8, N int) {
	p := common.Params(id)
	src := &vRdr{r: rng}
	var c MultiKEM
	c.Allocate(id, uint(N), src)
	var prvs []*sidh.PrivateKey
	var pubs []*sidh.PublicKey
	var pks [][]byte
	for i := 0; i < N; i++ {
		if i > 20 {
			prvs, pubs, pks = append(prvs, prvs[i%20]), append(pubs, pubs[i%20]), append(pks, pks[i%20])
			continue
		}
		prv, pub := c.NewPrivateKey(), c.NewPublicKey()
		prv.Generate(src)
		prv.GeneratePublicKey(pub)
		pk := make([]byte, pub.Size())
		pub.Export(pk)
		prvs, pubs, pks = append(prvs, prv), append(pubs, pub), append(pks, pk)
	}
	for it := 0; it < 2; it++ {
		ex := rng.Intn(2) * 7
		ss := make([]byte, p.KemSize+ex)
		list := pubs
		if it == 1 && N > 1 {
			list = append(append([]*sidh.PublicKey(nil), pubs[1:]...), pubs[0])
		}
		if err := c.Encapsulate(ss, list); err != nil {
			vFail(t, "field %d: Encapsulate: %v", id, err)
		}
		m := src.last
		if len(m) != p.MsgLen {
			vFail(t, "field %d: Encapsulate draws %d bytes", id, len(m))
		}
		a, c0 := vEph(p, m)
		K := vXof(p.KemSize, []byte{3}, m)
		if !bytes.Equal(ss[:p.KemSize], K) || !bytes.Equal(ss[p.KemSize:], make([]byte, ex)) || !bytes.Equal(c.ct0[:p.PublicKeySize], c0) {
			vFail(t, "field %d, %d recipients, message %x: secret %x want %x; ct0 %x want %x", id, N, m, ss, K, c.ct0[:p.PublicKeySize], c0)
		}
		for i := range list {
			k := i
			if it == 1 && N > 1 {
				k = (i + 1) % N
			}
			ct := append([]byte(nil), c.cts[i][:p.MsgLen]...)
			if w := vCt(p, a, pks[k], m); !bytes.Equal(ct, w) {
				vFail(t, "field %d, message %x: ciphertext %d of %d is %x want %x", id, m, i, N, ct, w)
			}
			for v := 0; v < 4 && i < 10; v++ {
				x := append([]byte(nil), ct...)
				save := c.ct0
				switch v {
				case 1:
					x[rng.Intn(len(x))] ^= 1 << uint(rng.Intn(8))
				case 2:
					c.ct0[rng.Intn(p.PublicKeySize)] ^= 1
				case 3:
					copy(x, c.cts[rng.Intn(N)][:])
				}
				got := make([]byte, p.KemSize)
				if err := c.Decapsulate(got, prvs[k], pubs[k], x); err != nil {
					vFail(t, "field %d: Decapsulate: %v", id, err)
				}
				if w := vDecaps(p, prvs[k], pks[k], c.ct0[:p.PublicKeySize], x); !bytes.Equal(got, w) || v == 0 && !bytes.Equal(got, K) {
					vFail(t, "field %d: Decapsulate of ciphertext %d variant %d gives %x want %x", id, i, v, got, w)
				}
				c.ct0 = save
			}
		}
	}
	for i := 0; i < 9; i++ {
		ct, ss := make([]byte, p.KemSize), make([]byte, p.KemSize)
		rng.Read(ss)
		prv, pub, kk := *prvs[0], *pubs[0], &c
		enc := i < 4
		src.fail = false
		switch i {
		case 0, 4:
			pub.KeyVariant = sidh.KeyVariantSidhB
		case 1, 5:
			ss = ss[:len(ss)-1]
		case 2:
			src.fail = true
		case 3, 6:
			kk = new(MultiKEM)
		case 7:
			ct = ct[1:]
		case 8:
			prv.KeyVariant = sidh.KeyVariantSidhB
		}
		s0 := append([]byte(nil), ss...)
		var err error
		pn := vPanics(func() {
			if enc {
				list := append([]*sidh.PublicKey(nil), pubs[:1+rng.Intn(min(N, 4))]...)
				list[rng.Intn(len(list))] = &pub
				if i == 0 {
					list[len(list)-1] = &pub
				}
				err = kk.Encapsulate(ss, list)
			} else {
				err = kk.Decapsulate(ss, &prv, &pub, ct)
			}
		})
		src.fail = false
		if !pn && err == nil {
			vFail(t, "field %d: case %d is not refused", id, i)
		}
		if !bytes.Equal(s0, ss) {
			vFail(t, "field %d: case %d is refused after writing the secret", id, i)
		}
	}
}
