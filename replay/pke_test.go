//go:build go1.21

package mkem

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/drbg"
	"github.com/henrydcase/nobs/hash/sha3"
)

func vSecs() (time.Duration, *rand.Rand) {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if n == 0 {
		n = 1
	}
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return time.Duration(n) * time.Second, rand.New(rand.NewSource(s))
}

func vFail(t *testing.T, f string, a ...interface{}) {
	fmt.Printf("VERIF-FAIL "+f+"\n", a...)
	t.Fatal("mismatch")
}

func vDrbg(seed int64) *drbg.CtrDrbg {
	b := make([]byte, 32)
	rand.New(rand.NewSource(seed)).Read(b)
	d := drbg.NewCtrDrbg()
	d.Init(b, nil)
	return d
}

// vEphKey: the ephemeral key an operation will draw from its generator
func vEphKey(rng io.Reader) (*csidh.PrivateKey, []byte) {
	var k csidh.PrivateKey
	var p csidh.PublicKey
	csidh.GeneratePrivateKey(&k, rng)
	csidh.GeneratePublicKey(&p, &k, rng)
	b := make([]byte, 64)
	p.Export(b)
	return &k, b
}

func vMask(k *csidh.PrivateKey, p *csidh.PublicKey, m []byte) []byte {
	var ss [64]byte
	if !csidh.DeriveSecret(&ss, p, k, vDrbg(5)) {
		panic("refused")
	}
	h := sha3.NewShake128()
	h.Write(ss[:])
	o := make([]byte, 16)
	h.Read(o)
	for i := range o {
		o[i] ^= m[i]
	}
	return o
}

func TestVerifPKE(t *testing.T) {
	cases := 0
	defer func() { fmt.Printf("VERIF-CASES %d\n", cases) }()
	secs, rng := vSecs()
	for end := time.Now().Add(secs); ; {
		cases++
		vPke(t, rng)
		if time.Now().After(end) {
			return
		}
	}
}

func vPke(t *testing.T, rng *rand.Rand) {
	type pair struct {
		k csidh.PrivateKey
		p csidh.PublicKey
	}
	var ks []*pair
	for i := 0; i < 3; i++ {
		var q pair
		csidh.GeneratePrivateKey(&q.k, rng)
		csidh.GeneratePublicKey(&q.p, &q.k, rng)
		ks = append(ks, &q)
	}
	var one PKE
	var many MultiPKE
	one.Allocate(vDrbg(1))
	many.Allocate(uint(len(ks)), vDrbg(1))
	for it := 0; it < 2; it++ {
		var m [16]byte
		rng.Read(m[:])
		s := rng.Int63()
		one.Rng, many.Rng = vDrbg(s), vDrbg(s)
		eph, U := vEphKey(vDrbg(s))
		q := ks[it]
		ct := one.Enc(&q.p, &m)
		if w := append(vMask(eph, &q.p, m[:]), make([]byte, 48)...); !bytes.Equal(ct.U[:], U) || !bytes.Equal(ct.V[:], w) {
			vFail(t, "Enc %d of message %x: U %x want %x; V %x want %x", it, m, ct.U, U, ct.V, w)
		}
		if pt := one.Dec(&q.k, &ct); pt != m {
			vFail(t, "Dec %d gives %x want %x", it, pt, m)
		}
		var keys []csidh.PublicKey
		for i := range ks {
			keys = append(keys, ks[(i+it)%len(ks)].p)
		}
		many.Encrypt(keys, &m)
		if !bytes.Equal(many.Ct0[:], U) {
			vFail(t, "Encrypt %d: Ct0 %x want %x", it, many.Ct0, U)
		}
		for i := range keys {
			if w := vMask(eph, &keys[i], m[:]); !bytes.Equal(many.Cts[i][:16], w) {
				vFail(t, "Encrypt %d of message %x: Cts[%d] %x want %x", it, m, i, many.Cts[i][:16], w)
			}
			var c ciphertext
			c.U = many.Ct0
			c.V = many.Cts[i]
			if pt := one.Dec(&ks[(i+it)%len(ks)].k, &c); pt != m {
				vFail(t, "Dec of recipient %d gives %x want %x", i, pt, m)
			}
		}
	}
}
