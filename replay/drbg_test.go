//go:build go1.21

package drbg

import (
	"bytes"
	"crypto/aes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	nobsaes "github.com/henrydcase/nobs/drbg/internal/aes"
	"github.com/henrydcase/nobs/utils"
)

func vEnv() (secs time.Duration, rng *rand.Rand) {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if n == 0 {
		n = 1
	}
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return time.Duration(n) * time.Second, rand.New(rand.NewSource(s))
}

type vRef struct{ k, v []byte }

func (r *vRef) block() []byte {
	for i := 15; i >= 0; i-- {
		r.v[i]++
		if r.v[i] != 0 {
			break
		}
	}
	b, _ := aes.NewCipher(r.k)
	o := make([]byte, 16)
	b.Encrypt(o, r.v)
	return o
}

func (r *vRef) update(d []byte) {
	var t []byte
	for i := 0; i < 3; i++ {
		t = append(t, r.block()...)
	}
	for i := range d {
		t[i] ^= d[i]
	}
	r.k, r.v = t[:32], t[32:48]
}

func vPad(b []byte) []byte {
	r := make([]byte, 48)
	copy(r, b)
	return r
}

func (r *vRef) seed(a, b []byte) {
	x := vPad(a)
	for i, y := range vPad(b) {
		x[i] ^= y
	}
	r.update(x)
}

func (r *vRef) gen(n int, ad []byte) []byte {
	s := vPad(ad)
	if len(ad) > 0 {
		r.update(s)
	}
	var o []byte
	for len(o) < n {
		o = append(o, r.block()...)
	}
	r.update(s)
	return o[:n]
}

func TestVerifDrbg(t *testing.T) {
	d, rng := vEnv()
	n := 0
	in := func(min int) []byte {
		k := []int{0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 100}[rng.Intn(13)]
		if k < min {
			k = min + rng.Intn(20)
		}
		b := make([]byte, k+rng.Intn(2)*60)
		rng.Read(b)
		return b[:k]
	}
	for end := time.Now().Add(d); time.Now().Before(end); {
		c := NewCtrDrbg()
		if n%2 == 1 {
			c.blockEnc = &nobsaes.AES{}
		}
		if _, isAsm := c.blockEnc.(*nobsaes.AESAsm); isAsm && !utils.X86.HasAES {
			fmt.Println("VERIF-FAIL AES-NI selected without the feature")
			t.Fatal()
		}
		r := &vRef{}
		h := ""
		fail := func(f string, a ...interface{}) {
			fmt.Printf("VERIF-FAIL history %s: %s\n", h, fmt.Sprintf(f, a...))
			t.Fatal("mismatch")
		}
		seeded := false
		for s := 0; s < 12; s++ {
			n++
			op := rng.Intn(4)
			if !seeded {
				op = 0
			}
			switch op {
			case 0:
				a, b := in(32), in(0)
				h += fmt.Sprintf("Init(%x,%x) ", a, b)
				if !c.Init(a, b) {
					fail("refused")
				}
				r.k, r.v = make([]byte, 32), make([]byte, 16)
				r.seed(a, b)
				seeded = true
				if rng.Intn(4) == 0 { // counter carries
					k := rng.Intn(16)
					for i := k; i < 16; i++ {
						c.v[i], r.v[i] = 0xff, 0xff
					}
					h += fmt.Sprintf("V[%d:]=ff ", k)
				}
			case 1:
				a, b := in(0), in(0)
				h += fmt.Sprintf("Reseed(%x,%x) ", a, b)
				c.Reseed(a, b)
				r.seed(a, b)
			default:
				l := rng.Intn(70)
				if rng.Intn(10) == 0 {
					l = 4000 + rng.Intn(1000)
				}
				var ad []byte
				buf := make([]byte, l+40)
				rng.Read(buf)
				tail := append([]byte(nil), buf[l:]...)
				var k int
				var err error
				if op == 2 {
					h += fmt.Sprintf("Read(%d) ", l)
					k, err = c.Read(buf[:l])
				} else {
					ad = in(0)
					h += fmt.Sprintf("ReadWithAdditionalData(%d,%x) ", l, ad)
					k, err = c.ReadWithAdditionalData(buf[:l], ad)
				}
				if k != l || err != nil {
					fail("returns %d, %v", k, err)
				}
				if w := r.gen(l, ad); !bytes.Equal(w, buf[:l]) {
					fail("got %x want %x", buf[:l], w)
				}
				if !bytes.Equal(tail, buf[l:]) {
					fail("wrote beyond the output")
				}
			}
		}
	}
	fmt.Printf("VERIF-CASES %d\n", n)
}
