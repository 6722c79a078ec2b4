//go:build go1.21

package aes

import (
	"bytes"
	stdaes "crypto/aes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/henrydcase/nobs/utils"
)

func vEnv() (cex []map[string]string, secs time.Duration, rng *rand.Rand) {
	b, _ := os.ReadFile(os.Getenv("VERIF_CEX"))
	json.Unmarshal(b, &cex)
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if n == 0 {
		n = 1
	}
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return cex, time.Duration(n) * time.Second, rand.New(rand.NewSource(s))
}

func vHex(s string) uint64 {
	v, _ := strconv.ParseUint(strings.TrimPrefix(s, "0x"), 16, 64)
	return v
}

func vPanics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func TestVerifAES(t *testing.T) {
	cex, d, rng := vEnv()
	n := 0
	fail := func(f string, a ...interface{}) {
		fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		t.Fatal("mismatch")
	}
	var gen AES
	var asm AESAsm
	for d := -17; d <= 17; d++ {
		for nm, c := range map[string]IAES{"AES": &gen, "AESAsm": &asm} {
			if nm == "AESAsm" && !utils.X86.HasAES {
				continue
			}
			c.SetKey(make([]byte, 16))
			buf := make([]byte, 64)
			for i, f := range []func(a, b []byte){c.Encrypt, c.Decrypt} {
				p := vPanics(func() { f(buf[20+d:36+d], buf[20:36]) })
				if p != (d != 0 && d > -16 && d < 16) {
					fail("%s direction %d, dst %d bytes behind src: panic %v", nm, i, d, p)
				}
			}
		}
	}
	try := func(key, in []byte) {
		n++
		ref, _ := stdaes.NewCipher(key)
		e, dd := make([]byte, 16), make([]byte, 16)
		ref.Encrypt(e, in)
		ref.Decrypt(dd, in)
		cs := map[string]IAES{"AES": &gen}
		if utils.X86.HasAES {
			cs["AESAsm"] = &asm
		}
		for nm, c := range cs {
			if err := c.SetKey(key); err != nil {
				fail("%s.SetKey(%x): %v", nm, key, err)
			}
			if n%2 == 0 {
				if err := c.SetKey(make([]byte, 33)); err == nil {
					fail("%s.SetKey of 33 bytes accepted", nm)
				}
				if err := c.SetKey(make([]byte, rng.Intn(16))); err == nil {
					fail("%s.SetKey of a short key accepted", nm)
				}
			}
			for dir, w := range [][]byte{e, dd} {
				f := c.Encrypt
				if dir == 1 {
					f = c.Decrypt
				}
				buf := make([]byte, 16+n%5)
				for i := range buf {
					buf[i] = 0xa5
				}
				src := append(append([]byte(nil), in...), make([]byte, n%3)...)
				f(buf, src)
				if !bytes.Equal(buf[:16], w) || !bytes.Equal(src[:16], in) {
					fail("%s dir %d key %x in %x: %x want %x", nm, dir, key, in, buf[:16], w)
				}
				for _, b := range buf[16:] {
					if b != 0xa5 {
						fail("%s dir %d writes past 16 bytes", nm, dir)
					}
				}
				f(src, src)
				if !bytes.Equal(src[:16], w) {
					fail("%s in place dir %d key %x in %x: %x want %x", nm, dir, key, in, src[:16], w)
				}
				if n%64 == 0 {
					l := rng.Intn(16)
					if !vPanics(func() { f(make([]byte, 16), make([]byte, l)) }) || !vPanics(func() { f(make([]byte, l), make([]byte, 16)) }) {
						fail("%s dir %d: no panic on a buffer of %d bytes", nm, dir, l)
					}
				}
			}
		}
		if n == 3 {
			fmt.Printf("VERIF-SAMPLE key %x block %x\n", key, in)
		}
	}
	for _, c := range cex {
		for _, kl := range []int{16, 24, 32} {
			k, in := make([]byte, kl), make([]byte, 16)
			for i := range k {
				k[i] = byte(vHex(c[fmt.Sprintf("key%d", i)]))
			}
			for i := range in {
				in[i] = byte(vHex(c[fmt.Sprintf("in%d", i)]))
			}
			try(k, in)
		}
	}
	for end := time.Now().Add(d); time.Now().Before(end); {
		k, in := make([]byte, []int{16, 24, 32}[rng.Intn(3)]), make([]byte, 16)
		rng.Read(k)
		rng.Read(in)
		try(k, in)
	}
	fmt.Printf("VERIF-CASES %d\n", n)
}
