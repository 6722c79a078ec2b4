//go:build go1.21

package sm3

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/bits"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

func vRefCF(h *[8]uint32, b []byte) {
	var w [68]uint32
	p0 := func(x uint32) uint32 { return x ^ bits.RotateLeft32(x, 9) ^ bits.RotateLeft32(x, 17) }
	p1 := func(x uint32) uint32 { return x ^ bits.RotateLeft32(x, 15) ^ bits.RotateLeft32(x, 23) }
	for i := 0; i < 16; i++ {
		w[i] = binary.BigEndian.Uint32(b[4*i:])
	}
	for i := 16; i < 68; i++ {
		w[i] = p1(w[i-16]^w[i-9]^bits.RotateLeft32(w[i-3], 15)) ^ bits.RotateLeft32(w[i-13], 7) ^ w[i-6]
	}
	v := *h
	for j := 0; j < 64; j++ {
		t := uint32(0x79cc4519)
		if j >= 16 {
			t = 0x7a879d8a
		}
		ss1 := bits.RotateLeft32(bits.RotateLeft32(v[0], 12)+v[4]+bits.RotateLeft32(t, j%32), 7)
		ss2 := ss1 ^ bits.RotateLeft32(v[0], 12)
		ff, gg := v[0]^v[1]^v[2], v[4]^v[5]^v[6]
		if j >= 16 {
			ff, gg = v[0]&v[1]|v[0]&v[2]|v[1]&v[2], v[4]&v[5]|^v[4]&v[6]
		}
		t1 := ff + v[3] + ss2 + (w[j] ^ w[j+4])
		t2 := gg + v[7] + ss1 + w[j]
		v[3], v[2], v[1], v[0] = v[2], bits.RotateLeft32(v[1], 9), v[0], t1
		v[7], v[6], v[5], v[4] = v[6], bits.RotateLeft32(v[5], 19), v[4], p0(t2)
	}
	for i := range h {
		h[i] ^= v[i]
	}
}

func vRef(m []byte) []byte {
	h := [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}
	p := append(append([]byte(nil), m...), 0x80)
	for len(p)%64 != 56 {
		p = append(p, 0)
	}
	p = binary.BigEndian.AppendUint64(p, 8*uint64(len(m)))
	for ; len(p) > 0; p = p[64:] {
		vRefCF(&h, p[:64])
	}
	var o []byte
	for _, x := range h {
		o = binary.BigEndian.AppendUint32(o, x)
	}
	return o
}

func TestVerifSM3(t *testing.T) {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if n == 0 {
		n = 1
	}
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rng := rand.New(rand.NewSource(s))
	fail := func(f string, a ...interface{}) {
		fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		t.Fatal("mismatch")
	}
	if fmt.Sprintf("%x", vRef([]byte("abc")))[:16] != "66c7f0f462eeedd9" {
		t.Fatal("reference")
	}
	cases := 0
	h := New()
	if h.Size() != 32 || h.BlockSize() != 64 {
		fail("Size %d BlockSize %d", h.Size(), h.BlockSize())
	}
	one := func(a, b, c int) {
		cases++
		m := make([]byte, a+b+c)
		rng.Read(m)
		h := h
		if cases%2 == 0 {
			h = New()
		} else {
			h.Write(m[:a/2])
			h.Reset()
		}
		o := 0
		for _, l := range []int{a, b, c} {
			in := append([]byte(nil), m[o:o+l]...)
			k, err := h.Write(in)
			if k != l || err != nil {
				fail("Write of %d bytes after %d returned (%d, %v)", l, o, k, err)
			}
			if !bytes.Equal(in, m[o:o+l]) {
				fail("Write changed its input (%d bytes after %d)", l, o)
			}
			o += l
			if got, want := h.Sum(nil), vRef(m[:o]); !bytes.Equal(got, want) {
				fail("writes %d,%d,%d: digest of %x is %x, want %x", a, b, c, m[:o], got, want)
			}
			if got, want := h.Sum(make([]byte, 0, 7)), vRef(m[:o]); !bytes.Equal(got, want) {
				fail("writes %d,%d,%d: digest of %x after Sum([]) is %x, want %x", a, b, c, m[:o], got, want)
			}
		}
		pre := make([]byte, 1+rng.Intn(80))
		rng.Read(pre)
		got := h.Sum(append([]byte(nil), pre...))
		w1 := append(append([]byte(nil), pre...), vRef(m)...)
		w2 := vRef(append(append([]byte(nil), m...), pre...)) // recorded finding
		if !bytes.Equal(got, w1) && !bytes.Equal(got, w2) {
			fail("Sum(%x) after %x is %x, want %x", pre, m, got, w1)
		}
	}
	for i := 0; i <= 200; i++ {
		one(i, 0, 1)
	}
	end := time.Now().Add(time.Duration(n) * time.Second)
	for time.Now().Before(end) {
		one(rng.Intn(300), rng.Intn(130), rng.Intn(130))
		one(rng.Intn(64), 64*rng.Intn(6), rng.Intn(64))
		one(rng.Intn(4000), rng.Intn(3), rng.Intn(130))
	}
	fmt.Printf("VERIF-CASES %d\n", cases)
}
