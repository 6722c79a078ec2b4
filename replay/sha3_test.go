//go:build go1.21

package sha3

import (
	"bytes"
	stdsha3 "crypto/sha3"
	"encoding/json"
	"fmt"
	"hash"
	"math/bits"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
)

func vEnv() (cex []map[string]string, secs time.Duration, rng *rand.Rand) {
	b, _ := os.ReadFile(os.Getenv("VERIF_CEX"))
	json.Unmarshal(b, &cex)
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if n == 0 {
		n = 1
	}
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return cex, time.Duration(n) * time.Second, rand.New(rand.NewSource(s))
}

func vHex(s string) uint64 {
	v, _ := strconv.ParseUint(strings.TrimPrefix(s, "0x"), 16, 64)
	return v
}

func vRC(ir int) (v uint64) {
	for j := 0; j <= 6; j++ {
		t, r := (j+7*ir)%255, 1
		for i := 0; i < t; i++ {
			r <<= 1
			if r&0x100 != 0 {
				r ^= 0x171
			}
		}
		v |= uint64(r&1) << ((1 << j) - 1)
	}
	return
}

// FIPS 202 Keccak-f[1600], written from the standard.
func vKeccak(a [25]uint64) [25]uint64 {
	for r := 0; r < 24; r++ {
		var C, D [5]uint64
		for x := range C {
			for y := 0; y < 5; y++ {
				C[x] ^= a[x+5*y]
			}
		}
		for x := range D {
			D[x] = C[(x+4)%5] ^ bits.RotateLeft64(C[(x+1)%5], 1)
		}
		for i := range a {
			a[i] ^= D[i%5]
		}
		var b [25]uint64
		b[0] = a[0]
		x, y := 1, 0
		for t := 0; t < 24; t++ {
			b[y+5*((2*x+3*y)%5)] = bits.RotateLeft64(a[x+5*y], (t+1)*(t+2)/2)
			x, y = y, (2*x+3*y)%5
		}
		for y := 0; y < 5; y++ {
			for x := 0; x < 5; x++ {
				a[x+5*y] = b[x+5*y] ^ ^b[(x+1)%5+5*y]&b[(x+2)%5+5*y]
			}
		}
		a[0] ^= vRC(r)
	}
	return a
}

func TestVerifKeccak(t *testing.T) {
	cex, d, rng := vEnv()
	n := 0
	try := func(a [25]uint64) {
		n++
		var g [27]uint64
		g[0], g[26] = rng.Uint64(), rng.Uint64()
		k0, k26 := g[0], g[26]
		copy(g[1:26], a[:])
		keccakF1600((*[25]uint64)(g[1:26]))
		w := vKeccak(a)
		if !bytes.Equal([]byte(fmt.Sprint(g[1:26])), []byte(fmt.Sprint(w[:]))) || g[0] != k0 || g[26] != k26 {
			fmt.Printf("VERIF-FAIL keccakF1600(%#x) = %#x want %#x\n", a, g[1:26], w)
			t.Fatal("mismatch")
		}
	}
	for _, c := range cex {
		var a [25]uint64
		for i := range a {
			a[i] = vHex(c[fmt.Sprintf("a%d", i)])
		}
		try(a)
	}
	try([25]uint64{})
	for end := time.Now().Add(d); time.Now().Before(end); {
		var a [25]uint64
		for i := range a {
			switch rng.Intn(4) {
			case 0:
				a[i] = 0
			case 1:
				a[i] = ^uint64(0)
			default:
				a[i] = rng.Uint64()
			}
		}
		try(a)
		if n == 5 {
			fmt.Printf("VERIF-SAMPLE keccakF1600(%#x...)\n", a[:3])
		}
	}
	fmt.Printf("VERIF-CASES %d\n", n)
}

type vH interface {
	Write([]byte) (int, error)
	Reset()
}

var vKinds = []struct {
	name      string
	rate, out int
	mk        func() interface{}
	ref       func(msg []byte, n int) []byte
}{
	{"224", 144, 28, func() interface{} { return New224() }, func(m []byte, n int) []byte { s := stdsha3.Sum224(m); return s[:] }},
	{"256", 136, 32, func() interface{} { return New256() }, func(m []byte, n int) []byte { s := stdsha3.Sum256(m); return s[:] }},
	{"384", 104, 48, func() interface{} { return New384() }, func(m []byte, n int) []byte { s := stdsha3.Sum384(m); return s[:] }},
	{"512", 72, 64, func() interface{} { return New512() }, func(m []byte, n int) []byte { s := stdsha3.Sum512(m); return s[:] }},
	{"shake128", 168, 0, func() interface{} { return NewShake128() }, func(m []byte, n int) []byte { return stdsha3.SumSHAKE128(m, n) }},
	{"shake256", 136, 0, func() interface{} { return NewShake256() }, func(m []byte, n int) []byte { return stdsha3.SumSHAKE256(m, n) }},
}

func vBytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

func vLen(rng *rand.Rand, rate int) int {
	switch rng.Intn(6) {
	case 0:
		return rng.Intn(3)
	case 1:
		return rate*rng.Intn(4) + rng.Intn(3)
	case 2:
		return rate - 1 + rng.Intn(3)
	case 3:
		return rng.Intn(700)
	}
	return rng.Intn(2 * rate)
}

func TestVerifSponge(t *testing.T) {
	_, d, rng := vEnv()
	n := 0
	fail := func(f string, a ...interface{}) {
		fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		t.Fatal("mismatch")
	}
	for end := time.Now().Add(d); time.Now().Before(end); {
		k := vKinds[n%len(vKinds)]
		n++
		h := k.mk()
		var msg []byte
		var log []string
		reading := false
		off := 0
		check := func(b []byte) {
			w := k.ref(msg, off+len(b))
			if !bytes.Equal(w[off:], b) {
				fail("%s: history %v: output %x want %x", k.name, log, b, w[off:])
			}
		}
		for op := 0; op < 12; op++ {
			switch o := rng.Intn(10); {
			case o < 4:
				b := vBytes(rng, vLen(rng, k.rate))
				c := append([]byte(nil), b...)
				log = append(log, fmt.Sprintf("Write %d", len(b)))
				w, err := h.(vH).Write(b)
				if !bytes.Equal(b, c) {
					fail("%s: history %v: Write modified its input", k.name, log)
				}
				if reading {
					if w != 0 || err == nil {
						fail("%s: history %v: Write after Read returned %d, %v", k.name, log, w, err)
					}
				} else {
					if w != len(b) || err != nil {
						fail("%s: history %v: Write returned %d, %v", k.name, log, w, err)
					}
					msg = append(msg, b...)
				}
			case o < 6 && k.out > 0:
				pre := vBytes(rng, rng.Intn(40))
				if rng.Intn(3) == 0 {
					pre = nil
				}
				in := append(make([]byte, 0, len(pre)+rng.Intn(100)), pre...)
				if pre == nil {
					in = nil
				}
				log = append(log, fmt.Sprintf("Sum %d/%d", len(in), cap(in)))
				s := h.(hash.Hash).Sum(in)
				if !bytes.Equal(s, append(append([]byte(nil), pre...), k.ref(msg, 0)...)) {
					fail("%s: history %v: Sum = %x want %x", k.name, log, s, k.ref(msg, 0))
				}
				if h.(hash.Hash).Size() != k.out || h.(hash.Hash).BlockSize() != k.rate {
					fail("%s: Size/BlockSize", k.name)
				}
			case o < 8 && k.out == 0:
				b := vBytes(rng, vLen(rng, k.rate))
				log = append(log, fmt.Sprintf("Read %d", len(b)))
				w, err := h.(ShakeHash).Read(b)
				if w != len(b) || err != nil {
					fail("%s: history %v: Read returned %d, %v", k.name, log, w, err)
				}
				check(b)
				off += len(b)
				reading = true
			case o == 8 && k.out == 0:
				log = append(log, "Clone")
				c := h.(ShakeHash).Clone()
				// disturb the original and go on with the clone, or the other way round
				if rng.Intn(2) == 0 {
					h, c = c, h.(ShakeHash)
				}
				c.Write(vBytes(rng, vLen(rng, k.rate)))
				c.Read(vBytes(rng, vLen(rng, k.rate)))
			case o == 9 && rng.Intn(2) == 0:
				log = append(log, "Reset")
				h.(vH).Reset()
				msg, off, reading = nil, 0, false
			}
		}
		if k.out > 0 {
			s := h.(hash.Hash).Sum(nil)
			if !bytes.Equal(s, k.ref(msg, 0)) {
				fail("%s: history %v: Sum = %x want %x", k.name, log, s, k.ref(msg, 0))
			}
		} else {
			b := make([]byte, vLen(rng, k.rate))
			h.(ShakeHash).Read(b)
			log = append(log, fmt.Sprintf("Read %d", len(b)))
			check(b)
		}
		m, o := vBytes(rng, vLen(rng, k.rate)), make([]byte, vLen(rng, k.rate))
		ShakeSum128(o, m)
		if !bytes.Equal(o, stdsha3.SumSHAKE128(m, len(o))) {
			fail("ShakeSum128 of %d bytes to %d bytes", len(m), len(o))
		}
		ShakeSum256(o, m)
		if !bytes.Equal(o, stdsha3.SumSHAKE256(m, len(o))) {
			fail("ShakeSum256 of %d bytes to %d bytes", len(m), len(o))
		}
		if n == 5 {
			fmt.Printf("VERIF-SAMPLE %s %v\n", k.name, log)
		}
	}
	// many blocks at once, around the widths of a block counter
	for _, nb := range []int{256, 1 << 16} {
		for i, k := range vKinds {
			if nb > 256 && i != 1 && i != 4 {
				continue
			}
			m := vBytes(rng, (nb+rng.Intn(3)-1)*k.rate+rng.Intn(k.rate))
			h := k.mk()
			h.(vH).Write(m)
			n++
			if k.out > 0 {
				if s := h.(hash.Hash).Sum(nil); !bytes.Equal(s, k.ref(m, 0)) {
					fail("%s: one Write of %d bytes, Sum = %x want %x", k.name, len(m), s, k.ref(m, 0))
				}
				continue
			}
			o := make([]byte, (nb+rng.Intn(3))*k.rate+rng.Intn(k.rate))
			if w, err := h.(ShakeHash).Read(o); w != len(o) || err != nil {
				fail("%s: one Write of %d bytes, one Read of %d returned %d, %v", k.name, len(m), len(o), w, err)
			}
			if !bytes.Equal(o, k.ref(m, len(o))) {
				fail("%s: one Write of %d bytes, one Read of %d bytes: wrong output", k.name, len(m), len(o))
			}
		}
	}
	fmt.Printf("VERIF-CASES %d\n", n)
}

func TestVerifCShake(t *testing.T) {
	_, d, rng := vEnv()
	n := 0
	lens := []int{0, 1, 2, 15, 31, 32, 33, 134, 135, 136, 137, 160, 162, 163, 164, 165, 166, 167, 168, 169, 300, 8191, 8192, 70000}
	for end := time.Now().Add(d); time.Now().Before(end); {
		n++
		pick := func() int {
			if rng.Intn(3) == 0 {
				return rng.Intn(400)
			}
			if rng.Intn(4) == 0 {
				return lens[rng.Intn(len(lens))]
			}
			return lens[rng.Intn(len(lens)-3)]
		}
		N, S := vBytes(rng, pick()), vBytes(rng, pick())
		msg := vBytes(rng, vLen(rng, 168))
		w1, w2 := make([]byte, 200), make([]byte, 200)
		r1, r2 := stdsha3.NewCSHAKE128(N, S), stdsha3.NewCSHAKE256(N, S)
		r1.Write(msg)
		r1.Read(w1)
		r2.Write(msg)
		r2.Read(w2)
		for i, mk := range []func(N, S []byte) ShakeHash{NewCShake128, NewCShake256} {
			n2, s2 := append([]byte(nil), N...), append([]byte(nil), S...)
			if i == n&1 { // two strings in one array
				both := append(append([]byte(nil), N...), S...)
				n2, s2 = both[:len(N)], both[len(N):]
			}
			h := mk(n2, s2)
			if string(n2) != string(N) || string(s2) != string(S) {
				fmt.Printf("VERIF-FAIL cSHAKE changes its arguments, len(N) %d, len(S) %d\n", len(N), len(S))
				t.Fatal("mismatch")
			}
			rng.Read(n2)
			rng.Read(s2)
			w := [][]byte{w1, w2}[i]
			for round := 0; round < 3; round++ {
				switch round {
				case 1:
					h.Reset()
				case 2:
					h.Reset()
					rate := []int{168, 136}[i]
					h.Write(make([]byte, []int{0, rate, 2 * rate, rng.Intn(400)}[rng.Intn(4)]))
					h.Reset()
					c := h.Clone()
					c.Reset()
					h.Write(msg)
					h = c
				}
				h.Write(msg)
				g := make([]byte, 200)
				h.Read(g)
				if !bytes.Equal(g, w) {
					fmt.Printf("VERIF-FAIL cSHAKE %d round %d len(N)=%d len(S)=%d N=%x S=%x got %x want %x\n", i, round, len(N), len(S), N, S, g[:16], w[:16])
					t.Fatal("mismatch")
				}
			}
		}
		if n == 2 {
			fmt.Printf("VERIF-SAMPLE len(N)=%d len(S)=%d\n", len(N), len(S))
		}
	}
	fmt.Printf("VERIF-CASES %d\n", n)
}
