F='hash/sha3/keccakf.go'
s=open(F).read()
a=s.index("// keccakF1600 applies")
s=s[:a]+'''// rotation offsets and destinations of the rho and pi steps
var (
	rhoOff = [24]int{1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44}
	piLane = [24]int{10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1}
)

// keccakF1600 applies the Keccak permutation to a 1600b-wide
// state represented as a slice of 25 uint64s.
func keccakF1600(a *[25]uint64) {
	var bc [5]uint64
	for _, k := range rc {
		// theta
		for x := range bc {
			bc[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d := bc[(x+4)%5] ^ bits.RotateLeft64(bc[(x+1)%5], 1)
			for y := x; y < 25; y += 5 {
				a[y] ^= d
			}
		}
		// rho and pi
		t := a[1]
		for i, j := range piLane {
			a[j], t = bits.RotateLeft64(t, rhoOff[i]), a[j]
		}
		// chi
		for y := 0; y < 25; y += 5 {
			copy(bc[:], a[y:y+5])
			for x := 0; x < 5; x++ {
				a[y+x] = bc[x] ^ (^bc[(x+1)%5] & bc[(x+2)%5])
			}
		}
		// iota
		a[0] ^= k
	}
}
'''
open(F,'w').write(s)
