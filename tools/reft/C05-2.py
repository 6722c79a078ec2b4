import sys; sys.path.insert(0,'/verif/tools/reft')
F='hash/sm3/compress.go'
# the compression as a plain loop over 64 rounds, with the expanded message in an array
s=open(F).read()
a=s.index("func (d *digest) compress")
s=s[:a]+'''// expand computes the message words W_0..W_67.
func expand(w *[68]uint32, block []byte) {
	for j := 0; j < 16; j++ {
		w[j] = loadBe32(block[4*j:])
	}
	for j := 16; j < 68; j++ {
		w[j] = sm3e(w[j-16], w[j-9], w[j-3], w[j-13], w[j-6])
	}
}

func (d *digest) compress(input []byte, blocks int) {
	var w [68]uint32

	for ; blocks > 0; blocks-- {
		expand(&w, input[:BlockSize])
		input = input[BlockSize:]

		v := d.h
		t := uint32(0x79CC4519)
		for j := 0; j < 64; j++ {
			if j == 16 {
				t = 0x9D8A7A87
			}
			a12 := rotl32(12, v[0])
			ss1 := rotl32(7, a12+v[4]+t)
			ss2 := ss1 ^ a12
			var ff, gg uint32
			if j < 16 {
				ff, gg = v[0]^v[1]^v[2], v[4]^v[5]^v[6]
			} else {
				ff, gg = maj(v[0], v[1], v[2]), ch(v[4], v[5], v[6])
			}
			tt1 := ff + v[3] + ss2 + (w[j] ^ w[j+4])
			tt2 := gg + v[7] + ss1 + w[j]
			v = [8]uint32{tt1, v[0], rotl32(9, v[1]), v[2], p0(tt2), v[4], rotl32(19, v[5]), v[6]}
			t = t<<1 | t>>31
		}
		for i := range d.h {
			d.h[i] ^= v[i]
		}
	}
}
'''
a=s.index("func r1("); b=s.index("func sm3e(")
s=s[:a]+s[b:]
open(F,'w').write(s)
