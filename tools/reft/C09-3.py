import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed; F='dh/csidh/fp511.go'
# the montgomery multiplication: one loop over all words, with a copy at the end; accumulations as helpers
s=open(F).read()
a=s.index("func mulGeneric"); b=s.index("// Returns result of x<y")
s=s[:a]+'''func mulGeneric(r, x, y *fp) {
	var s fp
	for i := 0; i < numWords; i++ {
		mulStep(&s, x[i], y)
	}
	*r = s
}

// mulStep sets s to (s + xi*y + q*p) / 2^64.
func mulStep(s *fp, xi uint64, y *fp) {
	var t1, t2 [9]uint64
	var c uint64

	q := (xi*y[0] + s[0]) * pNegInv[0]
	mul576(&t1, &p, q)
	mul576(&t2, y, xi)
	for i := 0; i < 9; i++ {
		t1[i], c = bits.Add64(t1[i], t2[i], c)
	}
	_, c = bits.Add64(t1[0], s[0], 0)
	for i := 0; i < 7; i++ {
		s[i], c = bits.Add64(t1[i+1], s[i+1], c)
	}
	s[7] = t1[8] + c
}

'''+s[b:]
open(F,'w').write(s)
G='dh/csidh/fp511_generic.go'
s=open(G).read()
a=s.index("func mul576"); b=s.index("// cswap512 implements")
s=s[:a]+'''func mul576(r *[9]uint64, m1 *fp, m2 uint64) {
	var carry uint64
	for i := 0; i < numWords; i++ {
		h, l := bits.Mul64(m2, m1[i])
		var c uint64
		r[i], c = bits.Add64(l, carry, 0)
		carry = h + c
	}
	r[8] = carry
}

'''+s[b:]
s=s.replace('''		tmp = mask64 & (x[i] ^ y[i])
		x[i] = tmp ^ x[i]
		y[i] = tmp ^ y[i]
''','''		tmp = mask64 & (y[i] ^ x[i])
		x[i] ^= tmp
		y[i] ^= tmp
''')
open(G,'w').write(s)
