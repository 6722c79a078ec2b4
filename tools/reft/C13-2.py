# row-wise multiplication, branches instead of masks, the reduction unrolled over a copy
for n in '434','503','751':
    F='dh/sidh/internal/p%s/arith_generic.go'%n
    s=open(F).read()
    a=s.index("func mulP%s("%n); b=s.index("// Compute z = x + y, without")
    s=s[:a]+'''func mulP503(z *common.FpX2, x, y *common.Fp) {
	var r [2 * FpWords]uint64
	for i := 0; i < FpWords; i++ {
		var carry uint64
		for j := 0; j < FpWords; j++ {
			hi, lo := bits.Mul64(x[i], y[j])
			var c uint64
			lo, c = bits.Add64(lo, carry, 0)
			hi += c
			r[i+j], c = bits.Add64(r[i+j], lo, 0)
			carry = hi + c
		}
		r[i+FpWords] = carry
	}
	copy(z[:], r[:])
}

'''.replace('503',n)+s[b:]
    o='''	mask := uint64(0 - borrow)
	borrow = 0

	for i := 0; i < FpWords; i++ {
		z[i], borrow = bits.Add64(z[i], P503x2[i]&mask, borrow)
	}
'''.replace('503',n)
    assert s.count(o)==1
    s=s.replace(o,'''	if borrow == 1 {
		var carry uint64
		for i := 0; i < FpWords; i++ {
			z[i], carry = bits.Add64(z[i], P503x2[i], carry)
		}
	}
'''.replace('503',n))
    o='''	// z = z - P503x2
	carry = 0
	for i := 0; i < FpWords; i++ {
		z[i], carry = bits.Sub64(z[i], P503x2[i], carry)
	}

	// if z<0 add P503x2 back
	mask := uint64(0 - carry)
	carry = 0
	for i := 0; i < FpWords; i++ {
		z[i], carry = bits.Add64(z[i], P503x2[i]&mask, carry)
	}
'''.replace('503',n)
    assert s.count(o)==1,n
    s=s.replace(o,'''	// subtract P503x2 unless that is negative
	var t [FpWords]uint64
	carry = 0
	for i := range t {
		t[i], carry = bits.Sub64(z[i], P503x2[i], carry)
	}
	if carry == 0 {
		copy(z[:], t[:])
	}
'''.replace('503',n))
    open(F,'w').write(s)
