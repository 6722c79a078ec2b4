import sys; sys.path.insert(0,'/verif/tools/reft')
# the generic arithmetic of the three fields with helpers for the conditional addition and the accumulation
for n in '434','503','751':
    F='dh/sidh/internal/p%s/arith_generic.go'%n
    s=open(F).read()
    o='''				hi, lo = bits.Mul64(z[j], P503p1[i-j])
				v, carry = bits.Add64(lo, v, 0)
				u, carry = bits.Add64(hi, u, carry)
				t += carry
'''.replace('503',n)
    assert s.count(o)==2,n
    s=s.replace(o,"				t, u, v = mac(t, u, v, z[j], P%sp1[i-j])\n"%n)
    o='''			hi, lo = bits.Mul64(x[j], y[i-j])
			v, carry = bits.Add64(lo, v, 0)
			u, carry = bits.Add64(hi, u, carry)
			t += carry
'''
    assert s.count(o)==2,n
    s=s.replace(o,"			t, u, v = mac(t, u, v, x[j], y[i-j])\n")
    s=s.replace("	var carry, t, u, v uint64\n	var hi, lo uint64\n","	var carry, t, u, v uint64\n")
    s=s.replace("	var u, v, t uint64\n	var hi, lo uint64\n	var carry uint64\n","	var u, v, t uint64\n")
    s=s.replace('''		v = u
		u = t
		t = 0
''','''		v, u, t = u, t, 0
''')
    o='''	mask := uint64(0 - carry)
	carry = 0
	for i := 0; i < FpWords; i++ {
		z[i], carry = bits.Add64(z[i], P503x2[i]&mask, carry)
	}
'''.replace('503',n)
    assert s.count(o)==1,n
    s=s.replace(o,"	addMasked(z, &P%sx2, 0-carry)\n"%n)
    o='''	mask := uint64(0 - borrow)
	borrow = 0

	for i := 0; i < FpWords; i++ {
		z[i], borrow = bits.Add64(z[i], P503x2[i]&mask, borrow)
	}
'''.replace('503',n)
    assert s.count(o)==1,n
    s=s.replace(o,"	addMasked(z, &P%sx2, 0-borrow)\n"%n)
    o='''	var borrow, mask uint64
	for i := 0; i < FpWords; i++ {
		x[i], borrow = bits.Sub64(x[i], P503[i], borrow)
	}

	// Sets all bits if borrow = 1
	mask = 0 - borrow
	borrow = 0
	for i := 0; i < FpWords; i++ {
		x[i], borrow = bits.Add64(x[i], P503[i]&mask, borrow)
	}
'''.replace('503',n)
    assert s.count(o)==1,n
    s=s.replace(o,'''	var t common.Fp
	var borrow uint64
	for i := 0; i < FpWords; i++ {
		t[i], borrow = bits.Sub64(x[i], P503[i], borrow)
	}
	if borrow == 0 {
		*x = t
	}
'''.replace('503',n).replace("t common.Fp","t common.Fp"))
    s+='''
// mac adds x*y to the three-word accumulator (t,u,v).
func mac(t, u, v, x, y uint64) (uint64, uint64, uint64) {
	var carry uint64
	hi, lo := bits.Mul64(x, y)
	v, carry = bits.Add64(v, lo, 0)
	u, carry = bits.Add64(u, hi, carry)
	return t + carry, u, v
}

// addMasked adds m&mask to z.
func addMasked(z, m *common.Fp, mask uint64) {
	var carry uint64
	for i := 0; i < FpWords; i++ {
		z[i], carry = bits.Add64(z[i], mask&m[i], carry)
	}
}
'''
    open(F,'w').write(s)
