import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed; F='dh/csidh/csidh.go'
# helpers: exponent of a prime, product of primes, random point; rejection loop inverted
ed(F,('''func groupAction(''','''func (c *PrivateKey) exp(i int) int8 {
	v := c.e[i/2]
	if i%2 == 0 {
		v <<= 4
	}
	return v >> 4
}

// prod sets r to the product of the primes lo..hi-1.
func prod(r *fp, lo, hi int) {
	*r = fp{1}
	for _, l := range primes[lo:hi] {
		mul512(r, r, l)
	}
}

func groupAction('''),('''		t := (prv.e[uint(i)>>1] << ((uint(i) % 2) * 4)) >> 4
''','''		t := prv.exp(i^1)
'''),('''	var mulL, mulR = fp{1}, fp{1}
	// compute u = primes_1 * ... * primes_m
	for i := halfL; i < mid; i++ {
		mul512(&mulR, &mulR, primes[i])
	}
	// compute v = primes_m+1 * ... * primes_n
	for i := mid; i < halfR; i++ {
		mul512(&mulL, &mulL, primes[i])
	}
''','''	var mulL, mulR fp
	prod(&mulR, halfL, mid)
	prod(&mulL, mid, halfR)
'''),('''		v[len(v)-1] &= mask
		if isLess(v, &p) {
			return
		}
	}
''','''		v[len(v)-1] &= mask
		if !isLess(v, &p) {
			continue
		}
		break
	}
'''),('''	if pub.a.equal(&two) || pub.a.equal(&twoNeg) {
		return false
	}
''','''	for _, b := range []*fp{&two, &twoNeg} {
		if pub.a.equal(b) {
			return false
		}
	}
'''))
