import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed; F='dh/csidh/csidh.go'
ed(F,('''	var mulL, mulR = fp{1}, fp{1}
	// compute u = primes_1 * ... * primes_m
	for i := halfL; i < mid; i++ {
		mul512(&mulR, &mulR, primes[i])
	}
	// compute v = primes_m+1 * ... * primes_n
	for i := mid; i < halfR; i++ {
		mul512(&mulL, &mulL, primes[i])
	}
''','''	mulR := primeProduct(halfL, mid)
	mulL := primeProduct(mid, halfR)
'''),('''// groupAction evaluates''','''func primeProduct(l, r int) fp {
	out := fp{1}
	for _, q := range primes[l:r] {
		mul512(&out, &out, q)
	}
	return out
}

// groupAction evaluates'''))
