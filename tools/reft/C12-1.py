import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed; F='dh/csidh/csidh.go'
# helper for setup, struct of two loops
ed(F,('''	for i, v := range primes {
		t := (prv.e[uint(i)>>1] << ((uint(i) % 2) * 4)) >> 4
		if t > 0 {
			e[0][i] = uint8(t)
			e[1][i] = 0
			mul512(&k[1], &k[1], v)
		} else if t < 0 {
			e[1][i] = uint8(-t)
			e[0][i] = 0
			mul512(&k[0], &k[0], v)
		} else {
			e[0][i] = 0
			e[1][i] = 0
			mul512(&k[0], &k[0], v)
			mul512(&k[1], &k[1], v)
		}
	}
''','''	unpackExponents(&e, &k, prv)
'''),('''// groupAction evaluates''','''func unpackExponents(e *[2][primeCount]uint8, k *[2]fp, prv *PrivateKey) {
	for i := 0; i < primeCount; i++ {
		b := prv.e[i/2]
		if i%2 == 1 {
			b <<= 4
		}
		b >>= 4
		switch {
		case b > 0:
			e[0][i] = uint8(b)
		case b < 0:
			e[1][i] = uint8(-b)
		}
		for s := range k {
			if e[s][i] == 0 {
				mul512(&k[s], &k[s], primes[i])
			}
		}
	}
}

// groupAction evaluates'''))
