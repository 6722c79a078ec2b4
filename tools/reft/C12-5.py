import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed; F='dh/csidh/csidh.go'
# Validate / DeriveSecret / randFp restructure
ed(F,('''	if !isLess(&pub.a, &p) {
		return false
	}

	// Check if pub represents a smooth Montgomery curve.
	if pub.a.equal(&two) || pub.a.equal(&twoNeg) {
		return false
	}
''','''	if pub.a.equal(&twoNeg) || pub.a.equal(&two) || !isLess(&pub.a, &p) {
		return false
	}
'''),('''		done, res := cofactorMul(&P, &coeff{A.x, A.z}, 0, len(primes), &fp{1})
		if done {
			return res
		}
	}
''','''		order := fp{1}
		co := coeff{a: pub.a, c: one}
		done, res := cofactorMul(&P, &co, 0, primeCount, &order)
		if !done {
			continue
		}
		return res
	}
'''),('''	var pk PublicKey

	if !Validate(pub, rng) {
		return false
	}
''','''	pk := PublicKey{}
	if ok := Validate(pub, rng); !ok {
		return false
	}
'''),('''		for i := 0; i < len(s.wbuf); i++ {
			j := i / limbByteSize
			k := uint(i % 8)
			v[j] |= uint64(s.wbuf[i]) << (8 * k)
		}
''','''		for i := len(s.wbuf) - 1; i >= 0; i-- {
			v[i/8] = v[i/8]<<8 | uint64(s.wbuf[i])
		}
'''))
