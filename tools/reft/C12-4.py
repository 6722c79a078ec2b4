import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed; F='dh/csidh/csidh.go'
# cofactorMul: guard clauses, early exit
ed(F,('''		if !p.z.isZero() {
			var tmp = fp{primes[halfL]}
			xMul(p, p, a, &tmp)

			if !p.z.isZero() {
				// order does not divide p+1 -> ordinary curve
				return true, false
			}

			mul512(order, order, primes[halfL])
			if isLess(&fourSqrtP, order) {
				// order > 4*sqrt(p) -> supersingular curve
				return true, true
			}
		}
		return false, false
	}
''','''		if p.z.isZero() {
			return false, false
		}
		xMul(p, p, a, &fp{primes[halfL]})
		if !p.z.isZero() {
			return true, false
		}
		mul512(order, order, primes[halfL])
		big := isLess(&fourSqrtP, order)
		return big, big
	}
'''),('''	d1, r1 = cofactorMul(&Q, a, mid, halfR, order)
	d2, r2 = cofactorMul(p, a, halfL, mid, order)
	return d1 || d2, r1 || r2
''','''	if d1, r1 = cofactorMul(&Q, a, mid, halfR, order); d1 {
		return d1, r1
	}
	d2, r2 = cofactorMul(p, a, halfL, mid, order)
	return d2, r2
'''))
