import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed; F='dh/csidh/csidh.go'
# continue-style inner loop, loop condition
ed(F,('''	for {
		var P point
		var rhs fp
		prv''','''	for !done[0] || !done[1] {
		var P point
		var rhs fp
		prv'''),('''		A.c = one

		if done[0] && done[1] {
			break
		}
	}
''','''		A.c = one
	}
'''),('''			if e[sign][i] != 0 {
				var cof = fp{1}
				var K point

				for j := i + 1; j < len(primes); j++ {
					if e[sign][j] != 0 {
						mul512(&cof, &cof, primes[j])
					}
				}

				xMul(&K, &P, &A, &cof)
				if !K.z.isZero() {
					xIso(&P, &A, &K, v)
					e[sign][i] = e[sign][i] - 1
					if e[sign][i] == 0 {
						mul512(&k[sign], &k[sign], primes[i])
					}
				}
			}
			done[sign] = done[sign] && (e[sign][i] == 0)
''','''			if e[sign][i] == 0 {
				continue
			}
			cof := fp{1}
			var K point
			for j := len(primes) - 1; j > i; j-- {
				if e[sign][j] != 0 {
					mul512(&cof, &cof, primes[j])
				}
			}
			xMul(&K, &P, &A, &cof)
			if K.z.isZero() {
				done[sign] = false
				continue
			}
			xIso(&P, &A, &K, v)
			e[sign][i]--
			if e[sign][i] == 0 {
				mul512(&k[sign], &k[sign], primes[i])
			} else {
				done[sign] = false
			}
'''))
