import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed; F='dh/csidh/fp511.go'
ed(F,('''	for i := numWords - 1; i >= 0; i-- {
		v, c := bits.Sub64(y[i], x[i], 0)
		if c != 0 {
			return false
		}
		if v != 0 {
			return true
		}
	}
	// x == y
	return false
''','''	var c uint64
	for i := range x {
		_, c = bits.Sub64(x[i], y[i], c)
	}
	return c != 0
'''),('''	*r = one
	for i := fpBitLen/4 - 1; i >= 0; i-- {
		for j := 0; j < 4; j++ {
			mulRdc(r, r, r)
		}
		// note: non resistant to cache SCA
		idx := (e[i/16] >> uint((i%16)*4)) & 15
		mulRdc(r, r, &precomp[idx])
	}
''','''	*r = one
	for i := fpBitLen - 4; i >= 0; i -= 4 {
		mulRdc(r, r, r)
		mulRdc(r, r, r)
		mulRdc(r, r, r)
		mulRdc(r, r, r)
		mulRdc(r, r, &precomp[(e[i>>6]>>uint(i&63))&15])
	}
'''),('''	for i := 2; i < 16; i = i + 2 {
		// OPTIMIZE: implement fast squering. Then interleaving fast squaring
		// with multiplication should improve performance.
		mulRdc(&precomp[i], &precomp[i/2], &precomp[i/2]) // sqr
		mulRdc(&precomp[i+1], &precomp[i], b)
	}
''','''	for i := 2; i < len(precomp); i++ {
		mulRdc(&precomp[i], &precomp[i-1], b)
	}
'''),('''	for i := range res {
		b |= res[i] ^ one[i]
	}

	return ctIsNonZero64(b)
''','''	for i, w := range one {
		b |= w ^ res[i]
	}
	return ctIsNonZero64(b)
'''),('''	var r uint64
	for i := 0; i < numWords; i++ {
		r |= v[i]
	}
	return ctIsNonZero64(r) == 0
''','''	return *v == fp{}
'''),('''	var r uint64
	for i := range v {
		r |= v[i] ^ in[i]
	}
	return ctIsNonZero64(r) == 0
''','''	for i := range v {
		if v[i] != in[i] {
			return false
		}
	}
	return true
'''))
