import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed; F='dh/csidh/curve.go'
ed(F,('''	for j = 511; j > 0; j-- {
		// performance hit from making it constant-time is actually
		// quite big, so... unsafe branch for now
		if uint8(k[j>>6]>>(j&63)&1) != 0 {
			break
		}
	}
''','''	j = 511
	for j > 0 && bitOf(k, j) == 0 {
		j--
	}
'''),('''	for i := j; i > 0; {
		i--
		bit := uint8(k[i>>6] >> (i & 63) & 1)
		cswappoint(&Q, &R, prevBit^bit)
		xDblAdd(&Q, &R, &Q, &R, P, &A24)
		prevBit = bit
	}
	cswappoint(&Q, &R, uint8(k[0]&1))
''','''	for i := int(j) - 1; i >= 0; i-- {
		bit := bitOf(k, uint(i))
		cswappoint(&Q, &R, bit^prevBit)
		prevBit = bit
		xDblAdd(&Q, &R, &Q, &R, P, &A24)
	}
	cswappoint(&Q, &R, prevBit)
'''),('''// xMul implements point mult''','''// bitOf returns the i-th bit of k.
func bitOf(k *fp, i uint) uint8 {
	return uint8(k[i/64]>>(i%64)) & 1
}

// xMul implements point mult'''))
