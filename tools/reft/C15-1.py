import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
p='434'
ed('dh/sidh/internal/p%s/curve.go'%p,('''
	prevBit := uint8(0)
	for i := uint(0); i < nbits; i++ {
		bit := (scalar[i>>3] >> (i & 7) & 1)
		swap := prevBit ^ bit
		prevBit = bit
		cswap(&R1.X, &R1.Z, &R2.X, &R2.Z, swap)
		R0, R2 = xDbladd(&R0, &R2, &R1, &aPlus2Over4)
	}
	cswap(&R1.X, &R1.Z, &R2.X, &R2.Z, prevBit)
	return R1
''','''
	for i := uint(0); i < nbits; i++ {
		bit := scalarBit(scalar, i)
		cswap(&R1.X, &R1.Z, &R2.X, &R2.Z, bit)
		R0, R2 = xDbladd(&R0, &R2, &R1, &aPlus2Over4)
		cswap(&R1.X, &R1.Z, &R2.X, &R2.Z, bit)
	}
	return R1
'''),('''
// Scalarmul3Pt is''','''
func scalarBit(s []uint8, i uint) uint8 {
	return s[i/8] >> (i % 8) & 1
}

// Scalarmul3Pt is'''),('''
	var t0, t1 Fp2

	x, z := &xP.X, &xP.Z
	for i := uint32(0); i < k; i++ {
		sub(&t0, x, z)           // t0  = Xp - Zp
		add(&t1, x, z)           // t1  = Xp + Zp
		sqr(&t0, &t0)            // t0  = t0 ^ 2
		sqr(&t1, &t1)            // t1  = t1 ^ 2
		mul(z, &params.C, &t0)   // Z2p = C24 * t0
		mul(x, z, &t1)           // X2p = Z2p * t1
		sub(&t1, &t1, &t0)       // t1  = t1 - t0
		mul(&t0, &params.A, &t1) // t0  = A24+ * t1
		add(z, z, &t0)           // Z2p = Z2p + t0
		mul(z, z, &t1)           // Zp  = Z2p * t1
	}
''','''
	for ; k > 0; k-- {
		xDbl(xP, params)
	}
'''),('''
// Given the curve parameters, xP = x(P), computes x''','''
func xDbl(P *ProjectivePoint, params *CurveCoefficientsEquiv) {
	var t0, t1 Fp2
	x, z := &P.X, &P.Z
	add(&t1, x, z)
	sqr(&t1, &t1)
	sub(&t0, x, z)
	sqr(&t0, &t0)
	mul(z, &params.C, &t0)
	mul(x, z, &t1)
	sub(&t1, &t1, &t0)
	mul(&t0, &params.A, &t1)
	add(z, z, &t0)
	mul(z, z, &t1)
}

// Given the curve parameters, xP = x(P), computes x'''))
