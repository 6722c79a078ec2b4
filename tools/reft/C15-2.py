import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
p='503'
ed('dh/sidh/internal/p%s/curve.go'%p,('''
	add(&t0, px, pz)   // t0 = XQ + ZQ
	sub(&t1, px, pz)   // t1 = XQ - ZQ
	mul(&t0, K1, &t0)  // t2 = K1 * t0
	mul(&t1, K2, &t1)  // t1 = K2 * t1
''','''
	sub(&t1, px, pz)
	mul(&t1, &t1, K2)
	add(&t0, px, pz)
	mul(&t0, &t0, K1)
'''),('''
	mul(&x1x2, x1, x2) // x1*x2
	mul(&t, &x1x2, x3) // 1/(x1*x2*x3)
	inv(&t, &t)
	mul(y1, &t, x2) // 1/x1
	mul(y1, y1, x3)
	mul(y2, &t, x1) // 1/x2
	mul(y2, y2, x3)
	mul(y3, &t, &x1x2) // 1/x3
''','''
	mul(&x1x2, x1, x2)
	mul(&t, &x1x2, x3)
	inv(&t, &t)
	mul(y3, &t, &x1x2)
	mul(&t, &t, x3) // 1/(x1*x2)
	mul(y1, &t, x2)
	mul(y2, &t, x1)
'''),('''
	sqr(j, &cparams.A)   // j  = A^2
	sqr(&t1, &cparams.C) // t1 = C^2
	add(&t0, &t1, &t1)   // t0 = t1 + t1
	sub(&t0, j, &t0)     // t0 = j - t0
	sub(&t0, &t0, &t1)   // t0 = t0 - t1
	sub(j, &t0, &t1)     // t0 = t0 - t1
''','''
	sqr(&t1, &cparams.C)
	sqr(&t0, &cparams.A)
	for i := 0; i < 3; i++ {
		sub(&t0, &t0, &t1)
	}
	sub(j, &t0, &t1)
'''))
