import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
for p in ('434','503'):
    ed('dh/sidh/internal/p%s/fp2.go'%p,('''
	mulP434(&ac, &lhs.A, &rhs.A)       // = a*c*R*R
	mulP434(&bd, &lhs.B, &rhs.B)       // = b*d*R*R
	subP434(&bMinA, &lhs.B, &lhs.A)    // = (b-a)*R
	subP434(&cMinD, &rhs.A, &rhs.B)    // = (c-d)*R
	mulP434(&adPlusBc, &bMinA, &cMinD) // = (b-a)*(c-d)*R*R
	adlP434(&adPlusBc, &adPlusBc, &ac) // = ((b-a)*(c-d) + a*c)*R*R
	adlP434(&adPlusBc, &adPlusBc, &bd) // = ((b-a)*(c-d) + a*c + b*d)*R*R
	rdcP434(&dest.B, &adPlusBc)        // = (a*d + b*c)*R mod p
	sulP434(&acMinBd, &ac, &bd)        // = (a*c - b*d)*R*R
	rdcP434(&dest.A, &acMinBd)         // = (a*c - b*d)*R mod p
'''.replace('434',p),'''
	a, b, c, d := &lhs.A, &lhs.B, &rhs.A, &rhs.B
	subP434(&cMinD, c, d)
	subP434(&bMinA, b, a)
	mulP434(&bd, b, d)
	mulP434(&ac, a, c)
	mulP434(&adPlusBc, &bMinA, &cMinD)
	sulP434(&acMinBd, &ac, &bd)
	adlP434(&ac, &ac, &bd)
	adlP434(&adPlusBc, &ac, &adPlusBc)
	rdcP434(&dest.A, &acMinBd)
	rdcP434(&dest.B, &adPlusBc)
'''.replace('434',p)),('''
	mulP434(&e1, &x.A, &f2)
	rdcP434(&dest.A, &e1)

	subP434(&f1, &common.Fp{}, &x.B)
	mulP434(&e1, &f1, &f2)
	rdcP434(&dest.B, &e1)
'''.replace('434',p),'''
	var zero common.Fp
	subP434(&f1, &zero, &x.B)
	mulP(&dest.A, &x.A, &f2)
	mulP(&dest.B, &f1, &f2)
'''.replace('434',p)),('''
		mulP(dest, dest, dest)
		for j := uint8(1); j < powStrategy[i]; j++ {
			mulP(dest, dest, dest)
		}
		mulP(dest, dest, &lookup[mulStrategy[i]])
''','''
		sqrN(dest, int(powStrategy[i]))
		mulP(dest, dest, &lookup[mulStrategy[i]])
'''),('''
func add(dest,''','''
func sqrN(x *common.Fp, n int) {
	for ; n > 0; n-- {
		mulP(x, x, x)
	}
}

func add(dest,'''),('''
	copy(aR[:], in.A[:])
	rdcP434(&out.A, &aR) // = a mod p in [0, 2p)
	modP434(&out.A)      // = a mod p in [0, p)
	for i := range aR {
		aR[i] = 0
	}
	copy(aR[:], in.B[:])
	rdcP434(&out.B, &aR)
	modP434(&out.B)
'''.replace('434',p),'''
	copy(aR[:], in.A[:])
	rdcP434(&out.A, &aR) // = a mod p in [0, 2p)
	aR = common.FpX2{}
	copy(aR[:], in.B[:])
	rdcP434(&out.B, &aR)
	modP434(&out.A)
	modP434(&out.B)
'''.replace('434',p)))
