import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
p='751'
ed('dh/sidh/internal/p%s/fp2.go'%p,('''
	var a2, aPlusB, aMinusB common.Fp
	var a2MinB2, ab2 common.FpX2

	a := &x.A
	b := &x.B

	// (a + bi)*(a + bi) = (a^2 - b^2) + 2abi.
	addP434(&a2, a, a)                   // = a*R + a*R = 2*a*R
	addP434(&aPlusB, a, b)               // = a*R + b*R = (a+b)*R
	subP434(&aMinusB, a, b)              // = a*R - b*R = (a-b)*R
	mulP434(&a2MinB2, &aPlusB, &aMinusB) // = (a+b)*(a-b)*R*R = (a^2 - b^2)*R*R
	mulP434(&ab2, &a2, b)                // = 2*a*b*R*R
	rdcP434(&dest.A, &a2MinB2)           // = (a^2 - b^2)*R mod p
	rdcP434(&dest.B, &ab2)               // = 2*a*b*R mod p
'''.replace('434',p),'''
	var s, d, ab common.Fp

	addP434(&s, &x.A, &x.B)
	subP434(&d, &x.A, &x.B)
	mulP(&ab, &x.A, &x.B)
	mulP(&dest.A, &s, &d)
	addP434(&dest.B, &ab, &ab)
'''.replace('434',p)),('''
	// a*R*R
	mulP434(&aRR, &in.A, &P434R2)
	// a*R mod p
	rdcP434(&out.A, &aRR)
	mulP434(&aRR, &in.B, &P434R2)
	rdcP434(&out.B, &aRR)
'''.replace('434',p),'''
	mulP(&out.A, &in.A, &P434R2)
	mulP(&out.B, &in.B, &P434R2)
'''.replace('434',p)),('	var aRR common.FpX2\n',''))
