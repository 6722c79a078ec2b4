import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
p='503'
ed('dh/sidh/internal/p%s/core.go'%p,('''
	mul(&pub3Pt[0], &xPB.X, &invZP)
	mul(&pub3Pt[1], &xQB.X, &invZQ)
	mul(&pub3Pt[2], &xRB.X, &invZR)
''','''
	for i, c := range [3][2]*Fp2{{&xPB.X, &invZP}, {&xQB.X, &invZQ}, {&xRB.X, &invZR}} {
		mul(&pub3Pt[i], c[1], c[0])
	}
'''),('''
	xP = ProjectivePoint{X: pub3Pt[0], Z: params.OneFp2}
	xQ = ProjectivePoint{X: pub3Pt[1], Z: params.OneFp2}
	xQmP = ProjectivePoint{X: pub3Pt[2], Z: params.OneFp2}
	xR = ScalarMul3Pt(&cparam, &xP, &xQ, &xQmP, params.B.SecretBitLen, prv)
''','''
	pts := affine(pub3Pt)
	xR = ScalarMul3Pt(&cparam, &pts[0], &pts[1], &pts[2], params.B.SecretBitLen, prv)
'''),('''
// Establishing shared keys in in 3-torsion group
func DeriveSecretB(ss, prv []byte, pub3Pt *[3]Fp2) {
	var xP, xQ, xQmP ProjectivePoint
''','''
func affine(xs *[3]Fp2) (pts [3]ProjectivePoint) {
	for i := range xs {
		pts[i].X, pts[i].Z = xs[i], params.OneFp2
	}
	return
}

// Establishing shared keys in in 3-torsion group
func DeriveSecretB(ss, prv []byte, pub3Pt *[3]Fp2) {
'''))
