import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
# decrypt returns a slice; the scalar is read in place
ed('dh/sidh/sike.go',('''
	var r [common.MaxSidhPrivateKeyBsz]byte
	var pkBytes''','''
	var pkBytes'''),('''
	_, _ = c.shake.Read(r[:c.params.A.SecretByteLen])
	// Ensure bitlength is not bigger than 2^e2-1
	r[c.params.A.SecretByteLen-1] &= (1 << (c.params.A.SecretBitLen % 8)) - 1

	err = skA.Import(r[:c.params.A.SecretByteLen])
	if err != nil {
		return err
	}
	skA''','''
	_, _ = c.shake.Read(skA.Scalar)
	// Ensure bitlength is not bigger than 2^e2-1
	skA.Scalar[len(skA.Scalar)-1] &= (1 << (c.params.A.SecretBitLen % 8)) - 1
	skA'''),('''
	common.Cpick(mask, m[:c1Len], m[:c1Len], prv.S)
''','''
	pick := byte(-mask)
	for i := range m[:c1Len] {
		m[i] = m[i]&pick | prv.S[i]&^pick
	}
'''))
