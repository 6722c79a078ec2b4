import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
# helper for hashing, check order kept
ed('dh/sidh/sike.go',('''
	c.shake.Reset()
	_, _ = c.shake.Write(c.msg)
	_, _ = c.shake.Write(buf[:3*c.params.SharedSecretSize])
	_, _ = c.shake.Read(skA.Scalar)
''','''
	c.hash(skA.Scalar, c.msg, buf[:3*c.params.SharedSecretSize])
'''),('''
	c.shake.Reset()
	_, _ = c.shake.Write(c.msg)
	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])
	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])
''','''
	c.hash(secret[:c.SharedSecretSize()], c.msg, ciphertext[:c.CiphertextSize()])
'''),('''
	c.shake.Reset()
	_, _ = c.shake.Write(m[:c1Len])
	_, _ = c.shake.Write(pkBytes[:3*c.params.SharedSecretSize])
	_, _ = c.shake.Read(r[:c.params.A.SecretByteLen])
''','''
	c.hash(r[:c.params.A.SecretByteLen], m[:c1Len], pkBytes[:3*c.params.SharedSecretSize])
'''),('''
	c.shake.Reset()
	_, _ = c.shake.Write(m[:c1Len])
	_, _ = c.shake.Write(ciphertext)
	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])
''','''
	c.hash(secret[:c.SharedSecretSize()], m[:c1Len], ciphertext)
'''),('''
func (c *KEM) generateCiphertext(''','''
func (c *KEM) hash(out []byte, in ...[]byte) {
	c.shake.Reset()
	for _, b := range in {
		_, _ = c.shake.Write(b)
	}
	_, _ = c.shake.Read(out)
}

func (c *KEM) generateCiphertext('''))
