import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('kem/mkem/sike.go',('''
		skA.DeriveSecret(c.j[:], pkB)
		// H(j)
		c.shake.Reset()
		_, _ = c.shake.Write(G2)
		_, _ = c.shake.Write(c.j[:skA.Params.SharedSecretSize])
		_, _ = c.shake.Read(c.cts[ct_i][:skA.Params.MsgLen])
		for i := 0; i < skA.Params.MsgLen; i++ {
			// ct[i]
			c.cts[ct_i][i] ^= c.msg[i]
		}
''','''
		c.mask(c.cts[ct_i][:skA.Params.MsgLen], c.msg, &skA, pkB)
'''),('''
	skA.DeriveSecret(c.j[:], pub)
	c.shake.Reset()
	// H(j)
	_, _ = c.shake.Write(G2)
	_, _ = c.shake.Write(c.j[:skA.Params.SharedSecretSize])
	_, _ = c.shake.Read(cti[:skA.Params.MsgLen])
	for i := 0; i < skA.Params.MsgLen; i++ {
		cti[i] ^= m[i]
	}
''','''
	c.mask(cti[:skA.Params.MsgLen], m[:], &skA, pub)
'''),('''
	prv.DeriveSecret(c.j[:], pkA)

	c.shake.Reset()
	_, _ = c.shake.Write(G2)
	_, _ = c.shake.Write(c.j[:prv.Params.SharedSecretSize])
	_, _ = c.shake.Read(m[:prv.Params.MsgLen])
	for i := 0; i < prv.Params.MsgLen; i++ {
		m[i] ^= ctext[i]
	}
''','''
	c.mask(m[:prv.Params.MsgLen], ctext, prv, pkA)
'''),('''
// mKEM Decapsulate - given''','''
// mask sets out to H(j) ^ in, where j is a secret shared by prv and pub.
func (c *MultiKEM) mask(out, in []byte, prv *sidh.PrivateKey, pub *sidh.PublicKey) {
	prv.DeriveSecret(c.j[:], pub)
	c.shake.Reset()
	_, _ = c.shake.Write(G2)
	_, _ = c.shake.Write(c.j[:prv.Params.SharedSecretSize])
	_, _ = c.shake.Read(out)
	for i := range out {
		out[i] ^= in[i]
	}
}

// mKEM Decapsulate - given'''))
