import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
# inline generateCiphertext, exports and locals
for F,P in (('dh/sidh/sike.go',''),('kem/mkem/sike.go','sidh.')):
    s=open(F).read()
    a=s.index('func (c *KEM) Encapsulate')
    b=s.index('func (c *KEM) Decapsulate')
    e=s[a:b]
    e=e.replace('''	c.generateCiphertext(ciphertext, &skA, pkA, pub, c.msg[:])
''','''	pkA.Export(ciphertext)
	var shared [common.MaxSharedSecretBsz]byte
	var pad [common.MaxMsgBsz]byte
	skA.DeriveSecret(shared[:], pub)
	c.shake.Reset()
	_, _ = c.shake.Write(shared[:c.params.SharedSecretSize])
	_, _ = c.shake.Read(pad[:c.params.MsgLen])
	for i, b := range c.msg {
		ciphertext[c.params.PublicKeySize+i] = pad[i] ^ b
	}
''').replace('''	if %sKeyVariantSike != pub.KeyVariant {
		panic("Wrong type of public key")
	}

	if len(secret) < c.SharedSecretSize() {
		panic("shared secret buffer to small")
	}

	if len(ciphertext) < c.CiphertextSize() {
		panic("ciphertext buffer to small")
	}
'''%P,'''	switch {
	case pub.KeyVariant != %sKeyVariantSike:
		panic("Wrong type of public key")
	case len(secret) < c.params.KemSize:
		panic("shared secret buffer to small")
	case len(ciphertext) < c.params.CiphertextSize:
		panic("ciphertext buffer to small")
	}
'''%P)
    assert 'pad[i]' in e and 'switch' in e
    open(F,'w').write(s[:a]+e+s[b:])
