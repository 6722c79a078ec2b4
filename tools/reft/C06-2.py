import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
chk='''	if len(src) < BlockSize {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < BlockSize {
		panic("crypto/aes: output not full block")
	}
	if InexactOverlap(dst[:BlockSize], src[:BlockSize]) {
		panic("crypto/aes: invalid buffer overlap")
	}
'''
for F in 'drbg/internal/aes/cipher.go','drbg/internal/aes/cipher_asm.go':
    s=open(F).read(); assert s.count(chk)==2
    s=s.replace(chk,"	checkBlocks(dst, src)\n")
    if F.endswith('cipher.go'): s+='''
// checkBlocks panics unless one block can be read from src and written to dst.
func checkBlocks(dst, src []byte) {
	switch {
	case len(src) < BlockSize:
		panic("crypto/aes: input not full block")
	case len(dst) < BlockSize:
		panic("crypto/aes: output not full block")
	case InexactOverlap(dst[:BlockSize], src[:BlockSize]):
		panic("crypto/aes: invalid buffer overlap")
	}
}
'''
    open(F,'w').write(s)
ed('drbg/internal/aes/cipher_asm.go',('''	var rounds int
	switch len(key) {
	default:
		return KeySizeError(len(key))
	case 128 / 8:
		rounds = 10
	case 192 / 8:
		rounds = 12
	case 256 / 8:
		rounds = 14
	}

	c.rounds = rounds
	expandKeyAsm(rounds, &key[0], &c.enc[0], &c.dec[0])
	return nil
''','''	n := len(key)
	if n != 16 && n != 24 && n != 32 {
		return KeySizeError(n)
	}
	c.rounds = n/4 + 6
	expandKeyAsm(c.rounds, &key[0], &c.enc[0], &c.dec[0])
	return nil
'''))
ed('drbg/internal/aes/cipher.go',('''	for i, _ := range c.enc {
		c.enc[i] = 0
	}
	for i, _ := range c.dec {
		c.dec[i] = 0
	}
	c.keyLen = k
	expandKeyGo(key, c.enc[:c.keyLen+28], c.dec[:c.keyLen+28])
''','''	*c = AES{keyLen: k}
	n := k + 28
	expandKeyGo(key, c.enc[:n], c.dec[:n])
'''))
