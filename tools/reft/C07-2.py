import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('drbg/ctr_drbg.go',('''
	var lsz int
	var seedBuf [SeedLen]byte

	// Min''','''
	var seedBuf [SeedLen]byte

	// Min'''),('''
	lsz = len(entropy)
	if lsz > SeedLen {
		lsz = SeedLen
	}
	copy(seedBuf[:], entropy[:lsz])

	lsz = len(personalization)
	if lsz > SeedLen {
		lsz = SeedLen
	}

	for i := 0; i < lsz; i++ {
		seedBuf[i] ^= personalization[i]
	}
''','''
	mixSeed(&seedBuf, entropy, personalization)
'''),('''
	var seedBuf [SeedLen]byte
	var lsz int

	lsz = len(entropy)
	if lsz > SeedLen {
		lsz = SeedLen
	}
	copy(seedBuf[:], entropy[:lsz])

	lsz = len(data)
	if lsz > SeedLen {
		lsz = SeedLen
	}

	for i := 0; i < lsz; i++ {
		seedBuf[i] ^= data[i]
	}
''','''
	var seedBuf [SeedLen]byte

	mixSeed(&seedBuf, entropy, data)
'''),('''
func (c *CtrDrbg) inc() {''','''
func mixSeed(seed *[SeedLen]byte, a, b []byte) {
	copy(seed[:], a)
	for i := 0; i < len(b) && i < SeedLen; i++ {
		seed[i] ^= b[i]
	}
}

func (c *CtrDrbg) inc() {'''),('''
	// deliberatelly not using len(c.tmpBlk)
	for i := 0; i < 3*BlockLen; i += BlockLen {
		c.inc()
		c.blockEnc.SetKey(c.key[:])
		c.blockEnc.Encrypt(c.tmpBlk[i:], c.v[:])
	}

	for i := 0; i < 3*BlockLen; i++ {
		c.tmpBlk[i] ^= data[i]
	}
''','''
	c.blockEnc.SetKey(c.key[:])
	for i := 0; i < 3; i++ {
		c.inc()
		blk := c.tmpBlk[i*BlockLen : (i+1)*BlockLen]
		c.blockEnc.Encrypt(blk, c.v[:])
		for j := range blk {
			blk[j] ^= data[i*BlockLen+j]
		}
	}
'''))
