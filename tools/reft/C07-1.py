import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('drbg/ctr_drbg.go',('''
	for i := BlockLen - 1; i >= 0; i-- {
		if c.v[i] == 0xff {
			c.v[i] = 0x00
		} else {
			c.v[i]++
			break
		}
	}
''','''
	for i := BlockLen - 1; i >= 0; i-- {
		c.v[i]++
		if c.v[i] != 0 {
			return
		}
	}
'''),('''
	blocks := len(out) / BlockLen
	for i := 0; i < blocks; i++ {
		c.inc()
		c.blockEnc.SetKey(c.key[:])
		c.blockEnc.Encrypt(out[i*BlockLen:], c.v[:])
	}

	// Copy remainder - case for out being not block aligned
	if len(out)%BlockLen != 0 {
		c.inc()
		c.blockEnc.SetKey(c.key[:])
		c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])
		copy(out[blocks*BlockLen:], c.tmpBlk[:len(out)%BlockLen])
	}
''','''
	c.blockEnc.SetKey(c.key[:])
	rest := out
	for len(rest) >= BlockLen {
		c.inc()
		c.blockEnc.Encrypt(rest, c.v[:])
		rest = rest[BlockLen:]
	}

	// Copy remainder - case for out being not block aligned
	if len(rest) > 0 {
		c.inc()
		c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])
		copy(rest, c.tmpBlk[:])
	}
'''))
