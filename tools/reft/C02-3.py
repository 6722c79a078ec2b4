import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('hash/sha3/sha3.go',('''
	processLen := c.idx + len(in)
	if processLen < c.BlockSize() {
		// not enough data to process
		copy(buf[c.idx:], in)
		c.idx = processLen
		return nwrite, nil
	}

	// process first block
	fbLen := rate - c.idx
	copy(buf[c.idx:], in[:fbLen])
	xorIn(c, buf[:])
	keccakF1600(&c.a)

	// process remaining blocks
	in = in[fbLen:]
	for len(in) >= rate {
		xorIn(c, in[:rate])
		keccakF1600(&c.a)
		in = in[rate:]
	}

	// store unprocessed data
	copy(buf[:], in)
	c.idx = len(in)
''','''
	for len(in) > 0 {
		n := copy(buf[c.idx:rate], in)
		in = in[n:]
		c.idx += n
		if c.idx == rate {
			xorIn(c, buf[:rate])
			keccakF1600(&c.a)
			c.idx = 0
		}
	}
'''))
