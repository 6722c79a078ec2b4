import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('hash/sha3/sha3.go',('''
	// process remaining blocks
	in = in[fbLen:]
	for len(in) >= rate {
		xorIn(c, in[:rate])
		keccakF1600(&c.a)
		in = in[rate:]
	}

	// store unprocessed data
	copy(buf[:], in)
	c.idx = len(in)
''','''
	// process remaining blocks
	pos := fbLen
	for ; pos+rate <= len(in); pos += rate {
		xorIn(c, in[pos:pos+rate])
		keccakF1600(&c.a)
	}

	// store unprocessed data
	c.idx = copy(buf[:], in[pos:])
'''),('''
	l := min(c.idx, len(out))
	copy(out, buf[rate-c.idx:rate-c.idx+l])
	out = out[l:]
	c.idx -= l

	if len(out) == 0 {
		// nothing else todo
		return nread, nil
	}
''','''
	l := copy(out, buf[rate-c.idx:rate])
	c.idx -= l
	if out = out[l:]; len(out) == 0 {
		// nothing else todo
		return nread, nil
	}
'''),('''
	nblocks := len(out) / rate
	for nblocks > 0 {
		keccakF1600(&c.a)
		copyOut(c, out[:rate])
		out = out[rate:]
		nblocks--
	}
''','''
	for len(out) >= rate {
		keccakF1600(&c.a)
		copyOut(c, out[:rate])
		out = out[rate:]
	}
'''))
