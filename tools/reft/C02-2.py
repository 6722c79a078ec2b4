import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('hash/sha3/sha3.go',('''
	// process first block
	fbLen := rate - c.idx
	copy(buf[c.idx:], in[:fbLen])
	xorIn(c, buf[:])
	keccakF1600(&c.a)

	// process remaining blocks
	in = in[fbLen:]
	for len(in) >= rate {
		xorIn(c, in[:rate])
		keccakF1600(&c.a)
		in = in[rate:]
	}
''','''
	// process first block
	fbLen := rate - c.idx
	copy(buf[c.idx:], in[:fbLen])
	c.absorb(buf[:])

	// process remaining blocks
	in = in[fbLen:]
	for len(in) >= rate {
		c.absorb(in[:rate])
		in = in[rate:]
	}
'''),('''
func (c *state) finalize_sha3() {
''','''
func (c *state) absorb(block []byte) {
	xorIn(c, block)
	keccakF1600(&c.a)
}

func (c *state) finalize_sha3() {
'''),('''
	for i := c.idx + 1; i < rate; i++ {
		buf[i] = 0
	}
	buf[c.idx] = c.sfx
''','''
	buf[c.idx] = c.sfx
	rest := buf[c.idx+1 : rate]
	for i := range rest {
		rest[i] = 0
	}
'''),('''
	xorIn(c, buf[:rate])
	keccakF1600(&c.a)
	copyOut(c, buf[:rate])
	c.idx = rate
''','''
	c.absorb(buf[:rate])
	copyOut(c, buf[:rate])
	c.idx = rate
'''))
