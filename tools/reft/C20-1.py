import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('kem/mkem/csidh.go',('''
	c.H.Reset()
	c.H.Write(ss[:])
	c.H.Read(ss[:16])
	for i := 0; i < 16; i++ {
		ct.V[i] = pt[i] ^ ss[i]
	}
''','''
	c.pad(ct.V[:16], pt[:], &ss)
'''),('''
	c.H.Reset()
	c.H.Write(ss[:])
	c.H.Read(ss[:16])
	for i := 0; i < 16; i++ {
		pt[i] = ct.V[i] ^ ss[i]
	}
''','''
	c.pad(pt[:], ct.V[:16], &ss)
'''),('''
		c.H.Reset()
		c.H.Write(ss[:])
		c.H.Read(ss[:16])
		for j := 0; j < 16; j++ {
			c.Cts[i][j] = pt[j] ^ ss[j]
		}
''','''
		c.pad(c.Cts[i][:16], pt[:], &ss)
'''),('''
// PKE encryption
func''','''
func (c *PKE) pad(out, in []byte, ss *[64]byte) {
	var h [16]byte
	c.H.Reset()
	c.H.Write(ss[:])
	c.H.Read(h[:])
	for i := range out {
		out[i] = in[i] ^ h[i]
	}
}

// PKE encryption
func'''))
