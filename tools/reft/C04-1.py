import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('hash/sha3/shake.go',('''
	padlen := (w - (len(buf) % w)) % w
	return append(buf, make([]byte, padlen)...)
''','''
	for len(buf)%w != 0 {
		buf = append(buf, 0)
	}
	return buf
'''),('''
	b := make([]byte, len(c.initBlock))
	copy(b, c.initBlock)
	return &cshakeState{state: c.state, initBlock: b}
''','''
	return &cshakeState{state: c.state, initBlock: append([]byte(nil), c.initBlock...)}
'''))
