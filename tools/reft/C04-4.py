import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('hash/sha3/shake.go',('''
	b := make([]byte, len(c.initBlock))
	copy(b, c.initBlock)
	return &cshakeState{state: c.state, initBlock: b}
''','''
	return &cshakeState{state: c.state, initBlock: append([]byte(nil), c.initBlock...)}
'''))
