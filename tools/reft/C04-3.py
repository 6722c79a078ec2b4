import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('hash/sha3/shake.go',('''
func NewCShake256(N, S []byte) ShakeHash {
	if len(N) == 0 && len(S) == 0 {
		return NewShake256()
	}
	return newCShake(N, S, sfxCShake, SHAKE256)
''','''
func NewCShake256(N, S []byte) ShakeHash {
	if len(N)+len(S) > 0 {
		return newCShake(N, S, sfxCShake, SHAKE256)
	}
	return NewShake256()
'''),('''
	c.initBlock = bytepad(b, c.BlockSize())
	c.Write(c.initBlock)
	return &c
''','''
	c.initBlock = bytepad(b, c.BlockSize())
	c.Reset()
	return &c
'''))
