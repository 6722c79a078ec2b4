import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('hash/sha3/shake.go',('''
	// leftEncode returns max 9 bytes
	b := make([]byte, 0, 9*2+len(N)+len(S))
	b = append(b, leftEncode(uint64(len(N)*8))...)
	b = append(b, N...)
	b = append(b, leftEncode(uint64(len(S)*8))...)
	b = append(b, S...)
	c.initBlock = bytepad(b, c.BlockSize())
''','''
	c.initBlock = bytepad(append(encodeString(N), encodeString(S)...), c.desc.r)
'''),('''
func newCShake(''','''
func encodeString(s []byte) []byte {
	return append(leftEncode(8*uint64(len(s))), s...)
}

func newCShake('''),('''
	var b [9]byte
	binary.BigEndian.PutUint64(b[1:], value)
	// Trim all but last leading zero bytes
	i := byte(1)
	for i < 8 && b[i] == 0 {
		i++
	}
	// Prepend number of encoded bytes
	b[i-1] = 9 - i
	return b[i-1:]
''','''
	n := 1
	for v := value >> 8; v != 0; v >>= 8 {
		n++
	}
	b := make([]byte, n+1)
	b[0] = byte(n)
	for i := 1; i <= n; i++ {
		b[i] = byte(value >> uint(8*(n-i)))
	}
	return b
'''))
s=open('hash/sha3/shake.go').read().replace('	"encoding/binary"\n','')
open('hash/sha3/shake.go','w').write(s)
