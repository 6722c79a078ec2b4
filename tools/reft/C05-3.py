import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('hash/sm3/compress.go',('''    return ((A ^ B) & M) ^ B
''','''	return (A & M) | (B &^ M)
'''),('''	return ch(Y^Z, X, Y)
''','''	return (X & Y) | (X & Z) | (Y & Z)
'''),('''	return (val << count) | (val >> (32 - count))
''','''	return bits.RotateLeft32(val, int(count))
'''),('''package sm3
''','''package sm3

import (
	"encoding/binary"
	"math/bits"
)
'''),('''	return uint32(x[3]) | (uint32(x[2]) << 8) | (uint32(x[1]) << 16) | (uint32(x[0]) << 24)
''','''	return binary.BigEndian.Uint32(x)
'''))
s=open('hash/sm3/compress.go').read()
a=s.index("func store64Be"); b=s.index("func (d *digest) compress")
s=s[:a]+'''func store64Be(val []byte, x uint64) {
	binary.BigEndian.PutUint64(val, x)
}

func store32Be(val []byte, x uint32) {
	for i := range val[:4] {
		val[i] = byte(x >> (24 - 8*uint(i)))
	}
}

'''+s[b:]
open('hash/sm3/compress.go','w').write(s)
