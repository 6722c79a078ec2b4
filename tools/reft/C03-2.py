import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('hash/sha3/xor_generic.go',('''	n := len(buf) / 8

	for i := 0; i < n; i++ {
		a := binary.LittleEndian.Uint64(buf)
		d.a[i] ^= a
		buf = buf[8:]
	}
''','''	for i := 0; 8*i+8 <= len(buf); i++ {
		d.a[i] ^= binary.LittleEndian.Uint64(buf[8*i:])
	}
'''),('''	for i := 0; len(b) >= 8; i++ {
		binary.LittleEndian.PutUint64(b, d.a[i])
		b = b[8:]
	}
''','''	for _, w := range d.a {
		if len(b) < 8 {
			break
		}
		binary.LittleEndian.PutUint64(b, w)
		b = b[8:]
	}
'''))
s=open('hash/sha3/xor_unaligned.go').read()
a=s.index("	if n >= 72 {"); b=s.index("func copyOutUnaligned")
s=s[:a]+'''	for i, w := range bw {
		d.a[i] ^= w
	}
}

'''+s[b:]
open('hash/sha3/xor_unaligned.go','w').write(s)
