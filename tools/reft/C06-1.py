import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
F='drbg/internal/aes/generic.go'
s=open(F).read()
a=s.index("func encryptBlockGo"); b=s.index("func decryptBlockGo")
import re
cm=s.rindex("}\n",0,b)+2
s=s[:a]+'''func encryptBlockGo(xk []uint32, dst, src []byte) {
	var s, t [4]uint32
	_, _ = src[15], dst[15]
	for i := range s {
		s[i] = binary.BigEndian.Uint32(src[4*i:]) ^ xk[i]
	}
	k := 4
	for ; k < len(xk)-4; k += 4 {
		for i := range t {
			t[i] = xk[k+i] ^ te0[byte(s[i]>>24)] ^ te1[byte(s[(i+1)%4]>>16)] ^ te2[byte(s[(i+2)%4]>>8)] ^ te3[byte(s[(i+3)%4])]
		}
		s = t
	}
	for i := range t {
		t[i] = xk[k+i] ^ subLast(s[i], s[(i+1)%4], s[(i+2)%4], s[(i+3)%4])
	}
	for i := range t {
		binary.BigEndian.PutUint32(dst[4*i:], t[i])
	}
}

// subLast is the last round's substitution for one word.
func subLast(a, b, c, d uint32) uint32 {
	return uint32(sbox0[a>>24])<<24 | uint32(sbox0[b>>16&0xff])<<16 | uint32(sbox0[c>>8&0xff])<<8 | uint32(sbox0[d&0xff])
}

'''+s[cm:]
o='''	for ; i < len(enc); i++ {
		t := enc[i-1]
		if i%nk == 0 {
			t = subw(rotw(t)) ^ (uint32(powx[i/nk-1]) << 24)
		} else if nk > 6 && i%nk == 4 {
			t = subw(t)
		}
		enc[i] = enc[i-nk] ^ t
	}
'''
assert o in s
s=s.replace(o,'''	rcon := uint32(1)
	for ; i < len(enc); i++ {
		t := enc[i-1]
		switch {
		case i%nk == 0:
			t = subw(t<<8|t>>24) ^ rcon<<24
			rcon = rcon<<1 ^ (rcon>>7)*0x11b
		case nk == 8 && i%8 == 4:
			t = subw(t)
		}
		enc[i] = t ^ enc[i-nk]
	}
''')
o='''	n := len(enc)
	for i := 0; i < n; i += 4 {
		ei := n - i - 4
		for j := 0; j < 4; j++ {
			x := enc[ei+j]
			if i > 0 && i+4 < n {
				x = td0[sbox0[x>>24]] ^ td1[sbox0[x>>16&0xff]] ^ td2[sbox0[x>>8&0xff]] ^ td3[sbox0[x&0xff]]
			}
			dec[i+j] = x
		}
	}
'''
assert o in s
s=s.replace(o,'''	n := len(enc)
	for i := range enc {
		x := enc[n-4-i&^3+i&3]
		if i >= 4 && i < n-4 {
			x = invMix(x)
		}
		dec[i] = x
	}
''')
s+='''
// invMix is the inverse MixColumns of one word.
func invMix(x uint32) uint32 {
	x = subw(x)
	return td0[x>>24] ^ td1[x>>16&0xff] ^ td2[x>>8&0xff] ^ td3[x&0xff]
}
'''
open(F,'w').write(s)
