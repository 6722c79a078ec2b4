import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('dh/csidh/csidh.go',('''
		for j := range key.wbuf {
			if int8(key.wbuf[j]) <= expMax && int8(key.wbuf[j]) >= -expMax {
				key.e[i>>1] |= int8((key.wbuf[j] & 0xF) << uint((i%2)*4))
				i = i + 1
				if i == len(primes) {
					break
				}
			}
		}
''','''
		for j := 0; j < len(key.wbuf) && i < len(primes); j++ {
			v := int8(key.wbuf[j])
			if v < -expMax || v > expMax {
				continue
			}
			key.e[i/2] |= (v & 0xF) << uint(4*(i&1))
			i++
		}
'''),('''
	c.a = fp{}
	for i := 0; i < len(key); i++ {
		j := i / limbByteSize
		k := uint64(i % 8)
		c.a[j] |= uint64(key[i]) << (8 * k)
	}
	return true
''','''
	for i := range c.a {
		c.a[i] = binary.LittleEndian.Uint64(key[8*i:])
	}
	return true
'''),('''
import (
	"io"
''','''
import (
	"encoding/binary"
	"io"
'''))
