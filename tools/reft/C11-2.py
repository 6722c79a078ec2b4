import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed; F='dh/csidh/csidh.go'
# range predicate and nibble setter extracted; keys copied limb by limb; early return
ed(F,('''func GeneratePrivateKey(''','''func expOk(b byte) bool {
	v := int8(b)
	return -expMax <= v && v <= expMax
}

func (c *PrivateKey) setExp(i int, b byte) {
	if i&1 == 0 {
		c.e[i>>1] |= int8(b & 0xF)
	} else {
		c.e[i>>1] |= int8(b << 4)
	}
}

func GeneratePrivateKey('''),('''	for i := range key.e {
		key.e[i] = 0
	}

	for i := 0; i < len(primes); {
		_, err := io.ReadFull(rng, key.wbuf[:])
		if err != nil {
			return err
		}

		for j := range key.wbuf {
			if int8(key.wbuf[j]) <= expMax && int8(key.wbuf[j]) >= -expMax {
				key.e[i>>1] |= int8((key.wbuf[j] & 0xF) << uint((i%2)*4))
				i = i + 1
				if i == len(primes) {
					break
				}
			}
		}
	}
	return nil
''','''	key.e = [PrivateKeySize]int8{}

	n := 0
	for {
		if _, err := io.ReadFull(rng, key.wbuf[:]); err != nil {
			return err
		}

		for _, b := range key.wbuf {
			if !expOk(b) {
				continue
			}
			key.setExp(n, b)
			n++
			if n == len(primes) {
				return nil
			}
		}
	}
'''),('''	for i := 0; i < len(key); i++ {
		j := i / limbByteSize
		k := uint64(i % 8)
		c.a[j] |= uint64(key[i]) << (8 * k)
	}
''','''	for j := range c.a {
		for k := limbByteSize - 1; k >= 0; k-- {
			c.a[j] = c.a[j]<<8 | uint64(key[j*limbByteSize+k])
		}
	}
'''),('''	for i := 0; i < len(out); i++ {
		j := i / limbByteSize
		k := uint64(i % 8)
		out[i] = byte(c.a[j] >> (8 * k))
	}
''','''	for j, w := range c.a {
		for k := 0; k < limbByteSize; k++ {
			out[j*limbByteSize+k] = byte(w)
			w >>= 8
		}
	}
'''))
