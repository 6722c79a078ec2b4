import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('hash/sm3/sm3.go',('''
	c := d.BlockSize() - idx
	copy(d.b[idx:], input[:c])
	d.compress(d.b[:], 1)

	input = input[c:]
	nblocks := int(len(input) / d.BlockSize())
	d.compress(input[:], nblocks)

	// this eventually could be done in d.compress
	copy(d.b[:], input[nblocks*d.BlockSize():])
	return nn, nil
''','''
	if idx > 0 {
		n := copy(d.b[idx:], input)
		d.compress(d.b[:], 1)
		input = input[n:]
	}
	full := len(input) &^ (BlockSize - 1)
	d.compress(input[:full], full/BlockSize)
	copy(d.b[:], input[full:])
	return nn, nil
'''),('''
	for i := idx + 1; i < len(dc.b); i++ {
		dc.b[i] = 0
	}
	dc.b[idx] = 0x80
	if idx >= 56 {
		dc.compress(dc.b[:], 1)
		for i := range dc.b {
			dc.b[i] = 0
		}
	}
''','''
	dc.b[idx] = 0x80
	idx++
	if idx > 56 {
		for ; idx < BlockSize; idx++ {
			dc.b[idx] = 0
		}
		dc.compress(dc.b[:], 1)
		idx = 0
	}
	for ; idx < 56; idx++ {
		dc.b[idx] = 0
	}
'''))
