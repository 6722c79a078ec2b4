import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('hash/sha3/sha3.go',('''
	for i := range d.a {
		d.a[i] = 0
	}
	for i := range d.data {
		d.data[i] = 0
	}
	d.isSquezing = false
	d.idx = 0
''','''
	d.idx, d.isSquezing = 0, false
	d.a = [25]uint64{}
	d.data = storageBuf{}
'''),('''
	l := len(in)
	// create buffer if nil has been provided
	if in == nil {
		in = make([]byte, c.Size())
	}

	// enlarge capacity of the buffer if needed
	if cap(in) < (l + c.Size()) {
		b := make([]byte, l+c.Size()-cap(in))
		in = append(in[:cap(in)], b...)
	}

	in = in[:l+c.Size()]
	// Squeeze from a copy, so that caller can keep writing and summing
	dup := *c
	dup.Read(in[l:])
	return in
''','''
	dup := *c
	var md [64]byte
	dup.Read(md[:c.Size()])
	return append(in, md[:c.Size()]...)
'''))
