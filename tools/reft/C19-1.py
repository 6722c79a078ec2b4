import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('kem/mkem/sike.go',('''
		_, _ = c.shake.Read(c.cts[ct_i][:skA.Params.MsgLen])
		for i := 0; i < skA.Params.MsgLen; i++ {
			// ct[i]
			c.cts[ct_i][i] ^= c.msg[i]
		}
''','''
		ct := c.cts[ct_i][:c.params.MsgLen]
		_, _ = c.shake.Read(ct)
		for i := range ct {
			ct[i] ^= c.msg[i]
		}
'''),('''
	for ct_i, pkB := range pub {
		if''','''
	for ct_i := 0; ct_i < len(pub); ct_i++ {
		pkB := pub[ct_i]
		if'''),('''
	mask := subtle.ConstantTimeCompare(r[:c.params.PublicKeySize], c.ct0[:c.params.PublicKeySize])
	mask &= subtle.ConstantTimeCompare(ctext[:skA.Params.MsgLen], cti[:skA.Params.MsgLen])
''','''
	okCt := subtle.ConstantTimeCompare(cti[:skA.Params.MsgLen], ctext[:skA.Params.MsgLen])
	okCt0 := subtle.ConstantTimeCompare(c.ct0[:c.params.PublicKeySize], r[:c.params.PublicKeySize])
	mask := okCt0 & okCt
'''))
