import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('kem/mkem/csidh.go',('''
	for i, pk := range keys {
		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)
''','''
	csidh.GeneratePublicKey(&pkA, &skA, c.Rng)
	pkA.Export(c.Ct0[:])
	for i := range keys {
		csidh.DeriveSecret(&ss, &keys[i], &skA, c.Rng)
'''),('''
			c.Cts[i][j] = pt[j] ^ ss[j]
		}
	}

	csidh.GeneratePublicKey(&pkA, &skA, c.Rng)
	pkA.Export(c.Ct0[:])
	return
''','''
			c.Cts[i][j] = pt[j] ^ ss[j]
		}
	}
'''))
