import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed; F='dh/csidh/csidh.go'
# helper for normalisation, sampling; done as bool local
ed(F,('''		modExpRdc512(&A.c, &A.c, &pMin1)
		mulRdc(&A.a, &A.a, &A.c)
		A.c = one
''','''		A.normalize()
'''),('''// groupAction evaluates''','''func (c *coeff) normalize() {
	var inv fp
	modExpRdc512(&inv, &c.c, &pMin1)
	mulRdc(&c.a, &c.a, &inv)
	c.c = one
}

// groupAction evaluates'''),('''		done[sign] = true

''','''		fin := true

'''),('''			done[sign] = done[sign] && (e[sign][i] == 0)
		}
''','''			if e[sign][i] != 0 {
				fin = false
			}
		}
		done[sign] = fin
'''))
