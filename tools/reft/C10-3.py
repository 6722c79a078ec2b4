import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed; F='dh/csidh/curve.go'
ed(F,('''	// prod^8
	mulRdc(&prod.x, &prod.x, &prod.x)
	mulRdc(&prod.x, &prod.x, &prod.x)
	mulRdc(&prod.x, &prod.x, &prod.x)
	mulRdc(&prod.z, &prod.z, &prod.z)
	mulRdc(&prod.z, &prod.z, &prod.z)
	mulRdc(&prod.z, &prod.z, &prod.z)
''','''	// prod^8
	for i := 0; i < 3; i++ {
		sqrPoint(&prod)
	}
'''),('''	mulRdc(&Q.x, &Q.x, &Q.x)
	mulRdc(&Q.z, &Q.z, &Q.z)
	mulRdc(&img.x, &img.x, &Q.x)
''','''	sqrPoint(&Q)
	mulRdc(&img.x, &img.x, &Q.x)
'''),('''	addRdc(&co.a, &coEd.a, &coEd.c)
	subRdc(&co.c, &coEd.a, &coEd.c)
	addRdc(&co.a, &co.a, &co.a)
''','''	addRdc(&t0, &coEd.a, &coEd.c)
	subRdc(&co.c, &coEd.a, &coEd.c)
	addRdc(&co.a, &t0, &t0)
'''),('''// xIso computes''','''// sqrPoint squares both coordinates.
func sqrPoint(q *point) {
	mulRdc(&q.x, &q.x, &q.x)
	mulRdc(&q.z, &q.z, &q.z)
}

// xIso computes'''),('''	mulRdc(&t0, &t0, &t3)
	mulRdc(&t1, &t1, &t2)
	addRdc(&t2, &t0, &t1)
	subRdc(&t3, &t0, &t1)
	mulRdc(&t2, &t2, &t2) // sqr
	mulRdc(&t3, &t3, &t3) // sqr
	mulRdc(&PaQ.x, &PdQ.z, &t2)
	mulRdc(&PaQ.z, &PdQ.x, &t3)
''','''	mulRdc(&t1, &t1, &t2)
	mulRdc(&t0, &t0, &t3)
	subRdc(&t3, &t1, &t0)
	addRdc(&t2, &t1, &t0)
	mulRdc(&t3, &t3, &t3) // sqr
	mulRdc(&t2, &t2, &t2) // sqr
	mulRdc(&t2, &PdQ.z, &t2)
	mulRdc(&PaQ.z, &PdQ.x, &t3)
	PaQ.x = t2
'''))
