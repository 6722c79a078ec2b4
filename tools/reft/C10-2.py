import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed; F='dh/csidh/curve.go'
ed(F,('''	var M = [3]point{*kern}
''','''	var prev, cur, next point
'''),('''	xDbl(&M[1], kern, &point{x: co.a, z: co.c})

	// NOTE: Not constant time.
	for i := uint64(1); i < kernOrder>>1; i++ {
		if i >= 2 {
			xAdd(&M[i%3], &M[(i-1)%3], kern, &M[(i-2)%3])
		}
		subRdc(&t1, &M[i%3].x, &M[i%3].z)
		addRdc(&t0, &M[i%3].x, &M[i%3].z)
''','''	prev = *kern
	xDbl(&cur, kern, &point{x: co.a, z: co.c})

	// NOTE: Not constant time.
	for i := uint64(1); i < kernOrder/2; i++ {
		if i != 1 {
			xAdd(&next, &cur, kern, &prev)
			prev, cur = cur, next
		}
		subRdc(&t1, &cur.x, &cur.z)
		addRdc(&t0, &cur.x, &cur.z)
'''))
