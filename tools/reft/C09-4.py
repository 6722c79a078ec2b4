import sys; sys.path.insert(0,'/verif/tools/reft')
# conditional subtractions and additions by a branch
F='dh/csidh/fp511.go'
s=open(F).read()
pick="	var w = 0 - c\n"+"".join("	r[%d] = ctPick64(w, r[%d], t[%d])\n"%(i,i,i) for i in range(8))
assert s.count(pick)==2
s=s.replace(pick,"	if c == 0 {\n		*r = t\n	}\n")
a="	var w = 0 - c\n	r[0], c = bits.Add64(r[0], ctPick64(w, p[0], 0), 0)\n"+"".join("	r[%d], c = bits.Add64(r[%d], ctPick64(w, p[%d], 0), c)\n"%(i,i,i) for i in range(1,7))+"	r[7], _ = bits.Add64(r[7], ctPick64(w, p[7], 0), c)\n"
assert s.count(a)==1
s=s.replace(a,"	if c == 0 {\n		return\n	}\n	c = 0\n	for i := range r {\n		r[i], c = bits.Add64(r[i], p[i], c)\n	}\n")
open(F,'w').write(s)
