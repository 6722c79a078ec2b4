import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed; F='dh/csidh/fp511.go'
# unrolled words as loops; the conditional subtraction in a helper
import re
s=open(F).read()
pick="""	var w = 0 - c
	r[0] = ctPick64(w, r[0], t[0])
	r[1] = ctPick64(w, r[1], t[1])
	r[2] = ctPick64(w, r[2], t[2])
	r[3] = ctPick64(w, r[3], t[3])
	r[4] = ctPick64(w, r[4], t[4])
	r[5] = ctPick64(w, r[5], t[5])
	r[6] = ctPick64(w, r[6], t[6])
	r[7] = ctPick64(w, r[7], t[7])
"""
subp="	t[0], c = bits.Sub64(r[0], p[0], 0)\n"+"".join("	t[%d], c = bits.Sub64(r[%d], p[%d], c)\n"%(i,i,i) for i in range(1,8))
assert s.count(subp+"\n"+pick)==2
s=s.replace(subp+"\n"+pick,"	condSubP(r)\n")
add="	r[0], c = bits.Add64(x[0], y[0], 0)\n"+"".join("	r[%d], c = bits.Add64(x[%d], y[%d], c)\n"%(i,i,i) for i in range(1,7))+"	r[7], _ = bits.Add64(x[7], y[7], c)\n"
assert s.count(add)==1
s=s.replace(add,"	for i := range r {\n		r[i], c = bits.Add64(x[i], y[i], c)\n	}\n")
sub="	r[0], c = bits.Sub64(x[0], y[0], 0)\n"+"".join("	r[%d], c = bits.Sub64(x[%d], y[%d], c)\n"%(i,i,i) for i in range(1,8))
assert s.count(sub)==2
s=s.replace(sub,"	for i := range r {\n		r[i], c = bits.Sub64(x[i], y[i], c)\n	}\n",1)
s=s.replace(sub,"	c = sub512(r, x, y)\n",1)
s=s.replace("	var c uint64\n	var t fp\n	for i := range r","	var c uint64\n	for i := range r")
s=s.replace("	var precomp [16]fp\n	var t fp\n	var c uint64\n","	var precomp [16]fp\n")
s=s.replace("// r = x + y mod p.","""// condSubP subtracts p from r when r is at least p.
func condSubP(r *fp) {
	var t fp
	var c uint64
	for i := range t {
		t[i], c = bits.Sub64(r[i], p[i], c)
	}
	w := 0 - c
	for i := range r {
		r[i] = ctPick64(w, r[i], t[i])
	}
}

// r = x + y mod p.""")
open(F,'w').write(s)
