import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed; F='dh/csidh/csidh.go'
# hoist vars out of the loop, product helper
ed(F,('''	for {
		var P point
		var rhs fp
		prv''','''	var P, K point
	var rhs, cof fp
	for {
		prv'''),('''				var cof = fp{1}
				var K point

				for j''','''				cof = fp{1}
				for j'''))
