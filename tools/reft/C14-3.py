# a-b before a+b; the wide buffer cleared by assignment
for n in '434','503','751':
    F='dh/sidh/internal/p%s/fp2.go'%n
    s=open(F).read()
    a=[x for x in s.split('\n') if 'addP%s(&aPlusB, a, b)'%n in x][0]
    b=[x for x in s.split('\n') if 'subP%s(&aMinusB, a, b)'%n in x][0]
    s=s.replace(a+'\n'+b,b+'\n'+a)
    o='''	for i := range aR {
		aR[i] = 0
	}
'''
    assert s.count(o)==1
    s=s.replace(o,"	aR = common.FpX2{}\n")
    open(F,'w').write(s)
