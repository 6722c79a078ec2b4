# ed(file, (old, new), ...): the edits of a behaviour-preserving refactoring, made in the working directory
def ed(fn,*prs):
    s=open(fn).read()
    for o,n in prs:
        o,n=o.strip('\n'),n.strip('\n')
        assert s.count(o)==1,(s.count(o),o)
        s=s.replace(o,n)
    open(fn,'w').write(s)
