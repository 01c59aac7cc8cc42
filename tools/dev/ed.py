import sys
def ed(f,*prs):
    s=open(f).read()
    for a,b in prs:
        if s.count(a)!=1: sys.exit("%s: %d matches of %r"%(f,s.count(a),a))
        s=s.replace(a,b)
    open(f,'w').write(s)
