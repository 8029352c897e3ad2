# usage: ed.py FILE <<< "<<<<\nold\n====\nnew\n>>>>" blocks; exact, unique match
import sys,re
f=sys.argv[1]; s=open(f).read(); t=sys.stdin.read()
bl=re.findall(r'^<<<<\n(.*?)\n====\n(.*?)\n?>>>>$',t,re.S|re.M)
assert bl
for a,b in bl:
    n=s.count(a)
    if n!=1: print('MATCH',n,'for:\n'+a); sys.exit(1)
    s=s.replace(a,b)
open(f,'w').write(s)
