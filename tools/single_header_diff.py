import re,os,sys
def norm(s):
    out=[]
    for l in s.split('\n'):
        t=l.strip()
        if re.match(r'#\s*(ifndef|define)\s+\w+_HPP$',t) or t=='' : continue
        if re.match(r'#include\s+"',t): continue
        out.append(t)
    return out
def flat(p,seen):
    p=os.path.normpath(p)
    if p in seen: return []
    seen.add(p)
    r=[]
    for l in open(p).read().split('\n'):
        m=re.match(r'\s*#include\s+"([^"]+)"',l)
        if m: r+=flat(os.path.join(os.path.dirname(p),m[1]),seen)
        else: r.append(l.rstrip())
    return r
for a in ('ctre','ctre-unicode'):
    x='\n'.join(flat('include/%s.hpp'%a,set())); y=open('single-header/%s.hpp'%a).read()
    open('/tmp/x/%s.flat'%a,'w').write('\n'.join(norm(x))+'\n'); open('/tmp/x/%s.sh'%a,'w').write('\n'.join(norm(y))+'\n')
