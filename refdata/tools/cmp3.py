import os
from cmp import load,runs
from cmp2 import G,BOOL,S
A=load('impl/Age.txt')
def pl(n): return load('perl/%s.txt'%n)
# decomposition
cd=load('impl/Canonical_Decomposition.txt'); kd=load('impl/Compatibility_Decomposition.txt')
def h(s): return [int(x,16) for x in s.split()]
def hang(c):
    s=c-0xAC00; o=[0x1100+s//588,0x1161+s%588//28]
    return o+([0x11a7+s%28] if s%28 else [])
def full(c,k):
    if 0xAC00<=c<0xAC00+11172: return hang(c)
    t=cd[c]
    if t=='-' and k: t=kd[c]
    if t=='-': return [c]
    return [y for x in h(t) for y in full(x,k)]
for k,f in ((0,'NFD1'),(1,'NFKD1')):
    R=load('ref/%s.txt'%f); d={}
    for i in range(0x110000):
        if R[i] is None: continue
        e=[i] if R[i]=='-' else h(R[i])
        if full(i,k)!=e: d[i]=(e,full(i,k))
    print(f,len(d),runs(d)[:5])
dt=load('impl/Decomposition_Type.txt'); P=pl('dt')
import collections
c=collections.Counter((dt[i],P[i]) for i in range(0x110000) if dt[i] is not None and A[i]!='-')
print(c)
bm=load('impl/Bidi_Mirrored.txt'); P=pl('bidi_m'); d={i:(bm[i],P[i]) for i in range(0x110000) if A[i] not in(None,'-') and bm[i]!=P[i]}
print('mirr',len(d),runs(d)[:5], sum(1 for i in range(0x110000) if A[i]=='-' and bm[i]=='Y'))
for n,p in (('Emoji','emoji'),('Emoji_Presentation','epres'),('Emoji_Modifier','emod'),('Emoji_Modifier_Base','ebase'),('Emoji_Component','ecomp')):
    I=load('impl/%s.txt'%n); P=pl(p); d={i:(I[i],P[i]) for i in range(0x110000) if A[i] not in(None,'-') and I[i]!=P[i]}
    print(n,len(d),runs(d)[:12], sum(1 for i in range(0x110000) if A[i]=='-' and I[i]=='Y'))
I=load('impl/Block.txt'); P=pl('blk'); bad={}
for i in range(0x110000):
    if I[i] is None: continue
    n=I[i].split(' ',1)[1] if I[i]!='-' else 'No_Block'
    if n!=P[i]: bad[i]=(n,P[i])
print('block',len(bad),runs(bad)[:80])
