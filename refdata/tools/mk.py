import os,re,unicodedata
from cmp import load,runs
os.makedirs('/verif/refdata/tools',exist_ok=True)
A=load('impl/Age.txt')
# single-step decompositions against Python's (15.0), assigned in 10.0
cd=load('impl/Canonical_Decomposition.txt'); kd=load('impl/Compatibility_Decomposition.txt'); bad=0
for i in range(0x110000):
    if A[i] in(None,'-'): 
        assert A[i] is None or (cd[i]=='-' and kd[i]=='-'); continue
    d=unicodedata.decomposition(chr(i))
    if 0xAC00<=i<0xAC00+11172: d=''
    if d.startswith('<'): k=d.split('> ')[1]; c='-'
    else: c=d or '-'; k='-'
    norm=lambda s:s if s=='-' else ' '.join('%X'%int(x,16) for x in s.split())
    if norm(c)!=cd[i] or norm(k)!=kd[i]: bad+=1; print(hex(i),d,cd[i],kd[i])
print('decomp bad',bad)
for f in os.listdir('impl'):
    if f in('Name.txt','Bidi_Class.txt','Canonical_Composition.txt'): continue
    open('/verif/refdata/'+f,'w',encoding='utf8').write(open('impl/'+f,encoding='utf8').read())
for f in('Bidi_Class.txt','Bracket.txt'):
    open('/verif/refdata/'+f,'w').write(open('ref/'+f).read())
def out(name,a):
    with open('/verif/refdata/'+name+'.txt','w') as h:
        s=None
        for i in range(0x110000):
            if 0xD800<=i<0xE000: continue
            if s is not None and a[i]==a[s]: e=i; continue
            if s is not None: h.write('%X..%X\t%s\n'%(s,e,a[s]))
            s=e=i
        h.write('%X..%X\t%s\n'%(s,e,a[s]))
n=load('ref/Name.txt')
def nm(v):
    if v is None: return None
    if v in('<control>','<Private Use>') or v.startswith('<Plane'): return '-'
    if v.startswith('<CJK'): return '<CJK UNIFIED IDEOGRAPH>'
    if v.startswith('<Tangut'): return '<TANGUT IDEOGRAPH>'
    if v.startswith('<Hangul'): return '<HANGUL SYLLABLE>'
    assert v[0]!='<',v
    return v
out('Name',[nm(v) for v in n])
c=load('ref/NFC1.txt')
out('NFC_Changes',[None if c[i] is None else 'N' if c[i]=='%X'%i else 'Y' for i in range(0x110000)])
