import sys,re,json
def load(p):
    a=[None]*0x110000
    for l in open(p,encoding='utf8'):
        r,v=l.rstrip('\n').split('\t'); s,e=[int(x,16) for x in r.split('..')]
        for i in range(s,e+1): a[i]=v
    for i in range(0xD800,0xE000): a[i]=None
    return a
def runs(d):
    out=[]
    for i in sorted(d):
        if out and out[-1][1]==i-1 and out[-1][2]==d[i]: out[-1][1]=i
        else: out.append([i,i,d[i]])
    return ["%X..%X %s"%(a,b,v) for a,b,v in out]
if __name__=='__main__':
    n=load('ref/Name.txt'); m=load('impl/Name.txt'); d={}
    for i in range(0x110000):
        if n[i]!=m[i] and not (n[i] and n[i].startswith('<')): d[i]=(n[i],m[i])
    print(len(d), runs(d)[:10])
    c={}
    for i in range(0x110000):
        if n[i] and n[i].startswith('<'):
            c.setdefault((n[i],m[i] if m[i]=='-' else re.sub('[0-9A-F]{4,6}$','#',m[i]) if n[i]!='<Hangul Syllable>' else 'H'),[]).append(i)
    for k,v in c.items(): print(k,len(v),hex(v[0]),hex(v[-1]))
    import unicodedata
    bad=[]
    for i in range(0x110000):
        pn=unicodedata.name(chr(i),'-')
        if m[i] not in (None,'-') and pn!=m[i]: bad.append((hex(i),pn,m[i]))
    print('py',len(bad),bad[:10])
