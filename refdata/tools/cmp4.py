from cmp import load,runs
A=load('impl/Age.txt')
for n,p in (('Grapheme_Cluster_Break','gcb'),('Word_Break','wb'),('Sentence_Break','sb')):
    I=load('impl/%s.txt'%n); P=load('perl/%s.txt'%p); d={i:(I[i],P[i]) for i in range(0x110000) if I[i] is not None and A[i] !='-' }
    import collections
    c=collections.Counter(d.values())
    print(n,c)
    top=dict()
    for (a,b),k in sorted(c.items(),key=lambda x:-x[1]):
        top.setdefault(a,b)
    dd={i:v for i,v in d.items() if top[v[0]]!=v[1]}
    print(runs(dd))
    un={i:I[i] for i in range(0x110000) if A[i]=='-' and I[i] not in('XX','Other')}
    print('unassigned',runs(un))
