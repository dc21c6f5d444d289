import re,glob,ast
from cmp import load,runs
R=glob.glob('/root/.cargo/registry/src/*1949*/regex-syntax-0.5.6/src/unicode_tables/')[0]
def parse(f):
    s=open(R+f,encoding='utf8').read()
    out={}
    for m in re.finditer(r"pub const (\w+): &'static \[\(char, char\)\] = &\[(.*?)\];",s,re.S):
        if m.group(1)=='BY_NAME': continue
        rs=[]
        def ch(x):
            if x.startswith('\\u{'): return int(x[3:-1],16)
            if x.startswith('\\'): return {'n':10,'t':9,'r':13,'\\':92,"'":39,'"':34,'0':0}[x[1]]
            return ord(x)
        for a,b in re.findall(r"\('((?:\\u\{[0-9a-f]+\}|\\.|[^\\]))', '((?:\\u\{[0-9a-f]+\}|\\.|[^\\]))'\)",m.group(2)):
            rs.append((ch(a),ch(b)))
        out[m.group(1)]=rs
    return out
gc=parse('general_category.rs')
names={'UPPERCASE_LETTER':'Lu','LOWERCASE_LETTER':'Ll','TITLECASE_LETTER':'Lt','MODIFIER_LETTER':'Lm','OTHER_LETTER':'Lo','NONSPACING_MARK':'Mn','SPACING_MARK':'Mc','ENCLOSING_MARK':'Me','DECIMAL_NUMBER':'Nd','LETTER_NUMBER':'Nl','OTHER_NUMBER':'No','CONNECTOR_PUNCTUATION':'Pc','DASH_PUNCTUATION':'Pd','OPEN_PUNCTUATION':'Ps','CLOSE_PUNCTUATION':'Pe','INITIAL_PUNCTUATION':'Pi','FINAL_PUNCTUATION':'Pf','OTHER_PUNCTUATION':'Po','MATH_SYMBOL':'Sm','CURRENCY_SYMBOL':'Sc','MODIFIER_SYMBOL':'Sk','OTHER_SYMBOL':'So','SPACE_SEPARATOR':'Zs','LINE_SEPARATOR':'Zl','PARAGRAPH_SEPARATOR':'Zp','CONTROL':'Cc','FORMAT':'Cf','PRIVATE_USE':'Co','UNASSIGNED':'Cn'}
G=[None]*0x110000
for k,v in names.items():
    for a,b in gc[k]:
        for i in range(a,b+1): G[i]=v
for i in range(0xD800,0xE000): G[i]=None
impl=load('impl/General_Category.txt')
d={i:(G[i],impl[i]) for i in range(0x110000) if G[i]!=impl[i]}
print('gc',len(d),runs(d)[:10])
b=parse('property_bool.rs')
import os
for k in sorted(b):
    name={'ID_START':'ID_Start','ID_CONTINUE':'ID_Continue','XID_START':'XID_Start','XID_CONTINUE':'XID_Continue'}.get(k,'_'.join(w.capitalize() for w in k.split('_')))
    if k=='NONCHARACTER_CODE_POINT': name='Noncharacter'
    p='impl/%s.txt'%name
    if not os.path.exists(p): 
        continue
    A=['N']*0x110000
    for s,e in b[k]:
        for i in range(s,e+1): A[i]='Y'
    I=load(p)
    d={i:(A[i],I[i]) for i in range(0x110000) if I[i] is not None and A[i]!=I[i]}
    print(name,len(d),runs(d)[:6])
BOOL=b
age=parse('age.rs'); A=['-']*0x110000
for k,rs in age.items():
    mj,mn=k[1:].split('_')
    for s,e in rs:
        for i in range(s,e+1): A[i]='%s.%s.0'%(mj,mn)
I=load('impl/Age.txt'); d={i:(A[i],I[i]) for i in range(0x110000) if I[i] is not None and A[i]!=I[i]}
print('age',len(d),runs(d)[:5], list(age)[:5])
S=lambda k:{i for a,b_ in BOOL[k] for i in range(a,b_+1)}
def chk(n,f):
    I=load('impl/%s.txt'%n); d={i:I[i] for i in range(0x110000) if I[i] is not None and (I[i]=='Y')!=f(i)}
    print(n,len(d),runs(d)[:6])
al=S('ALPHABETIC')
chk('Alphanumeric',lambda i:i in al or G[i] in('Nd','Nl','No'))
chk('Numeric',lambda i:G[i] in('Nd','Nl','No'))
chk('Control',lambda i:G[i]=='Cc')
chk('Mark',lambda i:G[i] in('Mn','Mc','Me'))
chk('Private_Use',lambda i:G[i]=='Co')
print([k for k in BOOL])
