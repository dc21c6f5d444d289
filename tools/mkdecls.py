#!/usr/bin/env python3
"""Writes harness/src/decls.rs: randomly made uses of char_property! together with what they declare."""
import random,os
R=random.Random(20261119)
OUT=[];W=OUT.append
W("//! Written by tools/mkdecls.py: uses of `char_property!`, and what each declares.")
W("#![allow(clippy::all)]")
W("use super::{BinaryDecl, EnumDecl};")
W("use unic_char_property::{char_property, PartialCharProperty};")
W("use unic_char_range::chars;")
KW=set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen union default".split())
def ident(n):
    while True:
        al=R.choice(["ABab","abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789","kKsS_","Xx_1","éÉßσςKIıi"])
        s=''.join(R.choice(al) for _ in range(R.randint(1,n)))
        if s[0].isdigit(): s='N'+s
        if s in KW or set(s)=={'_'}: continue
        return s
import unicodedata
def human():
    return R.choice(["","Plain name","With \\\"quotes\\\"","Braces {} and {0}","Ünïcode – name","tab\\tand\\nnewline","x"*40,"Name","name"])
def lit(s): return '"'+s+'"'
enums=[];bins=[]
for k in range(30):
    n=R.choice([1,1,2,3,4,6,9,12,20,40])
    if k==28: n=300
    def names(m):
        out=[]
        while len(out)<n:
            i=ident(m)
            if unicodedata.normalize('NFC',i)==i and i not in out: out.append(i)
        return out
    vs=[f"V{j}" if R.random()<.5 else f"Var{j}_{ident(4)}" for j in range(n)]
    if k%3==0:
        # an abbreviation may be another value's long name in another case, or the same value's long name
        ab=names(2 if n<=4 else 3); lo=names(2 if n<=4 else 3)
    else:
        ab=names(5); lo=names(12)
    if k%6==1:
        # long names
        L=random.Random(k)
        lo=[x+''.join(L.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789") for _ in range(L.choice([8,12,15,16,17,20,24,31,32,33,63,64,65,127,128,255,256,257,300]))) for x in lo]
    if k%5==0: lo=list(ab)
    hu=[human() for _ in range(n)]
    if k%4==2: hu[k%n]="  spaces on either side  "
    if k%4==3: hu[k%n]=" "
    if k%7==2: hu[n//2]="\\u{feff}\\u{a0}\\0 odd \\r\\n"
    pa,pl,ph=ident(4),ident(12),human()
    W(f"pub mod e{k} {{\n    use super::*;\n    char_property! {{\n        /// A generated property.\n        pub enum P {{\n            abbr => {lit(pa)};\n            long => {lit(pl)};\n            human => {lit(ph)};")
    for a,b,c,d in zip(vs,ab,lo,hu):
        if R.random()<.4: W("            /// documented")
        W(f"            {a} {{ abbr => {b}, long => {c}, human => {lit(d)}, }}")
    W("        }\n        /// Abbreviated.\n        pub mod abbr_names for abbr;\n        pub mod long_names for long;\n    }")
    W(f"    impl PartialCharProperty for P {{ fn of(c: char) -> Option<P> {{ use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() }} }}")
    W("    pub static DECL: EnumDecl<P> = EnumDecl {")
    W(f"        prop: [{lit(pa)}, {lit(pl)}, {lit(ph)}],\n        values: &[")
    for a,b,c,d in zip(vs,ab,lo,hu): W(f"            (P::{a}, abbr_names::{b}, long_names::{c}, [{lit(a)}, {lit(b)}, {lit(c)}, {lit(d)}]),")
    W("        ],\n    };\n}")
    enums.append(k)
tdir='/verif/harness/src/decl_tables'
os.makedirs(tdir,exist_ok=True)
def ch(v): return "'\\u{%x}'"%v
EDGE=[0,1,0x7f,0x80,0xff,0x100,0xd7ff,0xe000,0xffff,0x10000,0x10fffe,0x10ffff]
for k in range(12):
    direct=k%2==0
    n=[0,0,1,1,2,2,5,5,33,33,200,200][k]
    pts=set()
    while len(pts)<2*n:
        v=R.choice(EDGE) if R.random()<.1 else R.randrange(0x110000) if R.random()<.5 else R.randrange(0x300)
        if not 0xd800<=v<=0xdfff: pts.add(v)
    pts=sorted(pts)
    if direct:
        ps=pts[:n] if R.random()<.5 else pts[-n:] if n else []
        ent=[(p,p) for p in ps]
        t="CharDataTable::Direct(&[\n"+''.join(f"    ({ch(a)}, ()),\n" for a,_ in ent)+"])\n"
    else:
        ent=[(pts[2*i],pts[2*i+1]) for i in range(n)]
        t="CharDataTable::Range(&[\n"+''.join(f"    (chars!({ch(a)}..={ch(b)}), ()),\n" for a,b in ent)+"])\n"
    open(f"{tdir}/t{k}.rsv","w").write(t)
    pa,pl,ph=ident(4),ident(12),human()
    W(f"pub mod b{k} {{\n    use super::*;\n    char_property! {{\n        /// A generated property.\n        pub struct P(bool) {{\n            abbr => {lit(pa)};\n            long => {lit(pl)};\n            human => {lit(ph)};\n            data_table_path => \"decl_tables/t{k}.rsv\";\n        }}\n        /// Has it?\n        pub fn is_p(char) -> bool;\n    }}")
    W(f"    pub static DECL: BinaryDecl = BinaryDecl {{\n        prop: [{lit(pa)}, {lit(pl)}, {lit(ph)}],\n        ranges: &["+', '.join(f"(0x{a:x}, 0x{b:x})" for a,b in ent)+"],\n    };\n}")
W("macro_rules! for_decl_enums { ($m:ident) => { $m!{"+' '.join(f"e{k}" for k in enums)+"} } }")
W("macro_rules! for_decl_binaries { ($m:ident) => { $m!{"+' '.join(f"b{k}" for k in range(12))+"} } }")
W("pub(crate) use {for_decl_binaries, for_decl_enums};")
open('/verif/harness/src/decls.rs','w').write('\n'.join(OUT)+'\n')
