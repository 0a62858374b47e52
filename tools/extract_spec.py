#!/usr/bin/env python3
"""One-off: derive the wire-layout tables in /verif/spec from the base tree's encode() methods,
cross-checking decode(), field declarations, getters and the literals of the repository's own tests.
The checks never run this: they read the committed tables. Kept so the tables' provenance can be reviewed."""
import re,sys,os,glob
REPO=sys.argv[1] if len(sys.argv)>1 else '/repo'
MODS={'bjse':'bjse-bin','risk':'risk-bin','sample':'sample-bin','sse':'sse-bin','szse':'szse-bin'}
J2={'byte':'i8','short':'i16','int':'i32','long':'i64','float':'f32','double':'f64'}
def body(src,sig):
    i=src.index(sig); i=src.index('{',i); d=0
    for j in range(i,len(src)):
        if src[j]=='{': d+=1
        elif src[j]=='}':
            d-=1
            if d==0: return src[i+1:j]
def norm(s): return re.sub(r'\s+',' ',s).strip()
W={'Byte':'i8','Short':'i16','Int':'i32','Long':'i64','Float':'f32','Double':'f64'}
PAD={"' '":'space',"'0'":'zero',"'\\0'":'nul'}
def fixed(a):
    if len(a)==1: return f'str {a[0]} space right'
    return f'str {a[0]} {PAD[a[1]]} {"left" if a[2]=="true" else "right"}'
warn=[]
def classes(path):
    s=open(path).read()
    m=re.search(r'public class (\w+) implements BinaryCodec',s)
    outer=m.group(1)
    inner=[(x.start(),x.group(1)) for x in re.finditer(r'public static class (\w+) implements BinaryCodec',s)]
    out=[(outer,s[:inner[0][0]] if inner else s)]
    for k,(p,n) in enumerate(inner):
        e=inner[k+1][0] if k+1<len(inner) else len(s)
        out.append((outer+'$'+n,s[p:e]))
    return out
def enc_tokens(b):
    """-> list of (field, desc, le)"""
    b=norm(b); res=[]
    pats=[
     (r"writeFixedString\( ?byteBuf, this\.(\w+), (\d+)(?:, ('[^']+'), (true|false))?\);",'fs'),
     (r"byteBuf\.write(Byte|Short|Int|Long|Float|Double)(LE)?\(this\.(\w+)\);",'num'),
     (r"if \(null == this\.(\w+) \|\| this\.\1\.size\(\) == 0\) \{ byteBuf\.write(Short|Int)(?:LE)?\(0\); \} else \{ byteBuf\.write(Short|Int)(LE)?\(\((?:short|int)\) this\.\1\.size\(\)\); for \(int i = 0; i < this\.\1\.size\(\); i\+\+\) \{ (.*?) \} \}(?! \})",'list'),
     (r"if \(StringUtil\.isNullOrEmpty\(this\.(\w+)\)\) \{ byteBuf\.write(Short|Int)(?:LE)?\(0\); \} else \{ byte\[\] bytes = this\.\1\.getBytes\(StandardCharsets\.UTF_8\); byteBuf\.write(Short|Int)(LE)?\(bytes\.length\); byteBuf\.writeBytes\(bytes\); \}",'ds'),
     (r"if \(null != this\.(\w+)\) \{ this\.\1\.encode\(byteBuf\); \}",'union'),
     (r"this\.(\w+)\.encode\(byteBuf\);",'obj'),
     (r"int (\w+)Pos = byteBuf\.writerIndex\(\); byteBuf\.writeInt(LE)?\(0\); int (\w+)Start = byteBuf\.writerIndex\(\); if \(this\.\3 != null\) \{ this\.\3\.encode\(byteBuf\); \} int \3End = byteBuf\.writerIndex\(\); this\.\1 = \(int\) \(\3End - \3Start\); byteBuf\.setInt(?:LE)?\(\1Pos, this\.\1\);",'lenbody'),
     (r"ChecksumService<ByteBuf, Integer> checksumService = ChecksumServiceFactory\.getInstance\(\)\.getChecksumService\(\"(\w+)\"\); if \(checksumService != null\) \{ this\.(\w+) = \(int\) checksumService\.calc\(byteBuf\); \} byteBuf\.writeInt(LE)?\(this\.\2\);",'ck'),
    ]
    pos=0
    while pos<len(b):
        if b[pos]==' ': pos+=1; continue
        for p,k in pats:
            m=re.compile(p).match(b,pos)
            if m: break
        else: raise SystemExit('cannot parse: '+b[pos:pos+300])
        g=m.groups()
        if k=='fs': res.append((g[0],fixed([x for x in g[1:] if x]),None))
        elif k=='num': res.append((g[2],W[g[0]],g[1]=='LE' if g[0]!='Byte' else None))
        elif k=='ds':
            assert g[1]==g[2]; res.append((g[0],'dstr '+W[g[2]],g[3]=='LE'))
        elif k=='union': res.append((g[0],'UNION',None))
        elif k=='obj': res.append((g[0],'OBJ',None))
        elif k=='lenbody':
            res.append((g[0],'len '+g[2],g[1]=='LE')); res.append((g[2],'UNION',None))
        elif k=='ck': res.append((g[1],'cksum '+g[0],g[2]=='LE'))
        elif k=='list':
            f,c0,c1,le,inner=g; assert c0==c1
            im=re.match(r"writeFixedString\( ?byteBuf, this\.\w+\.get\(i\), (\d+)(?:, ('[^']+'), (true|false))?\);",inner)
            if im: e=fixed([x for x in im.groups() if x])
            elif re.match(r"this\.\w+\.get\(i\)\.encode",inner): e='OBJ'
            elif 'isNullOrEmpty' in inner:
                e='dstr '+W[re.search(r'write(Short|Int)(LE)?\(bytes.length',inner).group(1)]
            else:
                im=re.match(r"byteBuf\.write(\w+?)(LE)?\(this\.\w+\.get\(i\)\);$",inner); e=W[im.group(1)]
                if im.group(1)!='Byte' and (im.group(2)=='LE')!=(le=='LE'): warn.append('endian mix '+f)
            res.append((f,f'list {W[c1]} '+e,le=='LE'))
        pos=m.end()
    return res
for mod,d in MODS.items():
    files=sorted(glob.glob(f'{REPO}/{d}/src/main/java/**/*.java',recursive=True))
    lines=[]; pkg=None
    endian={'sample':True,'bjse':True}.get(mod,False)
    for f in files:
        src=open(f).read(); pkg=re.search(r'package ([\w.]+);',src).group(1)
        for name,s in classes(f):
            decl=dict((m.group(2),m.group(1)) for m in re.finditer(r'^\s+private ([\w<>]+) (\w+);',s,re.M))
            toks=enc_tokens(body(s,'void encode(ByteBuf byteBuf)'))
            if [t[0] for t in toks]!=list(decl): warn.append(f'{mod} {name} decl order differs: {[t[0] for t in toks]} vs {list(decl)}')
            dec=norm(body(s,'void decode(ByteBuf byteBuf)'))
            # order in which decode assigns
            order=[]
            for m in re.finditer(r'this\.(\w+)(?: =|\.add|\.decode)|(?:short|int) (\w+?)(?:Len|Size) =',dec):
                n=m.group(1) or m.group(2)
                if n not in order: order.append(n)
            if order!=list(decl): warn.append(f'{mod} {name} decode order differs {order}')
            lines.append(f'message {name}')
            for fld,desc,le in toks:
                if le is not None and le!=endian: warn.append(f'{mod} {name}.{fld} endian {le}')
                t=decl[fld]
                if desc in J2.values():
                    if J2.get(t)!=desc: warn.append(f'{mod} {name}.{fld} wire {desc} vs java {t}')
                if desc.startswith('list') and desc.endswith('OBJ'):
                    el=re.match(r'List<(\w+)>',t).group(1)
                    if os.path.exists(os.path.join(os.path.dirname(f),el+'.java')): desc=desc[:-3]+'obj '+el
                    else: desc=desc[:-3]+'obj '+name.split('$')[0]+'$'+el
                if desc=='OBJ':
                    el=t
                    desc='obj '+(el if os.path.exists(os.path.join(os.path.dirname(f),el+'.java')) else name.split('$')[0]+'$'+el)
                # decode side cross-checks
                if desc.startswith('str'):
                    m=re.search(r"this\.%s = readFixedString\(byteBuf, (\d+)(?:, ('[^']+'), (true|false))?\)"%fld,dec)
                    if not m or fixed([x for x in m.groups() if x])!=desc: warn.append(f'{mod} {name}.{fld} decode {m and m.groups()} vs {desc}')
                if desc in J2.values():
                    m=re.search(r"this\.%s = byteBuf\.read(\w+?)(LE)?\(\)"%fld,dec)
                    if not m or W[m.group(1)]!=desc or (desc!='i8' and (m.group(2)=='LE')!=endian): warn.append(f'{mod} {name}.{fld} decode num')
                if desc=='UNION':
                    m=re.search(r"this\.%s = (?:\w+\.getInstance\(\)\.create|createApplExtend)\(this\.(\w+)\)"%fld,dec)
                    key=m.group(1)
                    lines.append(f'  {fld} union {key} {J2.get(decl[key],"key")}')
                    regs=[]
                    for m in re.finditer(r'register\(\s*(?:\w+\.class,\s*)?(?:\((?:int|short)\) (\d+)|"(\w+)"|MessageType\.(\w+)\.getValue\(\)),\s*(\w+)::new',src):
                        k=m.group(1) or m.group(2) or re.search(r'\b%s\((\d+)\)'%m.group(3),src).group(1)
                        regs.append((k,m.group(4)))
                    for m in re.finditer(r'applExtendMap\.put\("(\w+)", (\w+)::new',src): regs.append((m.group(1),m.group(2)))
                    for k,c in regs: lines.append(f'    case {k} {c}')
                    continue
                lines.append(f'  {fld} {desc}')
    with open(f'/verif/spec/{mod}.spec','w') as o:
        o.write(f'module {mod} {pkg} {"LE" if endian else "BE"}\n'+'\n'.join(lines)+'\n')
# cross-check against the literals of the repository's own tests
TL={'(byte) 1':'i8','(short) 2':'i16','4':'i32','8L':'i64','4F':'f32','8D':'f64'}
nstr=nnum=0
for mod,d in MODS.items():
    spec={};cur=None
    for l in open(f'/verif/spec/{mod}.spec'):
        p=l.split()
        if p[0]=='message': cur=p[1].split('$')[-1]; spec[cur]={}
        elif p[0] not in('module','case') : spec[cur][p[0].lower()]=p[1:]
    for f in glob.glob(f'{REPO}/{d}/src/test/java/**/*.java',recursive=True):
        s=norm(open(f).read()); var={}
        for m in re.finditer(r'(?:\w+\.)?(\w+) (\w+) = new (?:\w+\.)?(\w+)\(\);',s): var[m.group(2)]=m.group(3)
        for m in re.finditer(r'(\w+)\.set(\w+)\((.*?)\);',s):
            c=var[m.group(1)]; fl=m.group(2).lower(); a=m.group(3); sp=spec[c][fl]
            am=re.match(r'Arrays\.asList\((.*)\)$',a)
            if am: a=am.group(1); sp=sp[2:] if sp[0]=='list' else ['?']
            if a.startswith('"'):
                if sp[0]=='str':
                    nstr+=1
                    if len(a)-2!=int(sp[1]): warn.append(f'test literal {f} {c}.{fl} {a} vs {sp}')
            elif a in TL:
                nnum+=1
                if sp[0]!=TL[a] and sp[0] not in('cksum','len'): warn.append(f'test literal {f} {c}.{fl} {a} vs {sp}')
print('string literals agreeing/checked',nstr,'numeric',nnum)
print('\n'.join(warn) or 'no warnings')
