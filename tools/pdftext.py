import re,sys,zlib
data=open(sys.argv[1],'rb').read()
objs={}
for m in re.finditer(rb'(?:^|[\r\n\s])(\d+)\s+(\d+)\s+obj\b',data):
    n=int(m.group(1)); s=m.end(); e=data.find(b'endobj',s); objs[n]=data[s:e]
def stream(o):
    i=o.find(b'stream'); 
    if i<0: return None
    hd=o[:i]; j=i+6
    if o[j:j+2]==b'\r\n': j+=2
    elif o[j:j+1] in b'\r\n': j+=1
    k=o.rfind(b'endstream')
    b=o[j:k]
    if b'FlateDecode' in hd:
        d=zlib.decompressobj()
        try: b=d.decompress(b)
        except Exception as e: return None
    return b
for n,o in list(objs.items()):
    if b'/ObjStm' in o[:400]:
        b=stream(o); 
        if b is None: continue
        N=int(re.search(rb'/N\s+(\d+)',o).group(1)); F=int(re.search(rb'/First\s+(\d+)',o).group(1))
        h=list(map(int,b[:F].split()))
        for i in range(N):
            num,off=h[2*i],h[2*i+1]; end=h[2*i+3] if i+1<N else len(b)-F
            objs.setdefault(num,b[F+off:F+end])
def ref(v):
    m=re.match(rb'\s*(\d+)\s+0\s+R',v); return int(m.group(1)) if m else None
def val(o,key):
    m=re.search(rb'/'+key+rb'(?![A-Za-z])\s*',o)
    return o[m.end():] if m else None
def dic(v):
    r=ref(v)
    return objs.get(r,b'') if r is not None else v
def cmap(n):
    b=stream(objs[n]).decode('latin1'); mp={}
    for blk in re.findall(r'beginbfchar(.*?)endbfchar',b,re.S):
        for a,c in re.findall(r'<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>',blk):
            mp[int(a,16)]=bytes.fromhex(c).decode('utf-16-be','replace')
    for blk in re.findall(r'beginbfrange(.*?)endbfrange',b,re.S):
        for a,z,c in re.findall(r'<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>\s*(<[0-9A-Fa-f]+>|\[.*?\])',blk,re.S):
            a=int(a,16);z=int(z,16)
            if c[0]=='<':
                s=bytes.fromhex(c[1:-1])
                for i in range(z-a+1):
                    mp[a+i]=(int.from_bytes(s,'big')+i).to_bytes(len(s),'big').decode('utf-16-be','replace')
            else:
                for i,x in enumerate(re.findall(r'<([0-9A-Fa-f]+)>',c)): mp[a+i]=bytes.fromhex(x).decode('utf-16-be','replace')
    return mp
fonts={}
def font(n):
    if n not in fonts:
        o=objs[n]; t=val(o,rb'ToUnicode'); two=b'/Type0' in o
        fonts[n]=(cmap(ref(t)) if t else None,two)
    return fonts[n]
# pages in order
root=None
for n,o in objs.items():
    if re.search(rb'/Type\s*/Catalog',o): root=o
pages=[]
def walk(n,res):
    o=objs[n]; r=val(o,rb'Resources'); res=dic(r) if r else res
    if re.search(rb'/Type\s*/Pages',o):
        k=val(o,rb'Kids'); k=dic(k) if not k.startswith(b'[') else k
        for c in re.findall(rb'(\d+)\s+0\s+R',k[:k.find(b']')]): walk(int(c),res)
    else: pages.append((o,res))
walk(ref(val(root,rb'Pages')),b'')
tok=re.compile(rb'\((?:[^()\\]|\\.|\((?:[^()\\]|\\.)*\))*\)|<<|>>|<[0-9A-Fa-f\s]*>|\[|\]|/[^\s/\[\]<>()]*|[^\s/\[\]<>()]+',re.S)
def unesc(s):
    out=bytearray();i=0
    while i<len(s):
        c=s[i]
        if c==92:
            i+=1;c=s[i]
            if 48<=c<=55:
                m=re.match(rb'[0-7]{1,3}',s[i:i+3]);out.append(int(m.group(),8)&255);i+=len(m.group());continue
            out.append({110:10,114:13,116:9,98:8,102:12}.get(c,c))
        else: out.append(c)
        i+=1
    return bytes(out)
def mul(a,b):
    return (a[0]*b[0]+a[1]*b[2],a[0]*b[1]+a[1]*b[3],a[2]*b[0]+a[3]*b[2],a[2]*b[1]+a[3]*b[3],a[4]*b[0]+a[5]*b[2]+b[4],a[4]*b[1]+a[5]*b[3]+b[5])
for pn,(o,res) in enumerate(pages):
    f=val(res,rb'Font'); fd=dic(f) if f else b''
    fm={a:int(b) for a,b in re.findall(rb'/([^\s/]+)\s+(\d+)\s+0\s+R',fd)}
    c=val(o,rb'Contents'); cs=[]
    if c.startswith(b'['): cs=[int(x) for x in re.findall(rb'(\d+)\s+0\s+R',c[:c.find(b']')])]
    else: cs=[ref(c)]
    b=b'\n'.join(stream(objs[x]) or b'' for x in cs)
    items=[];st=[];tm=lm=(1,0,0,1,0,0);ctm=(1,0,0,1,0,0);stk=[];cur=(None,False);lead=0;arr=None
    def show(s):
        mp,two=cur
        if two: t=''.join((mp or {}).get(s[i]<<8|s[i+1],'?') for i in range(0,len(s)-1,2))
        elif mp: t=''.join(mp.get(x,chr(x)) for x in s)
        else: t=s.decode('cp1252','replace')
        m=mul(tm,ctm); items.append((m[5],m[4],t))
    for m in tok.finditer(b):
        t=m.group(); h=t[:1]
        if h==b'(' or (h==b'<' and t!=b'<<'):
            s=unesc(t[1:-1]) if h==b'(' else bytes.fromhex((t[1:-1].decode().replace(' ','').replace('\n','')+'0')[:len(t[1:-1].split() and b''.join(t[1:-1].split()))//2*2])
            st.append(s)
        elif t==b'Tf':
            try: cur=font(fm[st[-2][1:]])
            except Exception: cur=(None,False)
            st=[]
        elif t==b'BT': tm=lm=(1,0,0,1,0,0);st=[]
        elif t==b'Tm': tm=lm=tuple(map(float,st[-6:]));st=[]
        elif t in(b'Td',b'TD'):
            x,y=map(float,st[-2:]); lm=tm=mul((1,0,0,1,x,y),lm); 
            if t==b'TD': lead=-y
            st=[]
        elif t==b'TL': lead=float(st[-1]);st=[]
        elif t==b'T*': lm=tm=mul((1,0,0,1,0,-lead),lm);st=[]
        elif t==b'Tj':
            if st: show(st[-1])
            st=[]
        elif t==b'TJ':
            s=b'';
            k=max(i for i,x in enumerate(st) if x==b'[')
            parts=[]
            for x in st[k+1:]:
                if x==b']':break
                parts.append(x)
            s=b''
            for x in parts:
                try: float(x); isn=re.fullmatch(rb'[-+.\d]+',x) is not None
                except ValueError: isn=False
                if not isn: s+=x
            show(s); st=[]
        elif t==b'cm': ctm=mul(tuple(map(float,st[-6:])),ctm);st=[]
        elif t==b'q': stk.append(ctm);st=[]
        elif t==b'Q': ctm=stk.pop() if stk else ctm;st=[]
        elif re.fullmatch(rb'[A-Za-z\'"*]+\d?',t): st=[]
        else: st.append(t)
    print(f'=== page {pn+1}')
    lines=[]
    for y,x,t in items:
        for l in lines:
            if abs(l[0]-y)<2.5: l[1].append((x,t));break
        else: lines.append([y,[(x,t)]])
    lines.sort(key=lambda l:-l[0])
    for y,l in lines:
        # keep stream order for same-run pieces; mark column gaps
        l.sort(key=lambda z:z[0])
        out='';px=None
        for x,t in l:
            if px is not None and x-px>0: out+= '\t' if x-px>8 else ''
            out+=t; px=x+len(t)*4.6
        print(out)
