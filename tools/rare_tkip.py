# TKIP inputs at which one addition of the key mixing gives a chosen sum.  Run with
# python3-vt; the list goes into mc/rare_words.py.
import sys, numpy as np
def gf(a,b):
    r=0
    while b:
        if b&1: r^=a
        a<<=1
        if a&256: a^=0x11b
        b>>=1
    return r
inv=[0]+[next(y for y in range(1,256) if gf(x,y)==1) for x in range(1,256)]
sb=[]
for x in range(256):
    b=inv[x]; r=b
    for k in range(1,5): r^=((b<<k)|(b>>(8-k)))&255
    sb.append(r^0x63)
lo=np.array([(gf(s,2)<<8)|gf(s,3) for s in sb]); hi=((lo&255)<<8)|(lo>>8)
S=lambda w: lo[w&255]^hi[w>>8]
M=np.uint32
def mix(x):
    x=x.astype(M); x=x^(x>>M(16)); x=x*M(0x85ebca6b); x=x^(x>>M(13)); x=x*M(0xc2b2ae35); return (x^(x>>M(16)))
have={}
TARGET=[0x10000,0,0xffff,0x7fff,0x8000,0x10001,0xfffe,0x17fff,0x18000,0x1ffff,0x1fffe]
n=0
while n<64:
    c=np.arange(n<<20,(n+1)<<20)
    w=[(mix(mix(c)+M(j*0x9e3779b9&0xffffffff))&M(0xffff)).astype(np.int64) for j in range(14)]
    tk=w[:8]; p=[w[8],w[9],w[10],w[11],w[12]]; iv=w[13]
    e=0
    def note(x):
        global e
        for t in TARGET:
            if (e,t) not in have:
                z=np.nonzero(x==t)[0]
                if len(z): have[e,t]=int(c[z[0]])
        e+=1
    for i in range(8):
        j=i&1
        for k in range(5):
            x=p[k]+S(p[(k+4)%5]^tk[j+(0,2,4,6,0)[k]])
            if k==4: note(x); x=x+i
            note(x); p[k]=x&0xffff
    x=p[4]+iv; note(x); q=p+[x&0xffff]
    for k in range(6):
        x=q[k]+S(q[(k+5)%6]^tk[k]); note(x); q[k]=x&0xffff
    rot=lambda v:(v>>1)|((v&1)<<15)
    for k in range(6):
        y=q[(k+5)%6]^(tk[6+k] if k<2 else 0); x=q[k]+rot(y); note(x); q[k]=x&0xffff
    n+=1
    print(n,len(have),e*len(TARGET),file=sys.stderr)
    if len(have)==e*len(TARGET): break
miss=[(a,hex(t)) for a in range(e) for t in TARGET if (a,t) not in have]
print('missing',miss,file=sys.stderr)
L=sorted(set(have.values())); print(len(L)); print(L)
