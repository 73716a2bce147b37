p=0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff
a=p-3
b=0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
G=(0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)
n=0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
def add(P,Q):
    if P is None: return Q
    if Q is None: return P
    if P[0]==Q[0]:
        if (P[1]+Q[1])%p==0: return None
        l=(3*P[0]*P[0]+a)*pow(2*P[1],-1,p)
    else: l=(Q[1]-P[1])*pow(Q[0]-P[0],-1,p)
    x=(l*l-P[0]-Q[0])%p
    return x,(l*(P[0]-x)-P[1])%p
def mul(k,P=G):
    R=None
    while k:
        if k&1:R=add(R,P)
        P=add(P,P);k>>=1
    return R
assert mul(n) is None and (G[1]**2-G[0]**3-a*G[0]-b)%p==0
def h(x): return '*b"'+''.join('\\x%02x'%c for c in x.to_bytes(32,'big'))+'"'
import random
random.seed(7)
K=random.randrange(n); S=random.randrange(n)
out=["//! Points of P-256: (scalar, x, y), made by tools/gen_points.py with the affine formulas of SEC 1.",
"pub struct Pt { pub k: [u8; 32], pub x: [u8; 32], pub y: [u8; 32] }"]
def pt(k):
    x,y=mul(k%n)
    return "Pt { k: %s, x: %s, y: %s }"%(h(k),h(x),h(y))
out.append("/// MULT[i] = (i + 1) G")
out.append("pub static MULT: [Pt; 12] = [%s];"%', '.join(pt(i+1) for i in range(12)))
out.append("pub static FULL_CLI: Pt = %s;\npub static FULL_SER: Pt = %s;\npub static FULL_DH: Pt = %s;"%(pt(K),pt(S),pt(K*S%n)))
# boundary cases: (client, server, shared): leading zeros in the shared abscissa, in the client's and the server's coordinates
def find(pred, step, start=1):
    P=mul(step); k=start; Q=mul(start*step)
    while not pred(Q): Q=add(Q,P); k+=1
    return k
z=lambda v: v>>248==0
c0=find(lambda Q: z(Q[0]), 3)          # shared secret of c0 and 3 starts with a zero byte
c1=find(lambda Q: Q[0]>>240==0, 3)     # two of them
c2=find(lambda Q: z(Q[0]), 1)          # the client's x
c3=find(lambda Q: z(Q[1]), 1)          # the client's y
c4=find(lambda Q: Q[0]&255==0, 3)      # shared secret ends with a zero byte
out.append("/// client, server and shared points with zero bytes at the ends of their coordinates")
out.append("pub static EDGE: [[Pt; 3]; 6] = [%s];"%', '.join('[%s, %s, %s]'%(pt(c),pt(s),pt(c*s)) for c,s in ((c0,3),(c2,3),(c3,2),(2,c2),(2,c3),(c4,3))))
# public shares: (encoded x, encoded y, abscissa of twice the point, or None where it isn't a point of the curve)
T=lambda P: mul(2,P)[0]
G3=mul(3)
small=[(0,0x66485c780e2f83d72433bd5d84a06bb6541c2af31dae871728bf856a174f93f4),(5,0x459243b9aa581806fe913bce99817ade11ca503c64d9a3c533415c083248fbcc),(6,p-0x36b24c2c54250ac2466985e533720047dcd102b80fe7c0e9220d5128828223cb)]
smally=[(0xd7325d7646cd60d80a92738ceb345f844cffaf35841022cab176f692de8de1d7,5),(0x6655861894c5d2f49bf3dbc1b3b175009530f4300e73f9d1a16c4effb44956f6,11)]
on=[G3,(G3[0],p-G3[1])]+small+smally+[mul(n-2)[:],mul(n-1)[:]]
for P in on: assert (P[1]**2-P[0]**3-a*P[0]-b)%p==0
M=2**256-1
off=[(P[0]+p,P[1]) for P in small]+[(P[0],P[1]+p) for P in smally]+[(0,0),(p,p),(0,p),(p,0),(M,M),(0,1),(1,0),(G3[1],G3[0]),(G3[0],0),(0,G3[1]),(G3[0]^1,G3[1]),(G3[0],G3[1]^1),(G3[0],G3[1]^(1<<255)),(G3[0]^(1<<64),G3[1]),(p-1,G3[1]),(G3[0],G3[0]),(p-G3[0],G3[1]),(p-G3[0],p-G3[1]),(p,small[0][1]),(p+1,1),(M,G3[1]),(G3[0],M)]
for P in off: assert P[0]>=p or P[1]>=p or (P[1]**2-P[0]**3-a*P[0]-b)%p
out.append("/// public shares as encoded, and for those that are points of the curve the abscissa of twice the point")
out.append("pub static SHARES: [([u8; 32], [u8; 32], Option<[u8; 32]>); %d] = [%s];"%(len(on)+len(off), ', '.join('(%s, %s, %s)'%(h(P[0]),h(P[1]),'Some(%s)'%h(T(P)) if i<len(on) else 'None') for i,P in enumerate(on+off))))
print(c0,c1,c2,c3,c4)
open('/verif/harness/src/spec/points.rs','w').write('\n'.join(out)+'\n')
