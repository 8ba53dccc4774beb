#!/usr/bin/env python3
"""Development-time generator of harness/data/curves.json (committed).
Weierstrass domain parameters come from the OpenSSL CLI, the 25519/448 and BLS12-381 ones
from their defining formulas (RFC 7748, RFC 9380, BLS seed), none from /repo."""
import subprocess,re,json,sys
def ossl(name):
    t=subprocess.check_output(["openssl","ecparam","-name",name,"-param_enc","explicit","-text","-noout"]).decode()
    def f(k):
        m=re.search(k+r"[^\n]*:\s*\n((?:    .*\n)+)",t)
        return re.sub(r"[^0-9a-f]","",m.group(1)) if m else None
    def num(k):
        h=f(k)
        if h: return int(h,16)
        m=re.search(k+r":\s*(\d+)",t); return int(m.group(1))
    g=f("Generator \\(uncompressed\\)"); assert g[:2]=="04"; g=g[2:]; n=len(g)//2
    return dict(kind="W",p=num("Prime"),a=num("A"),b=num("B"),s=0,r=num("Order"),h=num("Cofactor"),gx=int(g[:n],16),gy=int(g[n:],16))
out=[]
def add(name,builtin,d,ossl_name=""):
    d=dict(d); d["name"]=name; d["builtin"]=builtin; d["ossl"]=ossl_name
    p=d["p"]; k=d["kind"]; x,y,a,b=d["gx"],d["gy"],d["a"],d["b"]
    if k=="W": assert (y*y-(x**3+a*x+b))%p==0,name
    if k=="M": assert (b*y*y-(x**3+a*x*x+x))%p==0,name
    if k=="E": assert (a*x*x+y*y-1-b*x*x*y*y)%p==0,name
    out.append({k:(v if isinstance(v,(str,bool)) else "%x"%(v%p if k in("a","b") else v)) for k,v in d.items()})
for n,o in [("P256","prime256v1"),("P384","secp384r1"),("P521","secp521r1"),("secp256k1","secp256k1")]:
    add(n,True,ossl(o),o)
k1=ossl("secp256k1")
# RFC 9380 section 8.7: E': y^2 = x^3 + A'x + 1771.  The generator is a choice of the library; only
# its relation to the generator of secp256k1 (checked in the harness) is meaningful.
add("secp256k1_3iso",True,dict(kind="W",p=k1["p"],a=0x3f8731abdd661adca08a5558f0f5d272e953d363cb6f0e5d405447c01a444533,b=1771,s=0,r=k1["r"],h=1,
  gx=75295888890003590383366995344834012177557063699577440394299653383124903397514,gy=82553647407850972504999846303729620951309077682374043495922869307182479212755))
z=-0xd201000000010000
p=(z-1)**2*(z**4-z**2+1)//3+z; r=z**4-z**2+1
add("bls12381_g1",True,dict(kind="W",p=p,a=0,b=4,s=0,r=r,h=1-z,
  gx=0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb,
  gy=0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1))
add("bls12381_g1_11iso",True,dict(kind="W",p=p,
  a=0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d,
  b=0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0,s=0,r=r,h=(1-z)**2//3,
  gx=0x6a0ead062ba73a09984eb7351a2d851bc817625345ce033a6eb7d78242b6466c877e022dda626a79ddb85bce57997e2,
  gy=0x3b89d8bb9326270e46b6b74e19f7b3f10082fbf1a46df72da50c6571b969afc570d6529350b1b9b05ab4fe5c29920b4))
p255=2**255-19; l255=2**252+27742317777372353535851937790883648493
p448=2**448-2**224-1; l448=2**446-0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d
def sq(a,p,par):
    if p%4==3: y=pow(a,(p+1)//4,p)
    else:
        y=pow(a,(p+3)//8,p)
        if (y*y-a)%p: y=y*pow(2,(p-1)//4,p)%p
    assert (y*y-a)%p==0
    return y if y%2==par else p-y
inv=lambda x,p: pow(x,-1,p)
# RFC 7748: edwards25519 base y = 4/5, x even
d255=-121665*inv(121666,p255)%p255; y=4*inv(5,p255)%p255
add("edwards25519",True,dict(kind="E",p=p255,a=-1,b=d255,s=0,r=l255,h=8,gx=sq((y*y-1)*inv(d255*y*y+1,p255),p255,0),gy=y))
# RFC 7748 errata: base point of curve25519 is (9, image of the edwards base): v = sqrt(-486664)*u/x
c=sq(-486664%p255,p255,0); e=out[-1]; v=c*9*inv(int(e["gx"],16),p255)%p255
add("curve25519",True,dict(kind="M",p=p255,a=486662,b=1,s=1,r=l255,h=8,gx=9,gy=v))
d448=-39081
gx=224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710
gy=298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660
add("edwards448",True,dict(kind="E",p=p448,a=1,b=d448,s=0,r=l448,h=4,gx=gx,gy=gy))
v=(2-gx*gx-gy*gy)*gy*inv(gx**3,p448)%p448; u=gy*gy*inv(gx*gx,p448)%p448; assert u==5
add("curve448",True,dict(kind="M",p=p448,a=156326,b=1,s=3,r=l448,h=4,gx=5,gy=v))
for o in "secp112r1 secp128r1 secp160k1 secp160r1 secp192k1 prime192v2 secp224k1 secp224r1 prime239v1 brainpoolP256r1 brainpoolP320t1 brainpoolP384r1 brainpoolP512r1".split():
    add(o,False,ossl(o),o)
json.dump(out,open(sys.argv[1],"w"),indent=1)
for o in out: print(o["name"],int(o["p"],16)%16,int(o["r"],16).bit_length())
