// Development-time generator of harness/data/vectors.json (committed): multiples of the
// generators computed by OpenSSL (through node), independent of /repo and of the harness.
const c=require("crypto"),fs=require("fs");
const curves=JSON.parse(fs.readFileSync(process.argv[2]));
let ctr=0; const det=n=>{let o=Buffer.alloc(0);while(o.length<n)o=Buffer.concat([o,c.createHash("sha512").update("redox-vec"+(ctr++)).digest()]);return o.subarray(0,n)};
const out=[]; const H=b=>BigInt("0x"+(Buffer.from(b).toString("hex")||"0")); const le=b=>H(Buffer.from(b).reverse());
for(const cv of curves) if(cv.ossl){
  const r=BigInt("0x"+cv.r); const n=Math.ceil(cv.r.length/2); const plen=Math.ceil(cv.p.length/2);
  const ks=[1n,2n,3n,4n,7n,0xffffffffn,0x100000000n,r-1n,r-2n,r>>1n,(r>>1n)+1n,(1n<<64n)%r];
  for(let i=0;i<14;i++) ks.push(H(det(n))%(r-1n)+1n);
  for(const k of ks){ const e=c.createECDH(cv.ossl); e.setPrivateKey(Buffer.from(k.toString(16).padStart(2*n,"0"),"hex"));
    const u=e.getPublicKey(null,"uncompressed"), z=e.getPublicKey(null,"compressed");
    out.push({curve:cv.name,kind:"sec1",k:k.toString(16),u:u.toString("hex"),c:z.toString("hex")}); }
}
const P=(oid,raw)=>Buffer.concat([Buffer.from("302e020100300506032b65"+oid+"04220420","hex"),raw]);
for(let i=0;i<16;i++){ const s=det(32); // ed25519
  const k=c.createPrivateKey({key:P("70",s),format:"der",type:"pkcs8"}); const pub=c.createPublicKey(k).export({format:"der",type:"spki"}).subarray(-32);
  const h=c.createHash("sha512").update(s).digest().subarray(0,32); h[0]&=248;h[31]&=127;h[31]|=64;
  out.push({curve:"edwards25519",kind:"ed",k:le(h).toString(16),u:pub.toString("hex"),c:""});}
for(let i=0;i<16;i++){ const s=det(57);
  const k=c.createPrivateKey({key:Buffer.concat([Buffer.from("3047020100300506032b6571043b0439","hex"),s]),format:"der",type:"pkcs8"}); const pub=c.createPublicKey(k).export({format:"der",type:"spki"}).subarray(-57);
  const h=c.createHash("shake256",{outputLength:114}).update(s).digest().subarray(0,57); h[0]&=252;h[56]=0;h[55]|=128;
  out.push({curve:"edwards448",kind:"ed",k:le(h).toString(16),u:pub.toString("hex"),c:""});}
for(let i=0;i<16;i++){ const s=Buffer.from(det(32));
  const k=c.createPrivateKey({key:P("6e",s),format:"der",type:"pkcs8"}); const pub=c.createPublicKey(k).export({format:"der",type:"spki"}).subarray(-32);
  s[0]&=248;s[31]&=127;s[31]|=64; out.push({curve:"curve25519",kind:"xdh",k:le(s).toString(16),u:pub.toString("hex"),c:""});}
for(let i=0;i<16;i++){ const s=Buffer.from(det(56));
  const k=c.createPrivateKey({key:Buffer.concat([Buffer.from("3046020100300506032b656f043a0438","hex"),s]),format:"der",type:"pkcs8"}); const pub=c.createPublicKey(k).export({format:"der",type:"spki"}).subarray(-56);
  s[0]&=252;s[55]|=128; out.push({curve:"curve448",kind:"xdh",k:le(s).toString(16),u:pub.toString("hex"),c:""});}
fs.writeFileSync(process.argv[3],JSON.stringify(out,null,0).replace(/\},/g,"},\n")); console.log(out.length);
