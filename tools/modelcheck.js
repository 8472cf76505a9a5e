const fs=require('fs');
const buf=new ArrayBuffer(8), dv=new DataView(buf);
function fnv(u8){let h=2166136261>>>0;for(let i=0;i<u8.length;i++){h=Math.imul(h^u8[i],16777619)>>>0;}return h;}
const TN={0x7f:'i32',0x7e:'i64',0x7d:'f32',0x7c:'f64',0x70:'anyfunc',0x6f:'externref'};
function norm(t){return t<0?t+128:t;}
function toJs(v){const t=norm(v[0]),b=BigInt(v[1]);
 switch(t){case 0x7f:return Number(BigInt.asIntN(32,b));case 0x7e:return BigInt.asIntN(64,b);case 0x7d:dv.setUint32(0,Number(b&0xffffffffn));return dv.getFloat32(0);case 0x7c:dv.setBigUint64(0,b);return dv.getFloat64(0);
 case 0x6f: return b==0n?null:'x'+b; default: return null;}}
function same(v,x){const t=norm(v[0]);
 if(t==0x70) return (v[1]=='0')==(x===null);
 if(t==0x6f){return v[1]=='0'?x===null:x==='x'+v[1];}
 let y=toJs(v); if(t>=0x7c&&t<=0x7d){ return Object.is(x,y)|| (y!==y&&x!==x);} return x===y;}
let stats={cases:0,steps:0,host:0,skip:0,bad:0};
for(const f of fs.readdirSync(process.argv[2])) for(const line of fs.readFileSync(process.argv[2]+'/'+f,'utf8').split('\n')){ if(!line)continue; const p=JSON.parse(line); if(p.skip){stats.skip++;continue;} stats.cases++;
 let hostq=[],hosti=0,err=null;
 try{
 const env={}; let cur=null;
 p.host.forEach((h,i)=>{env['h'+i]=(...a)=>{stats.host++;const e=hostq[hosti++]; if(!e||e[0]!=i){err='host order';throw new Error('host order');} e[1].forEach((v,k)=>{ if(!same(v,a[k])) err='host arg '+k+' of h'+i+' '+JSON.stringify(v)+' got '+String(a[k]);}); const r=e[2].map(toJs); if(r.length==0)return; if(r.length==1)return r[0]; return r;}});
 p.hg.forEach((g,i)=>{env['g'+i]=new WebAssembly.Global({value:TN[norm(g[0])],mutable:!!g[1]},toJs([g[0],g[2]]));});
 p.hm.forEach((g,i)=>{env['m'+i]=new WebAssembly.Memory(g[1]<0?{initial:g[0]}:{initial:g[0],maximum:g[1]});});
 p.ht.forEach((g,i)=>{env['t'+i]=new WebAssembly.Table(g[2]<0?{initial:g[1],element:TN[norm(g[0])]}:{initial:g[1],maximum:g[2],element:TN[norm(g[0])]}, null);});
 const all={env}; const inst=[];
 for(const m of p.mods){ let bytes=Buffer.from(m.hex,'hex'); 
   const mod=new WebAssembly.Module(bytes); 
   if(m.start>=0){ err='skipstart'; break;}
   const I=new WebAssembly.Instance(mod,all); inst.push(I); all[m.name]=I.exports; }
 if(err=='skipstart'){stats.skip++;continue;}
 for(const s of p.steps){ stats.steps++;
   hostq=s.host;hosti=0;
   if(s.kind!='load'){ p.mods.forEach((m,k)=>{ if(m.fuel>=0) inst[k].exports['g'+m.fuel].value=p.fuelv; });
     let r=inst[s.mod].exports['f'+s.f](...s.a.map(toJs)); 
     if(s.r.length==0) r=[]; else if(s.r.length==1) r=[r];
     if(err)break;
     s.r.forEach((v,k)=>{ if(!same(v,r[k])) err=`step ${s.mod}.${s.f} result ${k} ${JSON.stringify(v)} got ${String(r[k])}`;});
     if(hosti!=hostq.length) err='host count';
   }
   if(err)break;
   for(const q of s.state){ const x=inst[q[0]].exports[q[1]];
     if(q[2]==3){ if(!same(q[3],x.value)) err=`global ${q[0]}.${q[1]} ${JSON.stringify(q[3])} got ${x.value}`;}
     else if(q[2]==2){ const u=new Uint8Array(x.buffer); if(u.length!=q[4]) err='memlen'; else if(!err&&fnv(u)!=Number(q[3])) err='mem '+q[1];}
     else { let z='';for(let i=0;i<x.length;i++)z+=x.get(i)===null?'0':'1'; if(z!=q[3]) err=`table ${q[1]} ${q[3]} got ${z}`;}
   }
   if(err)break;
 }}catch(e){err=err||('exc '+e.message);}
 if(err){stats.bad++; if(stats.bad<10){console.log(f,err); if(process.env.V)console.log(line);}}
}
console.log(stats);
