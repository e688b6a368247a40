use mccore::*; use serde_json::json; use typecheck_ts::*; use std::sync::Arc;
const LIB:&str="interface Array<T>{length:number;[n:number]:T} interface ReadonlyArray<T>{readonly length:number;readonly [n:number]:T} interface Boolean{valueOf():boolean} interface Function{bind():void} interface CallableFunction extends Function{} interface NewableFunction extends Function{} interface IArguments{} interface Number{toFixed():string} interface Object{} interface RegExp{} interface String{readonly length:number}";
fn diags(src:&str)->Vec<(String,u32,u32)>{
  let mut o=lib_support::CompilerOptions::default(); o.no_default_lib=true; o.libs=vec![];
  let mut h=MemoryHost::with_options(o); let k=FileKey::new("a.ts"); h.insert(k.clone(), src);
  h.add_lib(lib_support::LibFile{key:FileKey::new("lib.d.ts"),name:Arc::from("lib.d.ts"),kind:lib_support::FileKind::Dts,text:Arc::from(LIB)});
  let p=Program::new(h,vec![k]);
  p.check().into_iter().map(|d|(d.code.to_string(),d.primary.range.start,d.primary.range.end)).collect()
}
fn main(){ mccore::main("X01","model_checking",|ck|{
  let types=["number","string","boolean","1","2","'a'","true","undefined","null","void","never","unknown","any","object","{}","{a:number}","{a?:number}","{a:1}","{a:number,b:string}","number|string","1|2","'a'|'b'","{a:1}|{a:2}","{a:number}&{b:string}","number[]","1[]","[number]","[number,string]","[number,...string[]]","[a?:number]","()=>void","()=>number","(x:number)=>void","(x:1)=>void","(x:string)=>void","(x?:number)=>void","readonly number[]","{readonly a:number}","{[k:string]:number}","new()=>{a:number}","{(x:number):string}","string&number","1n","bigint","symbol","`a${string}`","string|undefined","Function","{a:undefined}","{length:number}","[]","(x:number,y:number)=>void","(...a:number[])=>void","keyof {a:1,b:2}","{m():void}","{a:number}|undefined","boolean|1"];
  let n=types.len() as u64;
  let full=std::env::args().nth(1).is_some();
  ck.par_batches(n*n,400,||NodeWorker::new("tsc.js"),|w,r|{
    let srcs:Vec<String>=r.map(|i|format!("declare let a:{};let b:{}=a;export{{a,b}};",types[(i/n) as usize],types[(i%n) as usize])).collect();
    let o=w.call(&json!({"files":srcs,"lib":LIB,"msg":true}));
    for (i,s) in srcs.iter().enumerate(){
      let t:Vec<u64>=o["diags"][i].as_array().unwrap().iter().map(|d|d[0].as_u64().unwrap()).collect();
      ck.states(1);
      match guard(s,||diags(s)){ Err(e)=>ck.violation(s.clone(),e), Ok(d)=>{
        if d.is_empty()!=t.is_empty(){ ck.violation(s.clone(),format!("tsc {t:?} ours {d:?}")); } } }
    }
  });
  let _=full;
});}
