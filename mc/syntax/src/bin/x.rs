use mccore::*; use mcsyntax::progs::*; use serde_json::json;
fn main(){
  mccore::main("X00","model_checking",|ck|{
    let which=std::env::args().nth(1).unwrap(); let q:u64=std::env::args().nth(2).unwrap().parse().unwrap();
    let mode=std::env::var("MODE").unwrap_or_default(); let fam=[&FOLD,&FLOW,&SCOPE].into_iter().find(|f|f.name==which).unwrap();
    let sp=Grammar::new(fam.rules).space(fam.start,fam.cap,q);
    println!("{} bound {} total {}",fam.name,sp.bound,sp.total);
    ck.par_batches(sp.len(),256,||NodeWorker::new("run.js"),|w,r|{
      let mut progs=vec![]; let mut meta=vec![];
      for i in r { let s=sp.get(i);
        let full=format!("(function(log,f,g){{{}\n}})",s);
        let m=if mode=="opt" { guard(&s,||{ optimize_js::compile_source(&format!("log((()=>{{{s}\n}})())"),optimize_js::TopLevelMode::Module,false).map(|p|{ match optimize_js::program_to_js(&p,&Default::default(),emit_js::EmitOptions::minified()){Ok(b)=>format!("((log,f,g)=>{{\"use strict\";{}\n}})",String::from_utf8(b).unwrap()),Err(e)=>format!("ERR {e:?}")}})}) } else { guard(&s,||{let mut out=vec![]; minify_js::minify(minify_js::TopLevelMode::Global,&full,&mut out).map(|_|String::from_utf8(out).unwrap())})};
        progs.push(json!({"src":if mode=="opt"{format!("return ((log,f,g)=>{{'use strict';log((()=>{{{s}
}})())}})(log,f,g)")}else{s.clone()},"kind":fam.kind,"loop":fam.looping,"tick":fam.tick}));
        let out=match m { Err(p)=>{ck.violation(s.clone(),p);None} Ok(Err(d))=>Some(Err(format!("{:?}",d))), Ok(Ok(o))=>Some(Ok(o))};
        if let Some(Ok(o))=&out { progs.push(json!({"src":format!("return {}(log,f,g)",o.trim_end_matches(';')),"kind":fam.kind,"loop":fam.looping,"tick":fam.tick})); }
        meta.push((s,out));
      }
      let r=w.call(&json!({"progs":progs})); let obs=r["obs"].as_array().unwrap(); let mut k=0;
      for (s,out) in meta { let a=obs[k].as_str().unwrap();k+=1; ck.outcome(a); ck.states(1);
        match out { None=>{}, Some(Err(e))=>{ if !a.contains("SyntaxError"){ ck.violation(s,format!("rejected: {e} but {a}")); } }
          Some(Ok(o))=>{ let b=obs[k].as_str().unwrap();k+=1; ck.traces(1); if a!=b && !a.contains("=> throw SyntaxError "){ ck.violation(s,format!("min: {o}\n orig {a}\n min  {b}")); } } }
      }
    });
  });
}
