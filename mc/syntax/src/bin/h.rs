use std::io::BufRead;
fn main(){ for l in std::io::stdin().lock().lines(){ let l=l.unwrap().replace("\\n","\n");
  let ast=match parse_js::parse_with_options(&l,parse_js::ParseOptions{dialect:parse_js::Dialect::Ts,source_type:parse_js::SourceType::Script}){Ok(a)=>a,Err(e)=>{println!("PARSE {e:?}");continue}};
  let lo=hir_js::lower_file(diagnostics::FileId(0),hir_js::FileKind::Ts,&ast);
  println!("{} -> {}",l, match emit_js::emit_hir_file_diagnostic(&lo,emit_js::EmitOptions::minified()){Ok(s)=>s,Err(e)=>format!("ERR {:?}",e.message)}); } }
