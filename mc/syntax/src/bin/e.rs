use std::io::Read;
fn main(){ let how=std::env::args().nth(1).unwrap(); let mut s=String::new(); std::io::stdin().read_to_string(&mut s).unwrap();
 for l in s.lines(){ let l=l.replace("\\n","\n"); let o=mcsyntax::roundtrip::opts_for(&how);
  match parse_js::parse_with_options(&l,o){Err(e)=>println!("{l:?}  ERR {e:?}"),Ok(a)=>{ let t=emit_js::emit_top_level_diagnostic(diagnostics::FileId(0),&a,emit_js::EmitOptions::minified()); println!("{l:?}  {t:?}"); if std::env::var("AST").is_ok(){println!("{:#?}",a.stx.body);} }}}}
