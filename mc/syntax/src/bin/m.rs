use std::io::BufRead;
fn main(){ let kind=std::env::args().nth(1).unwrap_or("script".into());
 for l in std::io::stdin().lock().lines(){ let l=l.unwrap().replace("\\n","\n"); let mut o=vec![];
  let r=minify_js::minify(if kind=="module"{minify_js::TopLevelMode::Module}else{minify_js::TopLevelMode::Global},&l,&mut o);
  println!("{:?} -> {}",l, match r{Ok(())=>String::from_utf8(o).unwrap(),Err(e)=>format!("ERR {:?}",e[0].message)}); } }
