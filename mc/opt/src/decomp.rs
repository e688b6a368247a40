//! C13: a program that the optimiser compiled and turned back into JavaScript does what it did.
use mccore::{guard, Grammar, Check, NodeWorker};
use optimize_js::decompile::{program_to_js, DecompileOptions, TempDeclStyle};
use optimize_js::{compile_source, TopLevelMode};
use serde_json::{json, Value};

struct Family {
  name: &'static str,
  kind: &'static str,
  pre: &'static str,
  post: &'static str,
  rules: &'static [(&'static str, &'static [&'static str])],
  cap: usize,
  budget: (u64, u64),
}

const FAMILIES: &[Family] = &[
  Family {
    name: "flow",
    kind: "sfn",
    pre: "let a=f(1),b=f(0),i=0;",
    post: "log(a,b,i);",
    rules: &[
      ("L", &["0:$S", "0:$S$L"]),
      ("S", &[
        "a=$E;", "b=$E;", "log($E);", "if($C){$L}", "if($C){$L}else{$L}", "while(i++<2){$B}", "do{$B}while(i++<2);",
        "for(let k=0;k<2;k++){$B}", "l:{$K}", "m:while(i++<3){$M}", "switch($E){case 0:$T case 1:$T default:$T}",
        "for(;;){$L if(i++>1)break;$B}",
      ]),
      ("B", &["0:$S", "0:$S$B", "0:if($C){$J}$S", "0:$J"]),
      ("J", &["break;", "continue;"]),
      ("K", &["0:$S", "0:if($C){break l}$S", "0:$S break l;"]),
      ("M", &["0:$B", "for(let k=0;k<2;k++){if($C)continue m;$S}", "while(i++<5){if($C)break m;$S}"]),
      ("T", &["0:$S", "0:break;", "0:$S break;"]),
      ("C", &["f(a)", "a<b", "a===b", "f(1)&&f(b)", "!a"]),
      ("E", &["0", "a+1", "b", "f(a)", "a&&b", "f(a)?b:2"]),
    ],
    cap: 12,
    budget: (300_000, 3_000_000),
  },
  Family {
    name: "expr",
    kind: "sfn",
    pre: "let a=f(1),b=f(2),c;",
    post: "log(a,b,c);",
    rules: &[
      ("L", &["0:$S", "0:$S$L"]),
      ("S", &["a=$E;", "c=$E;", "log($E);", "if($E)$S", "b=a;", "a+=$E;", "c??=$E;", "a&&=$E;", "b||=$E;", "a++;"]),
      ("E", &[
        "1", "a", "b", "c", "f($E)", "($E)+($E)", "($E)-($E)", "($E)<($E)", "($E)===($E)", "($E)!==($E)", "($E)&&($E)",
        "($E)||($E)", "($E)??($E)", "($E)?($E):($E)", "!($E)", "-($E)", "typeof ($E)", "void ($E)", "(a=$E)", "(b=$E)", "a++", "--a", "b--",
        "(($E),($E))", "g()", "'s'", "null", "undefined", "true", "1.5", "($E)%($E)", "($E)>>>($E)", "~($E)", "+($E)", "c==null", "($E)!=null", "(a+=$E)", "(a||=$E)",
        "`x${$E}`",
      ]),
    ],
    cap: 9,
    budget: (300_000, 3_000_000),
  },
  Family {
    name: "object",
    kind: "sfn",
    pre: "let o=f({x:1,y:{x:2}}),p=o.y,a=[1,2],k='x';",
    post: "log(o,p,a,k);",
    rules: &[
      ("L", &["0:$S", "0:$S$L"]),
      ("S", &[
        "$T=$E;", "$T+=$E;", "$T++;", "log($E);", "delete $T;", "if($E)$S", "p=o;", "h(o);", "$T??=$E;", "for(let i=0;i<2;i++)$S", "({x:k}=$O);", "let{x,...r}=$O;log(x,r);", "[k,p]=[p,k];",
      ]),
      ("O", &["o", "p", "a", "f(o)"]),
      ("T", &["o.x", "p.x", "o[k]", "a[0]", "f(o).x", "o.y.x", "k"]),
      ("E", &["0:$T", "1", "$O", "o?.x", "p?.[k]", "o.z?.x", "log.name", "o.x+$E", "{v:$T}.v", "({x:$T,...p})", "[$E,...a]", "[,$E]", "'x' in o", "o instanceof f", "delete $T", "m(o)", "($T=$E)", "$T--", "new n($E)", "o.w?.($E)", "o.g(1)"]),
    ],
    cap: 8,
    budget: (40_000, 400_000),
  },
  Family {
    name: "global",
    kind: "script",
    pre: "var a=f(1);let b=f(2);z=3;",
    post: "log(a,b,z,typeof q);",
    rules: &[
      ("L", &["0:$S", "0:$S$L"]),
      ("S", &["a=$E;", "b=$E;", "z=$E;", "q=$E;", "log($E);", "{let b=$E;$L}", "{let c=$E;$L log(c)}", "for(var a=0;a<2;a++){$L}", "for(let a=0;a<2;a++){$L}", "if($E){var q=$E;$L}", "for(const c of [a,b]){$L}", "for(var y in {s:1,t:2}){$L log(y)}", "throw $E;", "try{$L}catch(e){$L}", "try{$L}finally{$L}"]),
      ("E", &["a", "b", "z", "f($E)", "a+$E", "typeof q", "typeof a", "g()", "globalThis.a", "z++", "this.a", "undefined", "NaN", "Math.max(1,2)", "Infinity"]),
    ],
    cap: 9,
    budget: (40_000, 400_000),
  },
];

fn options() -> Vec<(&'static str, DecompileOptions)> {
  let mk = |t, r| DecompileOptions { temp_decl_style: t, declare_registers: r, emit_foreign_bindings: true };
  vec![("auto", mk(TempDeclStyle::Auto, true)), ("inline", mk(TempDeclStyle::Auto, false)), ("var", mk(TempDeclStyle::Var, true)), ("let", mk(TempDeclStyle::LetWithVoidInit, true))]
}

fn outputs(ck: &Check, src: &str, kind: &str) -> Vec<(String, String)> {
  let mode = if kind == "sfn" { TopLevelMode::Module } else { TopLevelMode::Global };
  let r = guard(src, || {
    let p = match compile_source(src, mode, false) {
      Ok(p) => p,
      Err(e) => return Err(format!("{} {}", e[0].code, e[0].message)),
    };
    let mut outs: Vec<(String, String)> = vec![];
    for (n, o) in options() {
      match program_to_js(&p, &o, Default::default()) {
        Ok(b) => outs.push((n.into(), String::from_utf8(b).map_err(|e| e.to_string())?)),
        Err(e) => return Err(format!("decompile {e:?}")),
      }
    }
    Ok(outs)
  });
  match r {
    Err(p) => {
      ck.violation(src, p);
      vec![]
    }
    Ok(Err(e)) => {
      ck.count(&format!("refused: {}", e.split(|c: char| c.is_ascii_digit() || c == '{' || c == '(').next().unwrap_or("").trim()), 1);
      if std::env::var_os("MC_REFUSED").is_some() {
        println!("{src}\n   {e}");
      }
      vec![]
    }
    Ok(Ok(mut o)) => {
      let mut seen: Vec<String> = vec![];
      o.retain(|x| !seen.contains(&x.1) && { seen.push(x.1.clone()); true });
      o
    }
  }
}

pub fn run() {
  mccore::main("C13", "model_checking", |ck| {
    ck.assume("V8 executes ECMAScript correctly");
    if let Some(k) = ck.replay() {
      for kind in ["sfn", "script"] {
        let mut w = NodeWorker::new("run.js");
        let outs = outputs(ck, k, kind);
        let progs: Vec<Value> = std::iter::once(k.to_string()).chain(outs.iter().map(|o| o.1.clone())).map(|s| json!({"src": s, "kind": kind, "loop": true})).collect();
        println!("{kind}: {outs:#?}\n{}", w.call(&json!({ "progs": progs })));
      }
      return;
    }
    let tmo: Option<u32> = std::env::var("MC_TMO").ok().map(|t| t.parse().unwrap());
    let only = std::env::var("MC_FAMILY").ok();
    for f in FAMILIES {
      if only.as_deref().map_or(false, |o| o != f.name) {
        continue;
      }
      let sp = Grammar::new(f.rules).space("L", f.cap, std::env::var("MC_BUDGET").ok().map_or(ck.pick(f.budget.0, f.budget.1), |b| b.parse().unwrap()));
      ck.note(&format!("family {}", f.name), json!({"bound": sp.bound, "programs": sp.len()}));
      ck.par_batches(sp.len(), 64, || NodeWorker::new("run.js"), |w, r| {
        let mut progs = vec![];
        let mut meta = vec![];
        for i in r {
          ck.states(1);
          let src = format!("{}{}{}", f.pre, sp.get(i), f.post);
          let outs = outputs(ck, &src, f.kind);
          if !outs.is_empty() {
            progs.push(json!({"src": src, "kind": f.kind, "loop": true, "tmo": 300}));
            meta.push((src, outs));
          }
        }
        let run = |w: &mut NodeWorker, progs: &[Value]| -> Vec<String> {
          if progs.is_empty() {
            return vec![];
          }
          let rep = w.call(&json!({ "progs": progs }));
          rep["obs"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
        };
        let wants = run(w, &progs);
        let mut progs = vec![];
        for ((_, outs), want) in meta.iter_mut().zip(&wants) {
          ck.outcome(want);
          if want.ends_with("TIMEOUT") || want.ends_with("throw SyntaxError ") {
            // Endless or invalid programs are outside the domain.
            outs.clear();
          }
          progs.extend(outs.iter().map(|o| json!({"src": o.1, "kind": f.kind, "loop": true, "tmo": tmo})));
        }
        let mut obs = run(w, &progs).into_iter();
        for ((src, outs), want) in meta.into_iter().zip(wants) {
          for (name, o) in outs {
            let got = obs.next().unwrap();
            ck.transitions(1);
            ck.traces(1);
            if got != want {
              ck.violation(src.clone(), format!("{name}: became {o:?}: expected {want} but got {got}"));
            }
          }
        }
      });
    }
  });
}
