//! C06: a minified program does what the original did.
use crate::progs::*;
use mccore::*;
use minify_js::{minify_with_options, MinifyOptions, TopLevelMode};
use parse_js::Dialect;
use serde_json::{json, Value};

/// Source text handed to the minifier for a body of `kind`.
pub fn wrap(kind: &str, body: &str) -> String {
  match kind {
    "fn" => format!("(function(log,f,g){{{body}\n}})"),
    "sfn" => format!("(function(log,f,g){{'use strict';{body}\n}})"),
    "async" => format!("(async function(log,f,g){{{body}\n}})"),
    "gen" => format!("(function*(log,f,g){{{body}\n}})"),
    _ => body.to_string(),
  }
}
fn mode(kind: &str) -> TopLevelMode {
  if kind == "module" {
    TopLevelMode::Module
  } else {
    TopLevelMode::Global
  }
}
pub fn run_kind(kind: &str) -> String {
  match kind {
    "module" | "script" => kind.to_string(),
    k => format!("raw-{k}"),
  }
}

/// The distinct outputs of the minifier (default dialect and strict ECMAScript), and again
/// applied to its own output.
fn outputs(ck: &Check, src: &str, kind: &str, key: &str, refused: &mut Vec<String>) -> Vec<(&'static str, String)> {
  let mut outs: Vec<(&'static str, String)> = vec![];
  let mut go = |name: &'static str, text: &str, d: Option<Dialect>| -> Option<String> {
    let mut o = MinifyOptions::new(mode(kind));
    o.dialect = d;
    let mut out = vec![];
    match guard(key, || minify_with_options(o, text, &mut out)) {
      Err(p) => {
        ck.violation(key, format!("{name}: {p}"));
        None
      }
      Ok(Err(e)) => {
        ck.count(&format!("rejected {}", e.first().map(|d| d.code.to_string()).unwrap_or_default()), 1);
        if !e.iter().all(|d| d.code.as_str() == "BIND0003") {
          refused.push(format!("{name}: {:?}", e.first().map(|d| (d.code.to_string(), &d.message))));
        }
        if name == "twice" {
          ck.violation(key, format!("the minifier rejects its own output {text:?}: {:?}", e.first().map(|d| &d.message)));
        }
        None
      }
      Ok(Ok(())) => match String::from_utf8(out) {
        Ok(t) => Some(t),
        Err(_) => {
          ck.violation(key, format!("{name}: output is not UTF-8"));
          None
        }
      },
    }
  };
  let a = go("ts", src, None);
  let b = go("ecma", src, Some(Dialect::Ecma));
  let t = a.as_ref().and_then(|a| go("twice", a, None));
  for (n, o) in [("ts", a), ("ecma", b), ("twice", t)] {
    if let Some(o) = o {
      if outs.iter().all(|x| x.1 != o) {
        outs.push((n, o));
      }
    }
  }
  outs
}

/// `**` on numbers is implementation-approximated: compare the last number loosely.
fn close(a: &str, b: &str) -> bool {
  let num = |s: &str| s.rsplit(' ').next().and_then(|x| x.parse::<f64>().ok());
  matches!((num(a), num(b)), (Some(x), Some(y)) if (x - y).abs() <= x.abs() * 1e-15)
}

fn sources(ck: &Check, kind: &str, looping: bool, tick: bool, n: u64, get: &(dyn Fn(u64) -> String + Sync)) {
  let rk = run_kind(kind);
  ck.par_batches(
    n,
    128,
    || NodeWorker::new("run.js"),
    |w, r| {
      let bodies: Vec<String> = r.map(get).collect();
      ck.states(bodies.len() as u64);
      let mut progs: Vec<Value> = vec![];
      let mut meta = vec![];
      for b in bodies {
        let src = wrap(kind, &b);
        let mut refused = vec![];
        let outs = outputs(ck, &src, kind, &b, &mut refused);
        if outs.is_empty() && refused.is_empty() {
          continue;
        }
        let p = |s: &str| json!({"src": s, "kind": rk, "loop": looping, "tick": tick});
        progs.push(p(&src));
        progs.extend(outs.iter().map(|o| p(&o.1)));
        meta.push((b, outs, refused));
      }
      let rep = w.call(&json!({ "progs": progs }));
      let mut obs = rep["obs"].as_array().unwrap().iter().map(|x| x.as_str().unwrap());
      for (b, outs, refused) in meta {
        let want = obs.next().unwrap();
        let valid = !want.ends_with("throw SyntaxError ");
        ck.outcome(want);
        if valid {
          for r in refused {
            ck.violation(b.clone(), format!("a valid program is refused: {r}"));
          }
        }
        for (name, o) in outs {
          let got = obs.next().unwrap();
          ck.transitions(1);
          // Only valid programs are in the domain; runaway ones have no behaviour to compare.
          if !valid || want.ends_with("TIMEOUT") || want.contains("RangeError") {
            continue;
          }
          ck.traces(1);
          if got != want && !(b.contains("**") && close(got, want)) {
            ck.violation(b.clone(), format!("{name}: minified to {o:?}: expected {want} but got {got}"));
          }
        }
      }
    },
  );
}

pub fn run() {
  mccore::main("C06", "model_checking", |ck| {
    if let Some(k) = ck.replay() {
      let mut kinds: Vec<&str> = FAMILIES.iter().map(|f| f.kind).collect();
      kinds.dedup();
      for kind in kinds {
        let mut w = NodeWorker::new("run.js");
        let src = wrap(kind, k);
        let outs = outputs(ck, &src, kind, k, &mut vec![]);
        let progs: Vec<Value> = std::iter::once(&src).chain(outs.iter().map(|o| &o.1)).map(|s| json!({"src": s, "kind": run_kind(kind), "loop": true, "tick": true})).collect();
        println!("{kind}: {outs:?}\n{}", w.call(&json!({ "progs": progs })));
      }
      return;
    }
    let only = std::env::var("MC_FAMILY").ok();
    for f in FAMILIES {
      if only.as_deref().map_or(true, |o| o == f.name) {
        let sp = f.space(ck.quick());
        ck.note(&format!("family {}", f.name), json!({"bound": sp.bound, "programs": sp.len()}));
        sources(ck, f.kind, f.looping, f.tick, sp.len(), &|i| sp.get(i));
      }
    }
    for kind in ["fn", "module", "script"] {
      let srcs: Vec<&str> = EXTRA.iter().filter(|x| x.0 == kind).map(|x| x.1).collect();
      sources(ck, kind, true, false, srcs.len() as u64, &|i| srcs[i as usize].to_string());
    }
  });
}
