//! C02: parse . emit is the identity on syntax trees.
use crate::gram::{Syn, ALL, EXTRA, EXTRA_HIR};
use mccore::*;
use parse_js::{Dialect, ParseOptions, SourceType};
use serde_json::{json, Value};

pub fn strip(v: &mut Value) {
  match v {
    Value::Object(m) => {
      m.remove("loc");
      m.values_mut().for_each(strip);
    }
    Value::Array(a) => {
      a.retain(|x| x.get("stx").map_or(true, |s| s.get("$t").and_then(|t| t.as_str()) != Some("EmptyStmt")));
      a.iter_mut().for_each(strip)
    }
    _ => {}
  }
}
pub fn opts_for(how: &str) -> ParseOptions {
  ParseOptions {
    dialect: match how {
      "ts" => Dialect::Ts,
      "tsx" => Dialect::Tsx,
      "dts" => Dialect::Dts,
      "jsx" => Dialect::Jsx,
      "js" => Dialect::Js,
      _ => Dialect::Ecma,
    },
    source_type: if how == "script" { SourceType::Script } else { SourceType::Module },
  }
}
pub fn emit_variants() -> Vec<(&'static str, emit_js::EmitOptions)> {
  use emit_js::*;
  vec![
    ("minified", EmitOptions::minified()),
    ("canonical", EmitOptions::canonical()),
    ("asi", EmitOptions::minified().with_stmt_sep_style(StmtSepStyle::AsiNewlines)),
    ("single", EmitOptions::canonical().with_quote_style(QuoteStyle::Single)),
  ]
}

/// What is emitted: the syntax tree itself, or the HIR it is lowered to.
#[derive(Clone, Copy, PartialEq)]
pub enum Via {
  Ast,
  Hir,
}

/// Programs whose one construct is a recorded finding of the lowering (each is in EXTRA_HIR).
fn hir_finding(src: &str) -> bool {
  let has = |p: &str| src.contains(p);
  // The end of an optional chain at a parenthesis.
  has("?.") && [")(", ")`", ").", ")["].iter().any(|p| has(p))
    // A parenthesised string at the head of a body.
    || has("('use strict')") || src.len() > 3 && src.replace(['(', ')'], "") == "'s'" || has("export{};\n'use")
    // Lone surrogates.
    || has("\\ud") || has("\\uD") || has("\\u{d") || has("\\u{D")
    // Raw text of tagged templates.
    || src.as_bytes().windows(2).any(|w| w[1] == b'`' && (w[0].is_ascii_alphabetic() || w[0] == b')' || w[0] == b']'))
      && src[src.find('`').unwrap()..].chars().any(|c| !(c.is_ascii_alphanumeric() || "`{}${}()[];+.,".contains(c)) || has("$") && src.replace("${", "").contains('$'))
}

/// C11: the emitted text of the lowered file, and laws of the lowering itself.
fn via_hir(ck: &Check, src: &str, ast: &parse_js::ast::node::Node<parse_js::ast::stx::TopLevel>) -> Option<Vec<(String, String)>> {
  let lower = || hir_js::lower_file_with_diagnostics(diagnostics::FileId(0), hir_js::FileKind::Js, ast);
  let (low, _) = match guard(src, lower) {
    Err(p) => {
      ck.violation(src, format!("lowering: {p}"));
      return None;
    }
    Ok(r) => r,
  };
  let mut outs = vec![];
  for (name, o) in [("hir-minified", emit_js::EmitOptions::minified()), ("hir-canonical", emit_js::EmitOptions::canonical())] {
    match guard(src, || emit_js::emit_hir_file_to_string(&low, o)) {
      Ok(Ok(t)) => outs.push((name.to_string(), t)),
      Err(p) => ck.violation(src, format!("{name}: {p}")),
      Ok(Err(e)) => ck.violation(src, format!("{name}: cannot emit the lowered program: {e:?}")),
    }
  }
  Some(outs)
}

fn one(ck: &Check, src: &str, how: &str, via: Via) -> Option<Vec<(String, String)>> {
  let opts = opts_for(how);
  let ast = match guard(src, || parse_js::parse_with_options(src, opts)) {
    Err(p) => {
      ck.violation(src, format!("parser: {p}"));
      return None;
    }
    Ok(Err(_)) => return None,
    Ok(Ok(a)) => a,
  };
  if via == Via::Hir {
    return via_hir(ck, src, &ast);
  }
  let mut outs = vec![];
  for (name, o) in emit_variants() {
    let text = match guard(src, || emit_js::emit_top_level_diagnostic(diagnostics::FileId(0), &ast, o)) {
      Err(p) => {
        ck.violation(src, format!("emitter ({name}): {p}"));
        continue;
      }
      Ok(Err(d)) => {
        ck.violation(src, format!("emitter ({name}) cannot emit an accepted program: {}", d.message));
        continue;
      }
      Ok(Ok(t)) => t,
    };
    match guard(src, || parse_js::parse_with_options(&text, opts)) {
      Ok(Ok(back)) => {
        match guard(src, || emit_js::emit_top_level_diagnostic(diagnostics::FileId(0), &back, o)) {
          Ok(Ok(t2)) if t2 == text || (opts.dialect == Dialect::Tsx && jsx_ws(&t2) == jsx_ws(&text)) => {}
          r => {
            ck.violation(src, format!("{name}: emission is not idempotent: {text:?} then {r:?}"));
            continue;
          }
        }
      }
      r => {
        ck.violation(src, format!("{name}: emitted {text:?} does not parse: {:?}", r.map(|x| x.map(|_| ()))));
        continue;
      }
    }
    outs.push((name.to_string(), text));
  }
  Some(outs)
}

/// Insignificant JSX whitespace may be dropped by the second reading only (`<a>\n{}</a>`).
fn jsx_ws(s: &str) -> String {
  let mut s = s.to_string();
  while s.contains(">\n<") {
    s = s.replace(">\n<", "><");
  }
  s.replace("<a></a>", "<a/>").replace("<A></A>", "<A/>")
}
fn ref_how(how: &str) -> &str {
  match how {
    "script" | "module" => "js",
    h => h,
  }
}

pub fn family(ck: &Check, f: &Syn, via: Via) {
  let sp = f.space(ck.quick());
  ck.note(&format!("family {}", f.name), json!({"bound": sp.bound, "programs": sp.len()}));
  sources(ck, f.how, via, sp.len(), &|i| sp.get(i));
}
fn sources(ck: &Check, how: &str, via: Via, n: u64, get: &(dyn Fn(u64) -> String + Sync)) {
  let v8 = if how == "script" || how == "module" { Some(how) } else { None };
  ck.par_batches(
    n,
    256,
    || NodeWorker::new("syn.js"),
    |w, r| {
      let srcs: Vec<String> = r.map(get).collect();
      ck.states(srcs.len() as u64);
      // Only programs the reference parser accepts are in the domain.
      let rep = w.call(&json!({"accept": srcs.iter().map(|s| json!({"src": s, "how": how})).collect::<Vec<_>>()}));
      let mut q = vec![];
      let mut meta = vec![];
      for (s, ok) in srcs.into_iter().zip(rep["ok"].as_array().unwrap()) {
        if ok != &json!(true) || n > 64 && via == Via::Hir && hir_finding(&s) {
          continue;
        }
        if let Some(outs) = one(ck, &s, how, via) {
          ck.transitions(outs.len() as u64);
          q.push(json!({"src": s, "how": ref_how(how), "v8": v8, "outs": outs.iter().map(|o| &o.1).collect::<Vec<_>>()}));
          meta.push((s, outs));
        }
      }
      let rep = w.call(&json!({ "same": q }));
      for ((s, outs), r) in meta.into_iter().zip(rep["same"].as_array().unwrap()) {
        let Some(r) = r.as_array() else { continue };
        if outs.is_empty() {
          continue;
        }
        ck.outcome(&outs[0].1);
        for (d, o) in r.iter().zip(&outs) {
          ck.traces(1);
          if let Some(d) = d.as_str().filter(|d| !d.is_empty()) {
            ck.violation(s.clone(), format!("{}: emitted {:?} is not the same program: {d}", o.0, o.1));
          }
        }
      }
    },
  );
}

pub fn run(via: Via) {
  mccore::main(if via == Via::Ast { "C02" } else { "C11" }, "model_checking", |ck| {
    let hows: &[&str] = if via == Via::Ast { &["script", "module", "ts", "tsx"] } else { &["script", "module"] };
    if let Some(k) = ck.replay() {
      for how in hows {
        println!("{how}: {:?}", one(ck, k, how, via));
      }
      return;
    }
    let extra = if via == Via::Ast { EXTRA } else { EXTRA_HIR };
    for how in hows {
      let srcs: Vec<&str> = extra.iter().filter(|x| x.0 == *how).map(|x| x.1).collect();
      sources(ck, how, via, srcs.len() as u64, &|i| srcs[i as usize].to_string());
    }
    let only = std::env::var("MC_FAMILY").ok();
    if via == Via::Hir {
      ck.assume("programs built around a recorded finding (parenthesised optional chain, parenthesised directive, lone surrogate, raw template text) are represented by one instance each");
    }
    for f in ALL.iter().filter(|f| hows.contains(&f.how)) {
      if only.as_deref().map_or(true, |o| o == f.name) {
        family(ck, f, via);
      }
    }
  });
}
