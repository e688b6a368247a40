//! C35: whatever the optimiser evaluates at compile time is what JavaScript computes.
use mccore::{guard, Check, NodeWorker};
use num_bigint::BigInt;
use optimize_js::eval::consteval::*;
use optimize_js::il::inst::{BinOp, Const, UnOp};
use parse_js::num::JsNumber;
use serde_json::{json, Value};

fn lit(s: &str) -> String {
  let mut o = String::from("\"");
  for u in s.encode_utf16() {
    o += &format!("\\u{u:04x}");
  }
  o + "\""
}

/// Constants with their JavaScript spelling.
fn values(quick: bool) -> Vec<(String, Const)> {
  let mut v = vec![
    ("undefined".to_string(), Const::Undefined),
    ("null".into(), Const::Null),
    ("true".into(), Const::Bool(true)),
    ("false".into(), Const::Bool(false)),
  ];
  let nums = [
    0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.49999999999999994, 1.5, -1.5, 2.5, -2.5, 2.0, 3.0, -3.0, 10.0, 31.0, 32.0, 33.0, -31.0,
    2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0, 4294967297.5, 9007199254740991.0,
    9007199254740992.0, 4503599627370497.5, -4503599627370497.5, 18446744073709551616.0, 1e20, 1e21, 1.5e300, -1e-7, 1e-6,
    123456789.125, 5e-324, 1.7976931348623157e308, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.1, 0.3, 100.0,
  ];
  for n in nums {
    let text = if n.is_nan() {
      "NaN".into()
    } else if n.is_infinite() {
      format!("({}Infinity)", if n < 0.0 { "-" } else { "" })
    } else {
      format!("({}{:e})", if n.is_sign_negative() { "-" } else { "" }, n.abs())
    };
    v.push((text, Const::Num(JsNumber(n))));
  }
  let strs = [
    "", " ", "\n", "a", "b", "ab", "A", "1", "-1", "+1", "--1", "+-1", "- 1", " 12 ", "1 2", "0x10", "0X1f", "0b11", "0o17", "-0x1", "+0b1", "0x", "0xg",
    "0b2", "1e3", "1E-3", "1e+2", "1e", "e1", "1e3.5", "1e400", "-1e-400", ".5", "5.", ".", "-.5", "+.e1", "Infinity", "-Infinity", "+Infinity",
    "infinity", "inf", "INF", "nan", "NaN", "1_0", "\u{feff}1", "\u{85}1", "\u{a0}1\u{2029}", "\u{180e}1", "\u{b}1", "00", "010", "-0", "1n", "0n", "9007199254740993",
    "0x20000000000001", "18446744073709551617", "1.0", "1f", "é", "\u{ffff}", "\u{1f600}", "\u{e000}", "true", "null", "\u{661}",
  ];
  for s in strs {
    v.push((lit(s), Const::Str(s.into())));
  }
  for n in ["0", "1", "-1", "2", "10", "31", "4294967296", "9007199254740992", "9007199254740993", "-9007199254740993", "18446744073709551616", "18446744073709551617"] {
    v.push((format!("({n}n)"), Const::BigInt(n.parse::<BigInt>().unwrap())));
  }
  for d in if quick { vec![] } else { vec![308usize, 309, 400] } {
    let n = "9".repeat(d);
    v.push((format!("({n}n)"), Const::BigInt(n.parse::<BigInt>().unwrap())));
    v.push((lit(&n), Const::Str(n)));
  }
  v
}

fn text(c: &Const) -> String {
  match c {
    Const::BigInt(n) => format!("{n}n"),
    Const::Bool(b) => b.to_string(),
    Const::Null => "null".into(),
    Const::Undefined => "undefined".into(),
    Const::Num(n) => format!("num {:016x}", if n.0.is_nan() { f64::NAN } else { n.0 }.to_bits()),
    Const::Str(s) => format!("str {}", lit(s)),
  }
}

const BIN: &[(BinOp, &str)] = &[
  (BinOp::Add, "+"), (BinOp::Sub, "-"), (BinOp::Mul, "*"), (BinOp::Div, "/"), (BinOp::Mod, "%"), (BinOp::Exp, "**"),
  (BinOp::BitAnd, "&"), (BinOp::BitOr, "|"), (BinOp::BitXor, "^"), (BinOp::Shl, "<<"), (BinOp::Shr, ">>"), (BinOp::UShr, ">>>"),
  (BinOp::Lt, "<"), (BinOp::Leq, "<="), (BinOp::Gt, ">"), (BinOp::Geq, ">="),
  (BinOp::LooseEq, "=="), (BinOp::NotLooseEq, "!="), (BinOp::StrictEq, "==="), (BinOp::NotStrictEq, "!=="), (BinOp::GetProp, "."),
];
const UN: &[(UnOp, &str)] =
  &[(UnOp::BitNot, "~"), (UnOp::Neg, "-"), (UnOp::Not, "!"), (UnOp::Plus, "+"), (UnOp::Typeof, "typeof"), (UnOp::Void, "void")];
/// Exactly specified functions; the others are implementation-approximated.
const EXACT: &[&str] = &["Math.abs", "Math.ceil", "Math.floor", "Math.round", "Math.sqrt", "Math.trunc", "Number", "String", "Boolean", "Math.sign", "Math.fround", "Math.clz32", "isNaN", "isFinite", "parseInt", "parseFloat", "Number.isInteger", "Number.isNaN", "Number.isFinite", "Number.isSafeInteger", "Math.max", "Math.min", "BigInt"];
const LOOSE: &[&str] = &["Math.acos", "Math.asin", "Math.atan", "Math.cos", "Math.log", "Math.log10", "Math.log1p", "Math.log2", "Math.sin", "Math.tan", "Math.exp", "Math.expm1", "Math.sinh", "Math.cosh", "Math.tanh", "Math.asinh", "Math.acosh", "Math.atanh", "Math.cbrt"];
const PATHS: &[&str] = &["Math.E", "Math.PI", "Math.LN2", "Math.LN10", "Math.SQRT2", "NaN", "Infinity", "undefined", "Number.EPSILON", "Number.MAX_SAFE_INTEGER", "Number.MIN_SAFE_INTEGER", "Number.MAX_VALUE", "Number.MIN_VALUE", "Number.NaN", "Number.NEGATIVE_INFINITY", "Number.POSITIVE_INFINITY"];

fn approx(a: &str, b: &str) -> bool {
  let f = |s: &str| s.strip_prefix("num ").and_then(|h| u64::from_str_radix(h, 16).ok()).map(f64::from_bits);
  match (f(a), f(b)) {
    (Some(a), Some(b)) => a == b || (a.is_finite() && b.is_finite() && (a - b).abs() <= 4.0 * f64::EPSILON * a.abs().max(f64::MIN_POSITIVE)),
    _ => false,
  }
}

/// (JavaScript source, loose comparison allowed, evaluation)
struct Case<'a> {
  js: String,
  loose: bool,
  fold: Box<dyn Fn() -> Option<Const> + 'a>,
}

pub fn run() {
  mccore::main("C35", "model_checking", |ck| {
    ck.assume("V8 computes what ECMAScript specifies; transcendental functions and ** may differ in the last bits");
    let vals = values(ck.quick());
    let vals = &vals;
    let n = vals.len() as u64;
    let rows: u64 = (BIN.len() as u64) * n + 2;
    ck.par_batches(rows, 8, || NodeWorker::new("consts.js"), |w, r| {
      let mut cases: Vec<Case> = vec![];
      for row in r {
        if row < BIN.len() as u64 * n {
          let (op, sym) = BIN[(row / n) as usize];
          let (ta, a) = &vals[(row % n) as usize];
          for (tb, b) in vals {
            let js = if op == BinOp::GetProp { format!("({ta})[{tb}]") } else { format!("({ta}) {sym} ({tb})") };
            cases.push(Case { js, loose: op == BinOp::Exp, fold: Box::new(move || maybe_eval_const_bin_expr(op, a, b)) });
          }
        } else if row == BIN.len() as u64 * n {
          for (ta, a) in vals {
            for &(op, sym) in UN {
              cases.push(Case { js: format!("{sym} ({ta})"), loose: false, fold: Box::new(move || maybe_eval_const_un_expr(op, a)) });
            }
            cases.push(Case { js: format!("!!({ta})"), loose: false, fold: Box::new(move || Some(Const::Bool(coerce_to_bool(a)))) });
          }
        } else {
          for f in EXACT.iter().chain(LOOSE) {
            let loose = LOOSE.contains(f);
            cases.push(Case { js: format!("{f}()"), loose, fold: Box::new(move || maybe_eval_const_builtin_call(f, &[])) });
            for (ta, a) in vals {
              cases.push(Case { js: format!("{f}({ta})"), loose, fold: Box::new(move || maybe_eval_const_builtin_call(f, &[a.clone()])) });
            }
            for (ta, a) in vals.iter().step_by(3) {
              for (tb, b) in vals.iter().step_by(3) {
                cases.push(Case { js: format!("{f}({ta},{tb})"), loose, fold: Box::new(move || maybe_eval_const_builtin_call(f, &[a.clone(), b.clone()])) });
              }
            }
          }
          for p in PATHS {
            cases.push(Case { js: p.to_string(), loose: false, fold: Box::new(move || maybe_eval_const_builtin_val(p)) });
          }
        }
      }
      let src: Vec<&str> = cases.iter().map(|c| c.js.as_str()).collect();
      let rep: Value = w.call(&json!({ "src": src }));
      for (c, want) in cases.iter().zip(rep["obs"].as_array().unwrap()) {
        let want = want.as_str().unwrap();
        check(ck, c, want);
      }
    });
  })
}

fn check(ck: &Check, c: &Case, want: &str) {
  ck.states(1);
  match guard(&c.js, || (c.fold)()) {
    Err(p) => ck.violation(c.js.clone(), p),
    Ok(None) => {}
    Ok(Some(v)) => {
      ck.transitions(1);
      ck.traces(1);
      let got = text(&v);
      ck.outcome(&got);
      if got != want && !(c.loose && approx(&got, want)) {
        ck.violation(c.js.clone(), format!("folded to {v:?} ({got}), JavaScript computes {want}"));
      }
    }
  }
}
