//! C15: SSA construction, every optimisation pass in every order, and SSA deconstruction, on every
//! small IL program, keep what the program observably does.
use crate::graphs::*;
use ahash::{HashMap, HashSet};
use mccore::{guard, Check};
use optimize_js::analysis::defs::calculate_defs;
use optimize_js::cfg::cfg::{Cfg, CfgBBlocks, CfgGraph};
use optimize_js::dom::Dom;
use optimize_js::il::inst::{Arg, BinOp, Const, Inst, InstTyp, UnOp};
use optimize_js::opt::{
  optpass_cfg_prune::optpass_cfg_prune, optpass_dvn::optpass_dvn,
  optpass_impossible_branches::optpass_impossible_branches, optpass_redundant_assigns::optpass_redundant_assigns,
  optpass_trivial_dce::optpass_trivial_dce, PassResult,
};
use optimize_js::ssa::{
  phi_simplify::validate_phis, ssa_deconstruct::deconstruct_ssa, ssa_insert_phis::insert_phis_for_ssa_construction,
  ssa_rename::rename_targets_for_ssa_construction,
};
use optimize_js::util::counter::Counter;
use parse_js::num::JsNumber;

pub fn copy(c: &Cfg) -> Cfg {
  let mut bblocks = CfgBBlocks::default();
  for (l, b) in c.bblocks.all() {
    bblocks.add(l, b.clone());
  }
  Cfg { graph: CfgGraph::from_graph(c.graph.clone_graph()), bblocks, entry: c.entry }
}

pub fn num(n: f64) -> Arg {
  Arg::Const(Const::Num(JsNumber(n)))
}
pub fn undef() -> Arg {
  Arg::Const(Const::Undefined)
}

/// Canonical text of a CFG.
pub fn text(c: &Cfg) -> String {
  let mut ls: Vec<u32> = c.bblocks.all().map(|(l, _)| l).collect();
  ls.sort();
  let mut s = format!("entry {}\n", c.entry);
  for l in ls {
    s += &format!("{l}: -> {:?}\n", c.graph.children_sorted(l));
    for i in c.bblocks.get(l) {
      s += "  ";
      s += &line(i);
      s += "\n";
    }
  }
  s
}
fn line(i: &Inst) -> String {
  let t = i.tgts.first().map(|t| format!("%{t} = ")).unwrap_or_default();
  match i.t {
    InstTyp::Bin => format!("{t}{:?} {:?} {:?}", i.args[0], i.bin_op, i.args[1]),
    InstTyp::Un => format!("{t}{:?} {:?}", i.un_op, i.args[0]),
    InstTyp::Phi => format!("{t}phi {:?} {:?}", i.labels, i.args),
    InstTyp::CondGoto => format!("if {:?} {:?}", i.args[0], i.labels),
    _ => format!("{t}{:?} {:?}", i.t, i.args),
  }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Val {
  Undef,
  Bool(bool),
  Num(f64),
}
impl Val {
  fn key(self) -> u64 {
    match self {
      Val::Undef => 1,
      Val::Bool(b) => 2 + b as u64,
      Val::Num(n) => (if n.is_nan() { f64::NAN } else { n }).to_bits() ^ 0x55,
    }
  }
  fn num(self) -> f64 {
    match self {
      Val::Undef => f64::NAN,
      Val::Bool(b) => b as u8 as f64,
      Val::Num(n) => n,
    }
  }
  fn truthy(self) -> bool {
    match self {
      Val::Undef => false,
      Val::Bool(b) => b,
      Val::Num(n) => n != 0.0 && !n.is_nan(),
    }
  }
}

/// How a run ended.
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
  Stop,
  /// The oracle string is used up, or the event limit is reached.
  Cut,
  /// The step limit: nothing observable for a long time.
  Spin,
}

struct Interp {
  env: HashMap<u32, Val>,
}

impl Interp {
  fn arg(&self, a: &Arg) -> Val {
    match a {
      Arg::Const(Const::Num(n)) => Val::Num(n.0),
      Arg::Const(Const::Bool(b)) => Val::Bool(*b),
      Arg::Const(Const::Undefined) => Val::Undef,
      Arg::Var(v) => self.env.get(v).copied().unwrap_or(Val::Undef),
      a => panic!("value {a:?}"),
    }
  }

  /// Observable events: every call with its arguments. Call results come from `oracle`.
  fn run(c: &Cfg, oracle: &[Val]) -> Result<(Vec<u64>, End), String> {
    let mut m = Interp { env: HashMap::default() };
    let mut ev = vec![];
    let mut calls = 0;
    let (mut at, mut from) = (c.entry, None::<u32>);
    for _step in 0..200 {
      let b = c.bblocks.maybe_get(at).ok_or_else(|| format!("jump to missing block {at}"))?;
      // Phi instructions read their operands together, before any is assigned.
      let mut sets = vec![];
      for i in b.iter().take_while(|i| i.t == InstTyp::Phi) {
        let k = i.labels.iter().position(|l| Some(*l) == from);
        let k = k.ok_or_else(|| format!("phi of block {at} has no operand for {from:?}"))?;
        sets.push((i.tgts[0], m.arg(&i.args[k])));
      }
      let phis = sets.len();
      m.env.extend(sets);
      let mut next = None;
      for i in &b[phis..] {
        let a = |k: usize| m.arg(&i.args[k]);
        let v = match &i.t {
          InstTyp::VarAssign => a(0),
          InstTyp::Bin => {
            let (x, y) = (a(0), a(1));
            match i.bin_op {
              BinOp::Add => Val::Num(x.num() + y.num()),
              BinOp::Sub => Val::Num(x.num() - y.num()),
              BinOp::Lt => Val::Bool(x.num() < y.num()),
              BinOp::StrictEq => Val::Bool(x == y),
              o => panic!("operator {o:?}"),
            }
          }
          InstTyp::Un => match i.un_op {
            UnOp::Not => Val::Bool(!a(0).truthy()),
            UnOp::Neg => Val::Num(-a(0).num()),
            UnOp::Plus => Val::Num(a(0).num()),
            o => panic!("operator {o:?}"),
          },
          InstTyp::Call => {
            let mut h = 0xcbf29ce484222325u64;
            let mut add = |x: u64| h = (h ^ x).wrapping_mul(0x100000001b3).rotate_left(29);
            add(match &i.args[0] {
              Arg::Builtin(n) => mccore::fnv(n.as_bytes()),
              a => m.arg(a).key(),
            });
            for k in 1..i.args.len() {
              add(m.arg(&i.args[k]).key());
            }
            ev.push(h);
            if calls >= oracle.len() {
              return Ok((ev, End::Cut));
            }
            calls += 1;
            oracle[calls - 1]
          }
          InstTyp::CondGoto => {
            next = Some(if a(0).truthy() { i.labels[0] } else { i.labels[1] });
            break;
          }
          t => return Err(format!("unexpected {t:?} in block {at}")),
        };
        if let Some(t) = i.tgts.first() {
          m.env.insert(*t, v);
        }
      }
      let kids = c.graph.children_sorted(at);
      let to = match next {
        Some(n) if kids.contains(&n) => n,
        Some(n) => return Err(format!("block {at} jumps to {n} without an edge ({kids:?})")),
        None => match kids[..] {
          [] => return Ok((ev, End::Stop)),
          [n] => n,
          _ => return Err(format!("block {at} has successors {kids:?} but no branch")),
        },
      };
      from = Some(at);
      at = to;
    }
    Ok((ev, End::Spin))
  }
}

/// Block menus. Variables 1 and 2; `f` returns an oracle value, `g` is given values.
fn call(t: Option<u32>, name: &str, a: Vec<Arg>) -> Inst {
  Inst::call(t, Arg::Builtin(name.into()), undef(), a, vec![])
}
pub const MENU: usize = 12;
pub fn menu(k: usize) -> Vec<Inst> {
  let (x, y) = (Arg::Var(1), Arg::Var(2));
  match k {
    0 => vec![],
    1 => vec![call(None, "g", vec![x, y])],
    2 => vec![Inst::var_assign(1, num(1.0))],
    3 => vec![Inst::var_assign(2, x)],
    4 => vec![Inst::var_assign(1, y)],
    5 => vec![call(Some(1), "f", vec![])],
    6 => vec![Inst::bin(1, x, BinOp::Add, num(1.0))],
    7 => vec![Inst::var_assign(3, x.clone()), Inst::var_assign(1, y), Inst::var_assign(2, Arg::Var(3))],
    8 => vec![Inst::bin(2, x.clone(), BinOp::Add, y.clone()), call(None, "g", vec![Arg::Var(2)]), Inst::bin(1, x, BinOp::Add, y)],
    9 => vec![call(Some(2), "f", vec![]), call(None, "g", vec![x, y])],
    10 => vec![Inst::un(1, UnOp::Not, x)],
    _ => vec![Inst::var_assign(1, num(0.0)), call(Some(2), "f", vec![])],
  }
}
/// Branch conditions.
pub const CONDS: usize = 4;
fn cond(k: usize) -> (Vec<Inst>, Arg) {
  match k {
    0 => (vec![], Arg::Var(1)),
    1 => (vec![call(Some(4), "c", vec![])], Arg::Var(4)),
    2 => (vec![Inst::bin(4, Arg::Var(1), BinOp::Lt, num(2.0))], Arg::Var(4)),
    _ => (vec![], Arg::Var(2)),
  }
}

/// The program: graph, block pick, condition pick.
pub fn program(s: &Succ, picks: &[usize], conds: &[usize]) -> Cfg {
  let arg = |b: u32| cond(conds[b as usize]).1;
  build(
    s,
    |b| {
      let mut v = menu(picks[b as usize]);
      match s[b as usize].len() {
        2 => v.extend(cond(conds[b as usize]).0),
        0 if picks[b as usize] != 0 => v.push(call(None, "end", vec![Arg::Var(1), Arg::Var(2)])),
        _ => {}
      }
      v
    },
    arg,
  )
}

pub const PASSES: [(&str, fn(&mut Cfg) -> PassResult); 5] = [
  ("dvn", |c| {
    let d = Dom::calculate(c);
    optpass_dvn(c, &d)
  }),
  ("dce", |c| optpass_trivial_dce(c)),
  ("redundant_assigns", |c| optpass_redundant_assigns(c)),
  ("impossible_branches", |c| optpass_impossible_branches(c)),
  ("cfg_prune", |c| optpass_cfg_prune(c)),
];

struct Runs {
  oracles: Vec<Vec<Val>>,
}
impl Runs {
  fn new(len: usize) -> Runs {
    let vals = [Val::Num(0.0), Val::Num(1.0)];
    let oracles = (0..1usize << len).map(|m| (0..len).map(|i| vals[m >> i & 1]).collect()).collect();
    Runs { oracles }
  }
  fn behaviour(&self, c: &Cfg) -> Result<Vec<(Vec<u64>, End)>, String> {
    self.oracles.iter().map(|o| Interp::run(c, o)).collect()
  }
}

fn differ(a: &[(Vec<u64>, End)], b: &[(Vec<u64>, End)]) -> Option<String> {
  for (i, ((ea, xa), (eb, xb))) in a.iter().zip(b).enumerate() {
    let ok = match (xa, xb) {
      (End::Spin, End::Spin) => {
        let n = ea.len().min(eb.len());
        ea[..n] == eb[..n]
      }
      (End::Spin, _) => false,
      (_, End::Spin) => false,
      _ => xa == xb && ea == eb,
    };
    if !ok {
      return Some(format!("oracle {i}: {} events then {xa:?}, afterwards {} events then {xb:?}", ea.len(), eb.len()));
    }
  }
  None
}

fn max_var(c: &Cfg) -> u32 {
  c.bblocks.all().flat_map(|(_, b)| b).flat_map(|i| i.tgts.iter().copied()).max().unwrap_or(0)
}

/// Assignments are unique and each use is dominated by its definition (or never defined).
fn ssa_form(c: &Cfg) -> Result<(), String> {
  validate_phis(c).map_err(|e| e.to_string())?;
  let dom: Dom = Dom::calculate(c);
  let dg = dom.dominates_graph();
  let mut def: HashMap<u32, (u32, usize)> = HashMap::default();
  for (l, b) in c.bblocks.all() {
    for (k, i) in b.iter().enumerate() {
      for &t in &i.tgts {
        if def.insert(t, (l, k)).is_some() {
          return Err(format!("%{t} is assigned twice"));
        }
      }
    }
  }
  for (l, b) in c.bblocks.all() {
    for (k, i) in b.iter().enumerate() {
      let mut preds = c.graph.parents_sorted(l);
      preds.dedup();
      if i.t == InstTyp::Phi && i.labels != preds {
        return Err(format!("phi of block {l} has operands for {:?}, predecessors are {preds:?}", i.labels));
      }
      for (n, a) in i.args.iter().enumerate() {
        let Arg::Var(v) = a else { continue };
        let Some(&(dl, dk)) = def.get(v) else { continue };
        let ok = if i.t == InstTyp::Phi {
          dg.dominates(dl, i.labels[n])
        } else {
          (dl == l && dk < k) || (dl != l && dg.dominates(dl, l))
        };
        if !ok {
          return Err(format!("%{v} is used in block {l} but defined in block {dl}, which does not dominate it"));
        }
      }
      if i.t == InstTyp::CondGoto && k + 1 != b.len() {
        return Err(format!("branch in the middle of block {l}"));
      }
    }
    if let Some(i) = b.last().filter(|i| i.t == InstTyp::CondGoto) {
      let mut w = i.labels.clone();
      w.sort();
      w.dedup();
      if w != c.graph.children_sorted(l) {
        return Err(format!("branch of block {l} goes to {w:?}, successors are {:?}", c.graph.children_sorted(l)));
      }
    } else if c.graph.children_sorted(l).len() > 1 {
      return Err(format!("block {l} has several successors and no branch"));
    }
  }
  Ok(())
}

fn check_one(ck: &Check, runs: &Runs, key: &str, base: Cfg, depth: usize) {
  let n = base.bblocks.all().count() as u32;
  let before = match runs.behaviour(&base) {
    Ok(b) => b,
    Err(e) => panic!("bad program {key}: {e}"),
  };
  ck.traces(before.len() as u64);
  let stage = std::cell::RefCell::new(String::from("ssa"));
  let res = guard(key, || -> Result<(), String> {
    let mut cfg = copy(&base);
    let mut defs = calculate_defs(&cfg);
    let dom = Dom::calculate(&cfg);
    insert_phis_for_ssa_construction(&mut defs, &mut cfg, &dom);
    let mut c_temp = Counter::new(10);
    rename_targets_for_ssa_construction(&mut cfg, &dom, &mut c_temp);
    // Every state the passes can reach, in any order.
    let mut seen: HashSet<String> = HashSet::default();
    let mut todo = vec![(cfg, 0usize, String::from("ssa"))];
    while let Some((c, d, how)) = todo.pop() {
      *stage.borrow_mut() = how.clone();
      ck.states(1);
      ssa_form(&c)?;
      let now = runs.behaviour(&c)?;
      ck.traces(now.len() as u64);
      if let Some(e) = differ(&before, &now) {
        return Err(e);
      }
      // Deconstruct from here.
      *stage.borrow_mut() = format!("{how} deconstruct");
      let mut out = copy(&c);
      let mut c_label = Counter::new(n + 100);
      deconstruct_ssa(&mut out, &mut c_label);
      if out.bblocks.all().any(|(_, b)| b.iter().any(|i| i.t == InstTyp::Phi)) {
        return Err("a phi is left".into());
      }
      let now = runs.behaviour(&out)?;
      ck.traces(now.len() as u64);
      if let Some(e) = differ(&before, &now) {
        return Err(e);
      }
      if d == depth {
        continue;
      }
      let was = text(&c);
      for (name, pass) in PASSES {
        *stage.borrow_mut() = format!("{how} {name}");
        let mut x = copy(&c);
        let r = pass(&mut x);
        ck.transitions(1);
        let t = text(&x);
        if (t != was) && !r.any_change() {
          return Err("the pass changed the program but reports no change".into());
        }
        if t != was && seen.insert(t) {
          todo.push((x, d + 1, format!("{how} {name}")));
        }
      }
    }
    let _ = max_var;
    Ok(())
  });
  let err = match res {
    Ok(Ok(())) => return,
    Ok(Err(e)) => e,
    Err(p) => format!("panic: {p}"),
  };
  let st = stage.borrow();
  let last = st.rsplit(' ').next().unwrap();
  ck.violation(format!("{last} {key}"), format!("after [{st}]: {err}\n{}", text(&base)));
}

pub fn run() {
  mccore::main("C15", "model_checking", |ck| {
    ck.assume("call results range over two numbers; runs are compared up to a bounded number of calls and 200 blocks");
    let (short, long) = (Runs::new(ck.pick(3, 5)), Runs::new(ck.pick(4, 5)));
    let depth = ck.pick(6, 8);
    fn extend(s: &mut Succ, n: usize, next: u32, opts: &[Vec<u32>], all: &mut Vec<Succ>) {
      if s.len() == n {
        if next as usize == n {
          all.push(s.clone());
        }
        return;
      }
      if s.len() as u32 >= next {
        return;
      }
      for o in opts {
        let mut nx = next;
        if o.iter().all(|&c| {
          if c == nx {
            nx += 1;
          }
          c != 0 && c < nx
        }) {
          s.push(o.clone());
          extend(s, n, nx, opts, all);
          s.pop();
        }
      }
    }
    for n in 1..=4usize {
      let mut gs = vec![];
      extend(&mut vec![], n, 1, &options(n as u32, n <= 3 || !ck.quick()), &mut gs);
      ck.count(&format!("graphs of {n} blocks"), gs.len() as u64);
      // Blocks and conditions: the full product up to three blocks, then a reduced menu.
      let small: Vec<usize> = match (n, ck.quick()) {
        (1 | 2, _) => (0..MENU).collect(),
        (3, true) => vec![0, 1, 2, 3, 7],
        (3, false) => vec![0, 1, 2, 3, 6, 7, 8, 11],
        (_, true) => vec![0, 1, 2],
        (_, false) => vec![0, 1, 2, 7],
      };
      let conds: usize = if n <= 2 { CONDS } else { 2 };
      for s in &gs {
        let branches: Vec<usize> = (0..n).filter(|&b| s[b].len() == 2).collect();
        let per = (small.len() as u64).pow(n as u32);
        let cper = (conds as u64).pow(branches.len() as u32);
        ck.par(per * cper, || (), |_, i| {
          let mut k = i % per;
          let picks: Vec<usize> = (0..n)
            .map(|_| {
              let p = small[(k % small.len() as u64) as usize];
              k /= small.len() as u64;
              p
            })
            .collect();
          let mut k = i / per;
          let mut cs = vec![0; n];
          for &b in &branches {
            cs[b] = (k % conds as u64) as usize;
            k /= conds as u64;
          }
          let key = format!("{} {picks:?} {cs:?}", show(s));
          check_one(ck, if n >= 4 { &short } else { &long }, &key, program(s, &picks, &cs), depth);
        });
      }
    }
  })
}
