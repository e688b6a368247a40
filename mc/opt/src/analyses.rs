//! C14: every control-flow analysis, on every small graph, against its definition by paths.
use crate::graphs::*;
use ahash::{HashMap, HashSet};
use mccore::{guard, Check};
use optimize_js::analysis::{
  dataflow::{AnalysisBoundary, DataFlowAnalysis, Direction},
  defs::calculate_defs,
  find_conds::find_conds,
  find_loops::find_loops,
  interference::calculate_interference_graph,
  liveness::calculate_live_ins,
  loop_info::LoopInfo,
  registers::allocate_registers,
  single_use_insts::analyse_single_use_defs,
};
use optimize_js::cfg::cfg::Cfg;
use optimize_js::dom::{Dom, PostDom};
use optimize_js::il::inst::{Arg, BinOp, Const, Inst};
use std::collections::{BTreeMap, BTreeSet};

fn one() -> Arg {
  Arg::Const(Const::Num(parse_js::num::JsNumber(1.0)))
}

/// reach[a][b]: a path of zero or more edges from a to b that never enters `avoid`.
fn reach_from(s: &Succ, from: u32, avoid: &[u32]) -> Vec<bool> {
  let mut seen = vec![false; s.len()];
  if avoid.contains(&from) {
    return seen;
  }
  seen[from as usize] = true;
  let mut st = vec![from];
  while let Some(n) = st.pop() {
    for &c in &s[n as usize] {
      if !avoid.contains(&c) && !seen[c as usize] {
        seen[c as usize] = true;
        st.push(c);
      }
    }
  }
  seen
}

struct Truth {
  n: usize,
  s: Succ,
  live: Vec<bool>,
  /// dom[a][b]: a dominates b (both reachable).
  dom: Vec<Vec<bool>>,
  /// Post-dominance on nodes 0..=n, node n being the virtual exit.
  pdom: Vec<Vec<bool>>,
  sinks: Vec<bool>,
}

fn doms(s: &Succ, entry: u32, n: usize) -> Vec<Vec<bool>> {
  let all = reach_from(s, entry, &[]);
  (0..n)
    .map(|a| {
      let without = reach_from(s, entry, &[a as u32]);
      (0..n).map(|b| all[a] && all[b] && !without[b]).collect()
    })
    .collect()
}

impl Truth {
  /// `s` restricted to what is reachable from node 0.
  fn new(full: &Succ) -> Truth {
    let live = reachable(full, None);
    let n = full.len();
    let s: Succ = (0..n).map(|i| if live[i] { full[i].clone() } else { vec![] }).collect();
    let dom = doms(&s, 0, n);
    let r: Vec<Vec<bool>> = (0..n).map(|a| reach_from(&s, a as u32, &[])).collect();
    // A node is in a sink component if everything it reaches reaches it back.
    let sinks: Vec<bool> = (0..n).map(|a| live[a] && (0..n).all(|b| !r[a][b] || r[b][a])).collect();
    let mut rev: Succ = vec![vec![]; n + 1];
    for a in 0..n {
      for &b in &s[a] {
        rev[b as usize].push(a as u32);
      }
      if sinks[a] {
        rev[n].push(a as u32);
      }
    }
    let pdom = doms(&rev, n as u32, n + 1);
    Truth { n, s, live, dom, pdom, sinks }
  }
  fn preds(&self, b: usize) -> Vec<usize> {
    (0..self.n).filter(|&p| self.live[p] && self.s[p].contains(&(b as u32))).collect()
  }
  fn idom(&self, d: &[Vec<bool>], b: usize) -> Option<usize> {
    // The strict dominator that every other strict dominator dominates.
    let strict: Vec<usize> = (0..d.len()).filter(|&a| a != b && d[a][b]).collect();
    strict.iter().copied().find(|&a| strict.iter().all(|&c| d[c][a]))
  }
  fn natural_loops(&self) -> BTreeMap<u32, BTreeSet<u32>> {
    let mut m: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
    for t in 0..self.n {
      for &h in &self.s[t] {
        let h = h as usize;
        if !self.dom[h][t] {
          continue;
        }
        let body = m.entry(h as u32).or_default();
        body.insert(h as u32);
        for x in 0..self.n {
          // x reaches the latch without passing through the header.
          if self.live[x] && x != h && reach_from(&self.s, x as u32, &[h as u32])[t] {
            body.insert(x as u32);
          }
        }
      }
    }
    m
  }
}

fn sorted(h: impl IntoIterator<Item = u32>) -> BTreeSet<u32> {
  h.into_iter().collect()
}

/// Dominance, post-dominance, orders, loops and conditionals on one graph.
fn structure(full: &Succ, bad: &mut dyn FnMut(&str, String)) {
  let t = Truth::new(full);
  let n = t.n;
  let mut cfg = build(full, |_| vec![], |_| Arg::Var(0));
  let gone: BTreeSet<u32> = sorted(cfg.find_and_pop_unreachable());
  let want: BTreeSet<u32> = (0..n as u32).filter(|&i| !t.live[i as usize]).collect();
  if gone != want {
    bad("unreachable", format!("removed {gone:?}, unreachable are {want:?}"));
  }
  for a in 0..n as u32 {
    if !t.live[a as usize] {
      continue;
    }
    if sorted(cfg.graph.children_sorted(a)) != sorted(t.s[a as usize].iter().copied()) {
      bad("edges", format!("successors of {a} after removal are {:?}", cfg.graph.children_sorted(a)));
    }
    if sorted(cfg.graph.parents_sorted(a)) != sorted(t.preds(a as usize).into_iter().map(|p| p as u32)) {
      bad("edges", format!("predecessors of {a} after removal are {:?}", cfg.graph.parents_sorted(a)));
    }
  }
  // Orders.
  let rpo = cfg.reverse_postorder();
  let pos: BTreeMap<u32, usize> = rpo.iter().enumerate().map(|(i, &l)| (l, i)).collect();
  let lives: BTreeSet<u32> = (0..n as u32).filter(|&i| t.live[i as usize]).collect();
  if rpo.len() != lives.len() || sorted(rpo.iter().copied()) != lives || rpo.first() != Some(&0) {
    bad("order", format!("reverse postorder {rpo:?} is not a permutation of {lives:?} from 0"));
  } else {
    for a in 0..n {
      let ra = reach_from(&t.s, a as u32, &[]);
      for &b in &t.s[a] {
        // An edge that is on no cycle goes forward in every reverse postorder.
        if !reach_from(&t.s, b, &[])[a] && ra[b as usize] && pos[&(a as u32)] >= pos[&b] {
          bad("order", format!("reverse postorder {rpo:?} has {b} before {a}"));
        }
      }
    }
  }
  // Dominators.
  let dom = Dom::calculate(&cfg);
  let dg = dom.dominates_graph();
  let db = dom.dominated_by_graph();
  let fr = dom.dominance_frontiers(&cfg);
  let entry_is_target = !t.preds(0).is_empty();
  for a in 0..n {
    if !t.live[a] {
      continue;
    }
    let id = t.idom(&t.dom, a).map(|x| x as u32);
    if dom.idom_of(a as u32) != id || dom.idom(a as u32) != id || dom.immediate_dominator(a as u32) != id {
      bad("idom", format!("idom of {a} is {:?}, should be {id:?}", dom.idom_of(a as u32)));
    }
    let kids = sorted(dom.immediately_dominated_by(a as u32));
    let want = (0..n).filter(|&b| t.live[b] && t.idom(&t.dom, b) == Some(a)).map(|b| b as u32).collect();
    if kids != want {
      bad("domtree", format!("{a} immediately dominates {kids:?}, should be {want:?}"));
    }
    for b in 0..n {
      if !t.live[b] {
        continue;
      }
      if dg.dominates(a as u32, b as u32) != t.dom[a][b] || db.dominated_by(b as u32, a as u32) != t.dom[a][b] {
        bad("dominates", format!("{a} dominates {b} should be {}", t.dom[a][b]));
      }
      let common: Vec<usize> = (0..n).filter(|&c| t.dom[c][a] && t.dom[c][b]).collect();
      let lca = common.iter().copied().find(|&c| common.iter().all(|&d| t.dom[d][c])).map(|x| x as u32);
      if dom.lca(a as u32, b as u32) != lca || dom.lca_all([a as u32, b as u32]) != lca {
        bad("lca", format!("lca of {a} and {b} is {:?}, should be {lca:?}", dom.lca(a as u32, b as u32)));
      }
    }
    // The entry block never has predecessors in compiled code; frontiers assume that.
    if !entry_is_target {
      let got = sorted(fr.get(&(a as u32)).into_iter().flatten().copied());
      let want: BTreeSet<u32> = (0..n)
        .filter(|&b| t.live[b] && t.preds(b).iter().any(|&p| t.dom[a][p]) && !(t.dom[a][b] && a != b))
        .map(|b| b as u32)
        .collect();
      if got != want {
        bad("frontier", format!("dominance frontier of {a} is {got:?}, should be {want:?}"));
      }
    }
  }
  // Post-dominators.
  let pd = PostDom::calculate(&cfg);
  let exit = pd.entry_label();
  let name = |x: usize| if x == n { exit } else { x as u32 };
  if (exit as usize) < n && t.live[exit as usize] {
    bad("postdom", format!("the virtual exit {exit} is a block"));
  }
  let pg = pd.dominates_graph();
  for a in 0..=n {
    if a < n && !t.live[a] {
      continue;
    }
    let id = t.idom(&t.pdom, a).map(name);
    if pd.idom_of(name(a)) != id {
      bad("ipdom", format!("immediate post-dominator of {a} is {:?}, should be {id:?}", pd.idom_of(name(a))));
    }
    for b in 0..=n {
      if (b == n || t.live[b]) && pg.dominates(name(a), name(b)) != t.pdom[a][b] {
        bad("postdom", format!("{a} post-dominates {b} should be {}", t.pdom[a][b]));
      }
    }
  }
  // Loops.
  let want = t.natural_loops();
  let got: BTreeMap<u32, BTreeSet<u32>> = find_loops(&cfg, &dom).into_iter().map(|(h, b)| (h, sorted(b))).collect();
  if got != want {
    bad("loops", format!("loops {got:?}, should be {want:?}"));
  }
  let info = LoopInfo::compute(&cfg, &dom);
  let mut heads: Vec<u32> = info.loops.iter().map(|l| l.header).collect();
  heads.sort();
  if heads != want.keys().copied().collect::<Vec<_>>() {
    bad("loopinfo", format!("headers {heads:?}"));
  } else {
    for (i, l) in info.loops.iter().enumerate() {
      let body = &want[&l.header];
      if l.id.0 as usize != i || info.header_to_loop.get(&l.header) != Some(&l.id) || sorted(l.nodes.iter().copied()) != *body {
        bad("loopinfo", format!("loop {l:?} is indexed or filled wrongly"));
      }
      let latches: BTreeSet<u32> = body.iter().copied().filter(|&x| t.s[x as usize].contains(&l.header)).collect();
      if sorted(l.latches.iter().copied()) != latches || l.latches.len() != latches.len() {
        bad("loopinfo", format!("latches of {} are {:?}, should be {latches:?}", l.header, l.latches));
      }
      let exits: BTreeSet<(u32, u32)> = body
        .iter()
        .flat_map(|&x| t.s[x as usize].iter().map(move |&y| (x, y)))
        .filter(|(_, y)| !body.contains(y))
        .collect();
      if l.exits.iter().copied().collect::<BTreeSet<_>>() != exits || l.exits.len() != exits.len() {
        bad("loopinfo", format!("exits of {} are {:?}, should be {exits:?}", l.header, l.exits));
      }
      // The parent is the smallest loop that strictly contains this one.
      let mut sup: Vec<&BTreeSet<u32>> = want.values().filter(|b| b.len() > body.len() && b.is_superset(body)).collect();
      sup.sort_by_key(|b| b.len());
      match (l.parent, sup.first()) {
        (None, None) => {}
        (Some(p), Some(b)) => {
          let p = &info.loops[p.0 as usize];
          if want[&p.header].len() != b.len() || !want[&p.header].is_superset(body) || !p.children.contains(&l.id) {
            bad("loopinfo", format!("parent of loop {} is {}", l.header, p.header));
          }
        }
        (p, b) => bad("loopinfo", format!("parent of loop {} is {p:?}, should be {b:?}", l.header)),
      }
      for c in &l.children {
        if info.loops[c.0 as usize].parent != Some(l.id) {
          bad("loopinfo", format!("child {c:?} of {} has another parent", l.header));
        }
      }
    }
    let mut over = BTreeSet::new();
    for a in &info.loops {
      for b in &info.loops {
        let (x, y) = (&want[&a.header], &want[&b.header]);
        if a.id.0 < b.id.0 && !x.is_disjoint(y) && !(x.len() < y.len() && x.is_subset(y)) && !(y.len() < x.len() && y.is_subset(x)) {
          over.insert((a.id.0, b.id.0));
        }
      }
    }
    if info.overlapping.iter().map(|(a, b)| (a.0, b.0)).collect::<BTreeSet<_>>() != over {
      bad("loopinfo", format!("overlapping {:?}, should be {over:?}", info.overlapping));
    }
  }
  // Conditionals.
  let conds = find_conds(&cfg, &dom, &pd);
  for a in 0..n {
    let got = conds.get(&(a as u32));
    let [x, y] = t.s[a][..] else {
      if got.is_some() {
        bad("conds", format!("{a} is not a branch"));
      }
      continue;
    };
    let common: Vec<usize> = (0..=n).filter(|&c| t.pdom[c][x as usize] && t.pdom[c][y as usize]).collect();
    let join = common.iter().copied().find(|&c| common.iter().all(|&d| t.pdom[d][c])).unwrap();
    let wanted = (t.dom[a][x as usize] || t.dom[a][y as usize]) && t.pdom[join][a];
    let Some(got) = got else {
      if wanted {
        bad("conds", format!("the branch {a} joining at {join} was not found"));
      }
      continue;
    };
    let region = |e: u32| -> BTreeSet<u32> {
      if e as usize == join || !t.dom[a][e as usize] || e as usize == a {
        return if e as usize == a && a != join { BTreeSet::from([u32::MAX]) } else { BTreeSet::new() };
      }
      let avoid: Vec<u32> = if join < n { vec![a as u32, join as u32] } else { vec![a as u32] };
      let r = reach_from(&t.s, e, &avoid);
      (0..n).filter(|&b| r[b] && t.dom[a][b]).map(|b| b as u32).collect()
    };
    let (rx, ry) = (region(x), region(y));
    let same = |w: &BTreeSet<u32>, g: &BTreeSet<u32>| w.contains(&u32::MAX) || w == g;
    if !wanted
      || (got.then_entry, got.else_entry) != (x, y)
      || got.join != name(join)
      || !same(&rx, &sorted(got.then_nodes.iter().copied()))
      || !same(&ry, &sorted(got.else_nodes.iter().copied()))
    {
      bad("conds", format!("region of {a} is {got:?}, should be join {join} {rx:?} {ry:?} (wanted {wanted})"));
    }
  }
}

/// Reaching definitions, written against the public dataflow framework.
struct Reaching;
impl DataFlowAnalysis for Reaching {
  type State = BTreeSet<(u32, usize)>;
  const DIRECTION: Direction = Direction::Forward;
  fn bottom(&self, _: &Cfg) -> Self::State {
    BTreeSet::new()
  }
  fn meet(&mut self, s: &[(u32, &Self::State)]) -> Self::State {
    s.iter().flat_map(|(_, s)| s.iter().copied()).collect()
  }
  fn apply_to_instruction(&mut self, l: u32, i: usize, inst: &Inst, s: &mut Self::State) {
    for &t in &inst.tgts {
      s.retain(|d| d.0 & 0xff != t);
      s.insert((t | (l << 8), i));
    }
  }
}

const MENU: usize = 6;
fn menu(k: usize) -> Vec<Inst> {
  let call = |t: Option<u32>, a: Vec<Arg>| Inst::call(t, Arg::Builtin("f".into()), Arg::Const(Const::Undefined), a, vec![]);
  match k {
    0 => vec![],
    1 => vec![call(Some(1), vec![])],
    2 => vec![call(None, vec![Arg::Var(1)])],
    3 => vec![Inst::var_assign(2, Arg::Var(1)), call(None, vec![Arg::Var(2), Arg::Var(1)])],
    4 => vec![call(None, vec![Arg::Var(2)]), Inst::var_assign(1, one())],
    _ => vec![Inst::bin(1, Arg::Var(1), BinOp::Add, Arg::Var(2))],
  }
}

/// Liveness, interference, registers, definitions and the dataflow framework.
fn flow(s: &Succ, picks: &[usize], bad: &mut dyn FnMut(&str, String)) {
  let cfg = build(s, |b| menu(picks[b as usize]), |b| if b % 2 == 0 { Arg::Var(1) } else { Arg::Var(2) });
  let points: Vec<(u32, usize)> =
    (0..s.len() as u32).flat_map(|b| (0..cfg.bblocks.get(b).len()).map(move |i| (b, i))).collect();
  let uses = |p: (u32, usize), v: u32| cfg.bblocks.get(p.0)[p.1].args.contains(&Arg::Var(v));
  let defs = |p: (u32, usize), v: u32| cfg.bblocks.get(p.0)[p.1].tgts.contains(&v);
  let next_blocks = |b: u32| -> Vec<(u32, usize)> {
    // First instruction on every path out of block b (blocks may be empty).
    let mut out = vec![];
    let mut seen = HashSet::default();
    let mut st: Vec<u32> = s[b as usize].clone();
    while let Some(c) = st.pop() {
      if !seen.insert(c) {
        continue;
      }
      if cfg.bblocks.get(c).is_empty() {
        st.extend(&s[c as usize]);
      } else {
        out.push((c, 0));
      }
    }
    out
  };
  let next = |p: (u32, usize)| -> Vec<(u32, usize)> {
    if p.1 + 1 < cfg.bblocks.get(p.0).len() {
      vec![(p.0, p.1 + 1)]
    } else {
      next_blocks(p.0)
    }
  };
  let live = calculate_live_ins(&cfg, &HashMap::default(), &HashSet::default());
  let mut truth: HashMap<(u32, usize), HashSet<u32>> = HashMap::default();
  for &p in &points {
    let mut set = HashSet::default();
    for v in 1..=2u32 {
      // Live: some path from here uses v before defining it.
      let mut st = vec![p];
      let mut seen = HashSet::default();
      while let Some(q) = st.pop() {
        if !seen.insert(q) {
          continue;
        }
        if uses(q, v) {
          set.insert(v);
          break;
        }
        if !defs(q, v) {
          st.extend(next(q));
        }
      }
    }
    if live.get(&p) != Some(&set) {
      bad("liveness", format!("live before {p:?}: {:?}, should be {:?}", live.get(&p).map(|s| sorted(s.iter().copied())), sorted(set.iter().copied())));
    }
    truth.insert(p, set);
  }
  let ig = calculate_interference_graph(&live);
  let both = live.values().any(|s| s.contains(&1) && s.contains(&2));
  for v in 1..=2u32 {
    let known = live.values().any(|s| s.contains(&v));
    if ig.contains_key(&v) != known || ig.get(&v).is_some_and(|s| s.contains(&(3 - v))) != both {
      bad("interference", format!("interference of {v} is {:?}", ig.get(&v)));
    }
  }
  let regs = allocate_registers(&ig);
  if both && regs.get(&1) == regs.get(&2) {
    bad("registers", format!("simultaneously live variables share a register: {regs:?}"));
  }
  let d = calculate_defs(&cfg);
  for v in 1..=2u32 {
    let want: BTreeSet<u32> = points.iter().filter(|p| defs(**p, v)).map(|p| p.0).collect();
    if sorted(d.get(&v).into_iter().flatten().copied()) != want {
      bad("defs", format!("{v} is defined in {:?}, should be {want:?}", d.get(&v)));
    }
  }
  // Forward problem: a definition reaches the end of a block if some path carries it there.
  let r = Reaching.analyze(&cfg, AnalysisBoundary::Entry(0));
  let mut want: BTreeMap<u32, BTreeSet<(u32, usize)>> = BTreeMap::new();
  for &p in &points {
    for &v in &cfg.bblocks.get(p.0)[p.1].tgts {
      let fact = (v | (p.0 << 8), p.1);
      let mut st = vec![(p.0, p.1 + 1)];
      let mut seen = HashSet::default();
      while let Some(q) = st.pop() {
        if !seen.insert(q) {
          continue;
        }
        if q.1 == cfg.bblocks.get(q.0).len() {
          want.entry(q.0).or_default().insert(fact);
          st.extend(s[q.0 as usize].iter().map(|&c| (c, 0)));
        } else if !defs(q, v) {
          st.push((q.0, q.1 + 1));
        }
      }
    }
  }
  for b in 0..s.len() as u32 {
    let got = r.blocks.get(&b).map(|s| s.exit.clone()).unwrap_or_default();
    let w = want.get(&b).cloned().unwrap_or_default();
    if got != w {
      bad("dataflow", format!("definitions reaching the end of {b}: {got:?}, should be {w:?}"));
    }
  }
}

/// Single-use inlining and the liveness that goes with it, on straight-line SSA code.
fn single_use(code: &[(bool, Vec<u32>)], bad: &mut dyn FnMut(&str, String)) {
  let insts: Vec<Inst> = code
    .iter()
    .enumerate()
    .map(|(i, (def, args))| {
      let args = args.iter().map(|&v| Arg::Var(v)).collect();
      Inst::call(def.then_some(i as u32), Arg::Builtin("f".into()), Arg::Const(Const::Undefined), args, vec![])
    })
    .collect();
  let cfg = build(&vec![vec![]], |_| insts.clone(), |_| Arg::Var(0));
  let (inl, vars) = analyse_single_use_defs(&cfg);
  let mut want: BTreeMap<(u32, usize), (u32, usize)> = BTreeMap::new();
  for (i, (def, _)) in code.iter().enumerate() {
    let uses: Vec<usize> =
      code.iter().enumerate().flat_map(|(j, (_, a))| a.iter().filter(|&&v| v == i as u32).map(move |_| j)).collect();
    if *def && uses.len() == 1 {
      want.insert((0, i), (0, uses[0]));
    }
  }
  let got: BTreeMap<_, _> = inl.iter().map(|(a, b)| (*a, *b)).collect();
  if got != want || sorted(vars.iter().copied()) != want.keys().map(|k| k.1 as u32).collect() {
    bad("single-use", format!("inlined {got:?} {vars:?}, should be {want:?}"));
    return;
  }
  // With its operands inlined, an instruction uses every leaf variable below it.
  let live = calculate_live_ins(&cfg, &inl, &vars);
  fn leaves(code: &[(bool, Vec<u32>)], want: &BTreeMap<(u32, usize), (u32, usize)>, i: usize, out: &mut BTreeSet<u32>) {
    for &v in &code[i].1 {
      if want.contains_key(&(0, v as usize)) {
        leaves(code, want, v as usize, out);
      } else {
        out.insert(v);
      }
    }
  }
  let mut cur = BTreeSet::new();
  for i in (0..code.len()).rev() {
    if want.contains_key(&(0, i)) {
      continue;
    }
    cur.remove(&(i as u32));
    leaves(code, &want, i, &mut cur);
    let got = sorted(live.get(&(0, i)).into_iter().flatten().copied());
    if got != cur {
      bad("single-use", format!("live before {i} with inlining: {got:?}, should be {cur:?}"));
    }
  }
}

fn report<'a>(ck: &'a Check, input: &'a str) -> impl FnMut(&str, String) + 'a {
  move |k, d| ck.violation(format!("{k} {input}"), d)
}

pub fn run() {
  mccore::main("C14", "model_checking", |ck| {
    ck.assume("the definitions by paths in mc/opt/src/analyses.rs state what the analyses promise");
    let one = |ck: &Check, input: &str, f: &mut dyn FnMut(&mut dyn FnMut(&str, String))| {
      ck.traces(1);
      if let Err(p) = guard(input, || f(&mut report(ck, input))) {
        ck.violation(format!("panic {input}"), p);
      }
    };
    // 1. All graphs, then/else order included, by number of blocks.
    let top = ck.pick(4, 5);
    for n in 1..=top {
      let opts = options(n, true);
      ck.par((opts.len() as u64).pow(n), || (), |_, i| {
        let s = nth(i, n, &opts);
        ck.states(1);
        ck.transitions(s.iter().map(|c| c.len() as u64).sum());
        one(ck, &show(&s), &mut |bad| structure(&s, bad));
      });
    }
    // 2. Larger graphs up to renumbering: every node reachable, numbered in breadth-first order.
    let opts = options(top + 1, true);
    let mut all = vec![];
    fn extend(s: &mut Succ, n: usize, next: u32, opts: &[Vec<u32>], all: &mut Vec<Succ>) {
      if s.len() == n {
        if next as usize == n {
          all.push(s.clone());
        }
        return;
      }
      if s.len() as u32 >= next {
        return;
      }
      for o in opts {
        let mut nx = next;
        if o.iter().all(|&c| {
          if c == nx {
            nx += 1;
          }
          c < nx
        }) {
          s.push(o.clone());
          extend(s, n, nx, opts, all);
          s.pop();
        }
      }
    }
    for n in [top + 1, top + 2] {
      if n == top + 2 && ck.quick() {
        continue;
      }
      let opts = if n == top + 2 { options(n, false) } else { opts.clone() };
      all.clear();
      extend(&mut vec![], n as usize, 1, &opts, &mut all);
      ck.count(&format!("graphs of {n} blocks up to renumbering"), all.len() as u64);
      let all = &all;
      ck.par(all.len() as u64, || (), |_, i| {
        let s = &all[i as usize];
        ck.states(1);
        ck.transitions(s.iter().map(|c| c.len() as u64).sum());
        one(ck, &show(s), &mut |bad| structure(s, bad));
      });
    }
    // 3. Data flow: graphs up to renumbering x instructions of every block.
    for n in 1..=ck.pick(4usize, 5) {
      let mut gs = vec![];
      extend(&mut vec![], n, 1, &options(n as u32, false), &mut gs);
      let per = (MENU as u64).pow(n as u32);
      let gs = &gs;
      ck.par(gs.len() as u64 * per, || (), |_, i| {
        let s = &gs[(i / per) as usize];
        let mut k = i % per;
        let picks: Vec<usize> = (0..n)
          .map(|_| {
            let p = (k % MENU as u64) as usize;
            k /= MENU as u64;
            p
          })
          .collect();
        ck.states(1);
        ck.transitions(s.iter().map(|c| c.len() as u64).sum());
        one(ck, &format!("{} with {picks:?}", show(s)), &mut |bad| flow(s, &picks, bad));
      });
    }
    // 4. Interference graphs: every undirected graph.
    for n in 1..=ck.pick(6u32, 7) {
      let pairs: Vec<(u32, u32)> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect();
      ck.par(1 << pairs.len(), || (), |_, m| {
        let mut g: HashMap<u32, HashSet<u32>> = (0..n).map(|a| (a, HashSet::default())).collect();
        for (k, (a, b)) in pairs.iter().enumerate() {
          if m >> k & 1 == 1 {
            g.get_mut(a).unwrap().insert(*b);
            g.get_mut(b).unwrap().insert(*a);
          }
        }
        ck.states(1);
        ck.transitions(m.count_ones() as u64);
        one(ck, &format!("colour {n} {m}"), &mut |bad| {
          let r = allocate_registers(&g);
          for (a, ns) in &g {
            if !r.contains_key(a) || ns.iter().any(|b| r.get(b) == r.get(a)) {
              bad("colouring", format!("{r:?}"));
            }
          }
        });
      });
    }
    // 5. Straight-line code: every instruction uses up to two earlier results.
    let n = ck.pick(4usize, 5);
    let mut codes: Vec<Vec<(bool, Vec<u32>)>> = vec![vec![]];
    for i in 0..n {
      let defs: Vec<(bool, Vec<u32>)> = {
        let vs: Vec<u32> = (0..i as u32).collect();
        let mut a = vec![vec![]];
        a.extend(vs.iter().map(|&v| vec![v]));
        a.extend(vs.iter().flat_map(|&v| vs.iter().map(move |&w| vec![v, w])));
        a.into_iter().flat_map(|a| [(true, a.clone()), (false, a)]).collect()
      };
      let mut nx = vec![];
      for c in &codes {
        for d in &defs {
          if d.1.iter().all(|&v| c[v as usize].0) {
            let mut c = c.clone();
            c.push(d.clone());
            nx.push(c);
          }
        }
      }
      codes = nx;
      let codes = &codes;
      ck.par(codes.len() as u64, || (), |_, k| {
        let c = &codes[k as usize];
        ck.states(1);
        ck.transitions(c.len() as u64);
        one(ck, &format!("straight {c:?}"), &mut |bad| single_use(c, bad));
      });
    }
  })
}
