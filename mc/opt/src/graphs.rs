//! Enumeration of control-flow graphs.
use optimize_js::cfg::cfg::{Cfg, CfgBBlocks, CfgGraph};
use optimize_js::il::inst::{Arg, Inst};

/// Successor list of every node: none, one, or an ordered pair (then, else).
pub type Succ = Vec<Vec<u32>>;

pub fn options(n: u32, ordered: bool) -> Vec<Vec<u32>> {
  let mut v = vec![vec![]];
  for a in 0..n {
    v.push(vec![a]);
  }
  for a in 0..n {
    for b in 0..n {
      if a < b || (ordered && a != b) {
        v.push(vec![a, b]);
      }
    }
  }
  v
}

/// The graph with index `i` out of `options.len().pow(n)`.
pub fn nth(mut i: u64, n: u32, opts: &[Vec<u32>]) -> Succ {
  (0..n)
    .map(|_| {
      let s = opts[(i % opts.len() as u64) as usize].clone();
      i /= opts.len() as u64;
      s
    })
    .collect()
}

pub fn reachable(s: &Succ, avoid: Option<u32>) -> Vec<bool> {
  let mut seen = vec![false; s.len()];
  if avoid == Some(0) {
    return seen;
  }
  let mut st = vec![0u32];
  seen[0] = true;
  while let Some(n) = st.pop() {
    for &c in &s[n as usize] {
      if Some(c) != avoid && !seen[c as usize] {
        seen[c as usize] = true;
        st.push(c);
      }
    }
  }
  seen
}

/// Every node is reachable and nodes are numbered in breadth-first order
/// (each isomorphism class of rooted ordered graphs has exactly one such numbering).
pub fn canonical(s: &Succ) -> bool {
  let mut next = 1u32;
  for n in 0..s.len() as u32 {
    if n >= next {
      return false;
    }
    for &c in &s[n as usize] {
      if c == next {
        next += 1;
      } else if c > next {
        return false;
      }
    }
  }
  next == s.len() as u32
}

/// A `Cfg` with the given edges; two-successor blocks end in a CondGoto on `cond(block)`.
pub fn build(s: &Succ, mut insts: impl FnMut(u32) -> Vec<Inst>, cond: impl Fn(u32) -> Arg) -> Cfg {
  let mut graph = CfgGraph::default();
  let mut bblocks = CfgBBlocks::default();
  for n in 0..s.len() as u32 {
    graph.connect(n, n);
    graph.disconnect(n, n);
  }
  for (n, cs) in s.iter().enumerate() {
    let n = n as u32;
    for &c in cs {
      graph.connect(n, c);
    }
    let mut v = insts(n);
    if let [a, b] = cs[..] {
      v.push(Inst::cond_goto(cond(n), a, b));
    }
    bblocks.add(n, v);
  }
  Cfg { graph, bblocks, entry: 0 }
}

pub fn show(s: &Succ) -> String {
  s.iter()
    .enumerate()
    .map(|(i, c)| format!("{i}->{}", c.iter().map(|c| c.to_string()).collect::<Vec<_>>().join("|")))
    .collect::<Vec<_>>()
    .join(" ")
}
