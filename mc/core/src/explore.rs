//! Explicit-state breadth-first search over real objects, and a stateless
//! deviation-bounded choice explorer.
use std::collections::{HashSet, VecDeque};

/// Outcome of a BFS.
pub struct Bfs {
  pub states: u64,
  pub transitions: u64,
  pub max_depth: usize,
  pub complete: bool,
}

/// Breadth-first search where a state is the event history that reaches it:
/// `run(history)` rebuilds the real object and returns (canonical state,
/// enabled events) or `Err` once the invariant fails.
pub fn bfs<E: Clone>(
  max_depth: usize,
  max_states: u64,
  mut run: impl FnMut(&[E]) -> Option<(Vec<u8>, Vec<E>)>,
) -> Bfs {
  let mut seen: HashSet<Vec<u8>> = HashSet::new();
  let mut q: VecDeque<(Vec<E>, Vec<E>)> = VecDeque::new();
  let mut r = Bfs { states: 0, transitions: 0, max_depth: 0, complete: true };
  if let Some((k, en)) = run(&[]) {
    seen.insert(k);
    q.push_back((vec![], en));
  }
  while let Some((h, en)) = q.pop_front() {
    r.max_depth = r.max_depth.max(h.len());
    if h.len() >= max_depth {
      if !en.is_empty() {
        r.complete = false;
      }
      continue;
    }
    for e in en {
      let mut h2 = h.clone();
      h2.push(e);
      r.transitions += 1;
      if let Some((k, en2)) = run(&h2) {
        if seen.len() as u64 >= max_states {
          r.complete = false;
          continue;
        }
        if seen.insert(k) {
          q.push_back((h2, en2));
        }
      }
    }
  }
  r.states = seen.len() as u64;
  r
}

/// Stateless exploration of choice sequences. `run` is called with a chooser;
/// `choose(n)` returns the branch (0..n) of the next choice point. Choice 0 is
/// the default; at most `deviations` non-default choices are taken per run.
pub struct Chooser<'a> {
  prefix: &'a [usize],
  pub trace: Vec<(usize, usize)>,
}
impl Chooser<'_> {
  pub fn choose(&mut self, n: usize) -> usize {
    assert!(n > 0);
    let i = self.trace.len();
    let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
    assert!(c < n, "replay divergence at choice {i}: {c} of {n}");
    self.trace.push((c, n));
    c
  }
}

pub fn explore(deviations: usize, max_runs: u64, mut run: impl FnMut(&mut Chooser) -> bool) -> (u64, bool) {
  let mut stack: Vec<Vec<usize>> = vec![vec![]];
  let mut runs = 0;
  while let Some(prefix) = stack.pop() {
    if runs >= max_runs {
      return (runs, false);
    }
    let mut ch = Chooser { prefix: &prefix, trace: vec![] };
    runs += 1;
    let go_on = run(&mut ch);
    if !go_on {
      return (runs, false);
    }
    let trace = ch.trace;
    let used = prefix.iter().filter(|c| **c != 0).count();
    if used >= deviations {
      continue;
    }
    for i in (prefix.len()..trace.len()).rev() {
      for alt in 1..trace[i].1 {
        let mut p: Vec<usize> = trace[..i].iter().map(|t| t.0).collect();
        p.push(alt);
        stack.push(p);
      }
    }
  }
  (runs, true)
}
