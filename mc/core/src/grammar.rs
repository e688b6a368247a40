//! Bounded exhaustive enumeration of the strings of a weighted context-free
//! grammar. `count`/`unrank` give random access to the finite set of all
//! derivations of an exact size, so a space can be split among threads without
//! being materialised, and is visited completely.
use std::collections::HashMap;

#[derive(Clone)]
enum Part {
  Lit(String),
  Nt(usize),
}
#[derive(Clone)]
struct Prod {
  cost: usize,
  parts: Vec<Part>,
}
pub struct Grammar {
  names: HashMap<String, usize>,
  prods: Vec<Vec<Prod>>,
  // counts[nt][size]
  counts: Vec<Vec<u64>>,
  // seqs[(nt,prod)][part][size] = number of ways for parts[part..] with exactly size
  seqs: Vec<Vec<Vec<Vec<u64>>>>,
  max: usize,
}

impl Grammar {
  /// Rules: `("E", &["x", "1", "($E+$E)", "2:f($E)"])`. `$N` (one uppercase
  /// letter) or `${Name}` is a nonterminal; an optional `k:` prefix sets the
  /// production's own cost (default 1). Costs of nonterminals add up.
  pub fn new(rules: &[(&str, &[&str])]) -> Grammar {
    let mut names = HashMap::new();
    for (i, (n, _)) in rules.iter().enumerate() {
      assert!(names.insert(n.to_string(), i).is_none(), "duplicate rule {n}");
    }
    let mut prods = vec![];
    for (_, ps) in rules {
      let mut v = vec![];
      for p in *ps {
        let (cost, text) = match p.split_once(':') {
          Some((k, rest)) if !k.is_empty() && k.len() <= 2 && k.bytes().all(|b| b.is_ascii_digit()) => {
            (k.parse().unwrap(), rest)
          }
          _ => (1usize, *p),
        };
        let mut parts = vec![];
        let mut lit = String::new();
        let cs: Vec<char> = text.chars().collect();
        let mut i = 0;
        while i < cs.len() {
          if cs[i] == '$' && i + 1 < cs.len() && (cs[i + 1].is_ascii_uppercase() || cs[i + 1] == '{') {
            let name: String;
            if cs[i + 1] == '{' {
              let j = (i..cs.len()).find(|&j| cs[j] == '}').expect("unclosed");
              let cand: String = cs[i + 2..j].iter().collect();
              if !names.contains_key(&cand) {
                // a template-literal substitution, not a nonterminal
                lit.push('$');
                i += 1;
                continue;
              }
              name = cand;
              i = j + 1;
            } else {
              name = cs[i + 1].to_string();
              i += 2;
            }
            if !lit.is_empty() {
              parts.push(Part::Lit(std::mem::take(&mut lit)));
            }
            parts.push(Part::Nt(*names.get(&name).unwrap_or_else(|| panic!("no rule {name}"))));
          } else {
            lit.push(cs[i]);
            i += 1;
          }
        }
        if !lit.is_empty() {
          parts.push(Part::Lit(lit));
        }
        v.push(Prod { cost, parts });
      }
      prods.push(v);
    }
    Grammar { names, prods, counts: vec![], seqs: vec![], max: 0 }
  }

  fn prepare(&mut self, max: usize) {
    if self.max >= max && !self.counts.is_empty() {
      return;
    }
    let n = self.prods.len();
    self.counts = vec![vec![0; max + 1]; n];
    self.seqs = self
      .prods
      .iter()
      .map(|ps| ps.iter().map(|p| vec![vec![0; max + 1]; p.parts.len() + 1]).collect())
      .collect();
    for size in 0..=max {
      // Zero-cost productions make same-size dependencies: iterate to a fixpoint.
      for _round in 0..64 {
        let mut changed = false;
        for nt in 0..n {
          let mut total = 0u64;
          for pi in 0..self.prods[nt].len() {
            let prod = &self.prods[nt][pi];
            let k = prod.parts.len();
            for part in (0..=k).rev() {
              let v = if part == k {
                (size == 0) as u64
              } else {
                match &prod.parts[part] {
                  Part::Lit(_) => self.seqs[nt][pi][part + 1][size],
                  Part::Nt(m) => {
                    let mut s = 0u64;
                    for a in 0..=size {
                      let c = self.counts[*m][a];
                      if c != 0 {
                        s = s.saturating_add(c.saturating_mul(self.seqs[nt][pi][part + 1][size - a]));
                      }
                    }
                    s
                  }
                }
              };
              if self.seqs[nt][pi][part][size] != v {
                self.seqs[nt][pi][part][size] = v;
                changed = true;
              }
            }
            if size >= prod.cost {
              total = total.saturating_add(self.seqs[nt][pi][0][size - prod.cost]);
            }
          }
          if self.counts[nt][size] != total {
            self.counts[nt][size] = total;
            changed = true;
          }
        }
        if !changed {
          break;
        }
      }
    }
    self.max = max;
  }

  fn unrank(&self, nt: usize, size: usize, mut i: u64, out: &mut String) {
    for (pi, prod) in self.prods[nt].iter().enumerate() {
      if size < prod.cost {
        continue;
      }
      let c = self.seqs[nt][pi][0][size - prod.cost];
      if i < c {
        self.unrank_seq(nt, pi, 0, size - prod.cost, i, out);
        return;
      }
      i -= c;
    }
    unreachable!()
  }
  fn unrank_seq(&self, nt: usize, pi: usize, part: usize, size: usize, mut i: u64, out: &mut String) {
    let prod = &self.prods[nt][pi];
    if part == prod.parts.len() {
      return;
    }
    match &prod.parts[part] {
      Part::Lit(s) => {
        out.push_str(s);
        self.unrank_seq(nt, pi, part + 1, size, i, out)
      }
      Part::Nt(m) => {
        for a in 0..=size {
          let c = self.counts[*m][a];
          let rest = self.seqs[nt][pi][part + 1][size - a];
          let t = c * rest;
          if i < t {
            self.unrank(*m, a, i / rest, out);
            self.unrank_seq(nt, pi, part + 1, size - a, i % rest, out);
            return;
          }
          i -= t;
        }
        unreachable!()
      }
    }
  }

  /// All derivations of `start` of size at most `k`, where `k` is the largest
  /// size for which there are at most `budget` of them (and `k <= cap`).
  pub fn space(mut self, start: &str, cap: usize, budget: u64) -> Space {
    let nt = *self.names.get(start).unwrap_or_else(|| panic!("no rule {start}"));
    self.prepare(cap);
    let mut cum = vec![];
    let mut total = 0u64;
    let mut k = 0;
    for s in 0..=cap {
      let c = self.counts[nt][s];
      if total.saturating_add(c) > budget {
        break;
      }
      total += c;
      cum.push(total);
      k = s;
    }
    Space { g: self, nt, cum, total, bound: k }
  }
}

pub struct Space {
  g: Grammar,
  nt: usize,
  cum: Vec<u64>,
  pub total: u64,
  pub bound: usize,
}
impl Space {
  pub fn len(&self) -> u64 {
    self.total
  }
  pub fn get(&self, i: u64) -> String {
    let size = self.cum.partition_point(|&c| c <= i);
    let before = if size == 0 { 0 } else { self.cum[size - 1] };
    let mut s = String::new();
    self.g.unrank(self.nt, size, i - before, &mut s);
    s
  }
}

#[cfg(test)]
mod tests {
  use super::*;
  #[test]
  fn enumerates_all() {
    let g = Grammar::new(&[("E", &["x", "1", "($E+$E)"]), ("Foo", &["0:${E};"])]);
    let sp = g.space("Foo", 9, 1000);
    let v: Vec<String> = (0..sp.len()).map(|i| sp.get(i)).collect();
    let set: std::collections::HashSet<_> = v.iter().collect();
    assert_eq!(set.len(), v.len());
    assert_eq!(v.iter().filter(|s| s.len() == 2).count(), 2);
    assert_eq!(v.iter().filter(|s| s.len() == 6).count(), 4);
  }
}
