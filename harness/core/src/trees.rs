//! Bijective numbering of all JSON trees with exactly n nodes over given atoms.
use crate::val::J;

pub struct Trees {
    pub atoms: Vec<J>,
    pub keys: Vec<String>,
    t: Vec<u64>, // number of trees with n nodes
    f: Vec<u64>, // number of non-empty forests with n nodes
    /// whether empty containers count as leaves
    pub empties: bool,
}

impl Trees {
    pub fn new(atoms: Vec<J>, keys: &[&str], max: usize, empties: bool) -> Self {
        let mut t = vec![0u64; max + 1];
        let mut f = vec![0u64; max + 1];
        for n in 1..=max {
            t[n] = if n == 1 { atoms.len() as u64 + if empties { 2 } else { 0 } } else { 2 * f[n - 1] };
            // forest(n) = sum_k tree(k) * (n==k ? 1 : forest(n-k))
            let mut s = t[n];
            for k in 1..n {
                s += t[k] * f[n - k];
            }
            f[n] = s;
        }
        Trees { atoms, keys: keys.iter().map(|s| s.to_string()).collect(), t, f, empties }
    }
    pub fn count(&self, n: usize) -> u64 {
        self.t[n]
    }
    pub fn count_upto(&self, n: usize) -> u64 {
        self.t[1..=n].iter().sum()
    }
    pub fn upto(&self, mut i: u64, n: usize) -> J {
        for k in 1..=n {
            if i < self.t[k] {
                return self.tree(k, i);
            }
            i -= self.t[k];
        }
        panic!("rank out of range")
    }
    pub fn tree(&self, n: usize, i: u64) -> J {
        if n == 1 {
            let a = self.atoms.len() as u64;
            return if i < a {
                self.atoms[i as usize].clone()
            } else if i == a {
                J::Arr(vec![])
            } else {
                J::Obj(vec![])
            };
        }
        let fc = self.f[n - 1];
        let kids = self.forest(n - 1, i % fc);
        if i < fc {
            J::Obj(
                kids.into_iter()
                    .enumerate()
                    .map(|(j, v)| {
                        let k = &self.keys[j % self.keys.len()];
                        let k = if j < self.keys.len() { k.clone() } else { format!("{}{}", k, j) };
                        (k, v)
                    })
                    .collect(),
            )
        } else {
            J::Arr(kids)
        }
    }
    fn forest(&self, mut n: usize, mut i: u64) -> Vec<J> {
        let mut out = Vec::new();
        loop {
            // first tree takes all n nodes?
            if i < self.t[n] {
                out.push(self.tree(n, i));
                return out;
            }
            i -= self.t[n];
            let mut done = false;
            for k in 1..n {
                let c = self.t[k] * self.f[n - k];
                if i < c {
                    let fk = self.f[n - k];
                    out.push(self.tree(k, i / fk));
                    i %= fk;
                    n -= k;
                    done = true;
                    break;
                }
                i -= c;
            }
            assert!(done);
        }
    }
}

/// i-th word of exactly `len` letters over an alphabet of `a` letters
pub fn word(mut i: u64, a: usize, len: usize) -> Vec<usize> {
    let mut v = vec![0; len];
    for p in (0..len).rev() {
        v[p] = (i % a as u64) as usize;
        i /= a as u64;
    }
    v
}
pub fn words_upto(a: usize, len: usize) -> u64 {
    (0..=len as u32).map(|l| (a as u64).pow(l)).sum()
}
/// i-th word among all words of length 0..=len, shortest first
pub fn word_upto(mut i: u64, a: usize, len: usize) -> Vec<usize> {
    for l in 0..=len {
        let c = (a as u64).pow(l as u32);
        if i < c {
            return word(i, a, l);
        }
        i -= c;
    }
    panic!("word rank out of range")
}
