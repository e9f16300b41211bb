//! Choice-tape generator: every decision is one u64; 0 is always the simplest choice, so that
//! deleting and zeroing tape entries shrinks the case.
use rand::{RngCore, SeedableRng};
use std::collections::BTreeSet;
use std::sync::OnceLock;

pub type V3 = [f64; 3];

pub struct Gen {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<rand::rngs::SmallRng>,
}

/// Numeric literals of the code under test: values a special case could hide behind.
pub struct Dict {
    pub ints: Vec<i64>,
    pub floats: Vec<f64>,
}
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut ints: BTreeSet<i64> = BTreeSet::new();
        let mut floats: Vec<f64> = Vec::new();
        let root = std::env::var("SC_SRC").unwrap_or_else(|_| "/repo/src".to_string());
        let mut files: Vec<_> = std::fs::read_dir(&root)
            .map(|d| d.filter_map(|x| x.ok()).map(|x| x.path()).collect())
            .unwrap_or_default();
        files.sort();
        for f in files {
            if f.extension().map(|e| e == "rs") != Some(true) {
                continue;
            }
            let s = std::fs::read_to_string(&f).unwrap_or_default();
            let b: Vec<char> = s.chars().collect();
            let mut i = 0;
            while i < b.len() {
                let prev_ident = i > 0 && (b[i - 1].is_alphanumeric() || b[i - 1] == '_');
                if b[i].is_ascii_digit() && !prev_ident {
                    let mut j = i;
                    let mut t = String::new();
                    while j < b.len()
                        && (b[j].is_ascii_digit()
                            || b[j] == '_'
                            || (b[j] == '.' && j + 1 < b.len() && b[j + 1].is_ascii_digit())
                            || (b[j] == 'e'
                                && j + 1 < b.len()
                                && (b[j + 1].is_ascii_digit() || b[j + 1] == '-')))
                    {
                        if b[j] != '_' {
                            t.push(b[j]);
                        }
                        if b[j] == 'e' && b[j + 1] == '-' {
                            t.push('-');
                            j += 1;
                        }
                        j += 1;
                    }
                    if let Ok(n) = t.parse::<i64>() {
                        for d in -1..=1 {
                            ints.insert(n + d);
                        }
                    }
                    if let Ok(x) = t.parse::<f64>() {
                        if x.is_finite() && !floats.contains(&x) {
                            floats.push(x);
                        }
                    }
                    i = j.max(i + 1);
                } else {
                    i += 1;
                }
            }
        }
        ints.insert(0);
        floats.push(0.0);
        Dict { ints: ints.into_iter().collect(), floats }
    })
}

impl Gen {
    pub fn fresh(seed: u64) -> Gen {
        Gen {
            tape: Vec::new(),
            pos: 0,
            rng: Some(rand::rngs::SmallRng::seed_from_u64(seed)),
        }
    }
    pub fn replay(t: &[u64]) -> Gen {
        Gen { tape: t.to_vec(), pos: 0, rng: None }
    }
    pub fn into_tape(self) -> Vec<u64> {
        self.tape
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.tape.len())
    }
    pub fn raw(&mut self) -> u64 {
        let v = if self.pos < self.tape.len() {
            self.tape[self.pos]
        } else {
            match &mut self.rng {
                Some(r) => {
                    let v = r.next_u64();
                    self.tape.push(v);
                    v
                }
                None => 0,
            }
        };
        self.pos += 1;
        v
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.raw() as u128 * n as u128) >> 64) as u64
    }
    /// inclusive
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1).max(1) as u64) as i64
    }
    pub fn us(&mut self, a: usize, b: usize) -> usize {
        self.range(a as i64, b as i64) as usize
    }
    /// true with probability p; false is simplest
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() > 1.0 - p
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        let i = self.below(v.len() as u64) as usize;
        v[i].clone()
    }
    pub fn unit(&mut self) -> f64 {
        (self.raw() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uni(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    pub fn sym(&mut self, a: f64) -> f64 {
        let r = self.raw();
        let m = (r >> 11) as f64 / (1u64 << 53) as f64 * a;
        if r & 1 == 1 {
            -m
        } else {
            m
        }
    }
    /// log-uniform, positive
    pub fn log(&mut self, a: f64, b: f64) -> f64 {
        (a.ln() + (b.ln() - a.ln()) * self.unit()).exp()
    }
    pub fn slog(&mut self, a: f64, b: f64) -> f64 {
        let s = self.chance(0.5);
        let x = self.log(a, b);
        if s {
            -x
        } else {
            x
        }
    }
    pub fn dict_float(&mut self) -> f64 {
        let i = self.below(dict().floats.len() as u64) as usize;
        dict().floats[i]
    }
    /// a signed number of ordinary size: zero, nice, dictionary, uniform or spread over scales
    pub fn num(&mut self, scale: f64) -> f64 {
        match self.below(8) {
            0 => 0.0,
            1 => {
                let v = self.pick(&[1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 0.25, 1.5]);
                v * scale
            }
            2 => {
                let f = self.dict_float();
                let s = if self.chance(0.5) { -1.0 } else { 1.0 };
                (s * f).max(-3.0 * scale).min(3.0 * scale)
            }
            3 | 4 | 5 => self.sym(scale),
            6 => self.slog(1e-6, 1.0) * scale,
            _ => self.sym(3.0 * scale),
        }
    }
    /// positive number in [lo,hi] with the source's own constants mixed in
    pub fn pos_num(&mut self, lo: f64, hi: f64) -> f64 {
        match self.below(5) {
            0 => self.pick::<f64>(&[1.0, 0.5, 2.0, 10.0, 0.1, 0.02, 4.0]).max(lo).min(hi),
            1 => {
                let f = self.dict_float();
                if f >= lo && f <= hi {
                    f
                } else {
                    self.log(lo, hi)
                }
            }
            2 => self.uni(lo, hi),
            _ => self.log(lo, hi),
        }
    }
    pub fn vec3(&mut self, scale: f64) -> V3 {
        match self.below(4) {
            0 => [0.0; 3],
            1 => {
                let k = self.below(3) as usize;
                let mut v = [0.0; 3];
                v[k] = self.num(scale);
                v
            }
            _ => [self.num(scale), self.num(scale), self.num(scale)],
        }
    }
    /// uniform on the sphere
    pub fn sphere(&mut self) -> V3 {
        let z = 1.0 - 2.0 * self.unit();
        let a = 2.0 * std::f64::consts::PI * self.unit();
        let r = (1.0 - z * z).max(0.0).sqrt();
        norm(&[r * a.cos(), r * a.sin(), z])
    }
    /// a unit vector, with axes, poles, coordinate planes and near-axis directions
    pub fn dir(&mut self) -> V3 {
        match self.below(8) {
            0 => {
                let k = self.below(3) as usize;
                let s = if self.chance(0.5) { -1.0 } else { 1.0 };
                let mut v = [0.0; 3];
                v[k] = s;
                v
            }
            1 => {
                // in a coordinate plane
                let k = self.below(3) as usize;
                let a = self.uni(0.0, 2.0 * std::f64::consts::PI);
                let mut v = [0.0; 3];
                v[(k + 1) % 3] = a.cos();
                v[(k + 2) % 3] = a.sin();
                norm(&v)
            }
            2 => {
                // close to an axis
                let k = self.below(3) as usize;
                let s = if self.chance(0.5) { -1.0 } else { 1.0 };
                let mut v = [self.slog(1e-12, 0.3), self.slog(1e-12, 0.3), self.slog(1e-12, 0.3)];
                v[k] = s;
                norm(&v)
            }
            _ => self.sphere(),
        }
    }
    /// chain length: small ones, ordinary ones and the source's own constants
    pub fn size(&mut self, lo: usize, hi: usize, even: bool) -> usize {
        let n = match self.below(6) {
            0 => lo,
            1 => self.us(lo, (lo + 4).min(hi)),
            2 => {
                let d: Vec<i64> = dict()
                    .ints
                    .iter()
                    .cloned()
                    .filter(|x| *x >= lo as i64 && *x <= hi as i64)
                    .collect();
                if d.is_empty() {
                    lo
                } else {
                    self.pick(&d) as usize
                }
            }
            3 => self.us(lo, hi),
            _ => self.us(lo, (lo + 18).min(hi)),
        };
        if even && n % 2 == 1 {
            if n + 1 <= hi {
                n + 1
            } else {
                n - 1
            }
        } else {
            n
        }
    }
    /// subsystem length lo..=n, ends favoured
    pub fn sub(&mut self, lo: usize, n: usize) -> usize {
        let lo = lo.min(n);
        match self.below(6) {
            0 => n,
            1 => lo,
            2 => (lo + 1).min(n),
            3 => n.saturating_sub(1).max(lo),
            _ => self.us(lo, n),
        }
    }
    pub fn spins(&mut self, n: usize) -> Vec<V3> {
        match self.below(8) {
            0 => vec![[0.0, 0.0, 1.0]; n],
            1 => {
                let a = self.dir();
                vec![a; n]
            }
            2 => {
                let a = self.dir();
                (0..n).map(|i| if i % 2 == 0 { a } else { [-a[0], -a[1], -a[2]] }).collect()
            }
            3 => {
                // close to aligned
                let a = self.dir();
                let w = self.log(1e-9, 0.5);
                (0..n)
                    .map(|_| {
                        let b = self.sphere();
                        norm(&[a[0] + w * b[0], a[1] + w * b[1], a[2] + w * b[2]])
                    })
                    .collect()
            }
            4 => (0..n).map(|_| self.dir()).collect(),
            _ => (0..n).map(|_| self.sphere()).collect(),
        }
    }
    pub fn couplings(&mut self, n: usize) -> Vec<V3> {
        match self.below(8) {
            0 => vec![[1.0; 3]; n],
            1 => {
                let l = self.num(2.0);
                vec![[1.0, 1.0, l]; n]
            }
            2 => {
                let v = [self.num(1.0), self.num(1.0), self.num(1.0)];
                vec![v; n]
            }
            3 => {
                let w = self.log(1e-4, 0.5);
                (0..n).map(|_| [1.0 + self.sym(w), 1.0 + self.sym(w), 1.0 + self.sym(w)]).collect()
            }
            4 => vec![[0.0; 3]; n],
            _ => (0..n).map(|_| [self.num(1.0), self.num(1.0), self.num(1.0)]).collect(),
        }
    }
    pub fn fields(&mut self, n: usize) -> Vec<V3> {
        match self.below(6) {
            0 => vec![[0.0; 3]; n],
            1 => {
                let v = self.vec3(1.0);
                vec![v; n]
            }
            _ => (0..n).map(|_| self.vec3(1.0)).collect(),
        }
    }
}

pub fn norm(v: &V3) -> V3 {
    let m = v.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    let w = [v[0] / m, v[1] / m, v[2] / m];
    let n = (w[0] * w[0] + w[1] * w[1] + w[2] * w[2]).sqrt();
    let u = [w[0] / n, w[1] / n, w[2] / n];
    // once more, so that the length is one to the last bit or so
    let n = (u[0] * u[0] + u[1] * u[1] + u[2] * u[2]).sqrt();
    [u[0] / n, u[1] / n, u[2] / n]
}
