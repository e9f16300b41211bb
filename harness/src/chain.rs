//! Chains as plain data, the way to build the real ones from them, and the reference model.
use crate::gen::{Gen, V3};
use crate::util::*;
use sc::config::{Config, DriveType};
use sc::spin::Spin;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ChainCase {
    pub n: usize,
    pub s: usize,
    pub dt: f64,
    pub t: f64,
    pub tau: f64,
    pub e: f64,
    pub beta: f64,
    pub gamma: f64,
    pub lambda: f64,
    pub hs: V3,
    pub drive: u8,
    /// fills options that must not matter
    pub junk: u64,
    pub spins: Vec<V3>,
    pub j: Vec<V3>,
    pub h: Vec<V3>,
}

pub fn drive_of(d: u8) -> DriveType {
    match d {
        0 => DriveType::none,
        1 => DriveType::xyplane,
        2 => DriveType::uniaxial,
        3 => DriveType::xyelliptic,
        _ => DriveType::staticfield,
    }
}
pub fn drive_name(d: u8) -> &'static str {
    match d {
        0 => "none",
        1 => "xyplane",
        2 => "uniaxial",
        3 => "xyelliptic",
        _ => "staticfield",
    }
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub nmin: usize,
    pub nmax: usize,
    pub smin: usize,
    pub even: bool,
    pub drives: &'static [u8],
    pub dtmax: f64,
    pub negdt: bool,
    /// other units of energy and time, where no drive sets the scale
    pub units: bool,
}
impl Default for Opts {
    fn default() -> Opts {
        Opts { nmin: 2, nmax: 40, smin: 1, even: true, drives: &[0, 1, 2, 3, 4], dtmax: 1.0, negdt: false, units: false }
    }
}

impl ChainCase {
    pub fn gen(g: &mut Gen, o: &Opts) -> ChainCase {
        let n = g.size(o.nmin, o.nmax, o.even);
        let s = g.sub(o.smin, n);
        let drive = g.pick(o.drives);
        let mut dt = g.pos_num(1e-4, o.dtmax);
        if o.negdt && g.chance(0.2) {
            dt = -dt;
        }
        let tau = g.pos_num(0.05, 200.0);
        let t = match g.below(6) {
            0 => 0.0,
            1 => tau * g.range(-8, 8) as f64,
            2 => tau * 0.25 * g.range(-9, 9) as f64,
            3 => -dt / 2.0,
            4 => g.slog(1e-3, 1e3),
            _ => g.sym(300.0),
        };
        let e = g.num(1.0);
        let beta = g.pos_num(0.01, 50.0);
        let gamma = g.pos_num(0.01, 2.0);
        let lambda = g.num(1.0);
        let hs = g.vec3(1.0);
        let junk = g.raw();
        let j = g.couplings(n);
        let h = g.fields(n);
        let spins = g.spins(n);
        let mut c = ChainCase { n, s, dt, t, tau, e, beta, gamma, lambda, hs, drive, junk, spins, j, h };
        if o.units && (drive == 0 || drive == 4) && g.chance(0.1) {
            // another unit of energy, and mostly the matching unit of time
            let k = g.log(1e-9, 1e6);
            let matching = k > 1.0 || g.chance(0.7);
            c.rescale(k, if matching { 1.0 / k } else { 1.0 });
        }
        c
    }
    /// energies times k, the time step times u
    pub fn rescale(&mut self, k: f64, u: f64) {
        self.j.iter_mut().for_each(|v| *v = scale(v, k));
        self.h.iter_mut().for_each(|v| *v = scale(v, k));
        self.hs = scale(&self.hs, k);
        self.dt *= u;
    }
    pub fn conf(&self) -> Config {
        let r = |k: u64, m: u64| -> u64 {
            let x = self.junk.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(k.wrapping_mul(0xD1B54A32D192ED03));
            ((x ^ (x >> 31)).wrapping_mul(0xBF58476D1CE4E5B9) >> 20) % m
        };
        Config {
            hsize: self.n as i32,
            ssize: self.s as i32,
            t: r(1, 1000) as f64 - 200.0,
            dt: self.dt,
            runs: r(2, 7) as i32,
            trel: r(3, 100) as f64 - 30.0,
            threads: 1 + r(4, 5) as usize,
            tau: self.tau,
            lambda: self.lambda,
            hfield: vec![r(5, 9) as f64 - 4.0, r(6, 9) as f64 - 4.0, r(7, 9) as f64 - 4.0],
            hs: self.hs.to_vec(),
            jvar: r(8, 10) as f64 * 0.1,
            hvar: r(9, 10) as f64 * 0.1,
            method: 1 + r(10, 4) as i32,
            ednsty: -(r(11, 10) as f64) * 0.1,
            file: "x".to_string(),
            strob: r(12, 2) == 1,
            offset: r(13, 9) as u32,
            beta: self.beta,
            mc_points: r(14, 1000) as usize,
            e: self.e,
            drive: drive_of(self.drive),
            log: r(15, 2) == 1,
        }
    }
    fn base_conf(&self) -> Config {
        Config {
            hsize: self.n as i32,
            ssize: self.s as i32,
            beta: 1.0,
            jvar: 0.0,
            log: false,
            ..Config::default()
        }
    }
    pub fn build(&self) -> SpinChain {
        let mut c = SpinChain::new(self.base_conf(), 0);
        c.vars = self.conf();
        c.t = self.t;
        c.j_couple = self.j.clone();
        c.static_h = self.h.clone();
        c.spins = to_spins(&self.spins);
        c
    }
    /// `file` is the prefix of the log file (the Langevin chain always makes one)
    pub fn build_langevin(&self, file: &str) -> SpinChainLangevin {
        let mut conf = self.base_conf();
        conf.file = file.to_string();
        let mut c = SpinChainLangevin::new(conf, 0, self.gamma);
        c.vars = self.conf();
        c.t = self.t;
        c.gamma = self.gamma;
        *c.verif_couplings() = self.j.clone();
        c.static_h = self.h.clone();
        c.spins = to_spins(&self.spins);
        c
    }
    pub fn drive_at(&self, t: f64) -> V3 {
        let p = 2.0 * PI * t / self.tau;
        match self.drive {
            0 => [0.0; 3],
            1 => [p.cos(), p.sin(), 0.0],
            2 => [p.cos(), 0.0, 0.0],
            3 => [p.cos(), self.e * p.sin(), 0.0],
            _ => self.hs,
        }
    }
    /// static field plus drive on the subsystem
    pub fn fields_at(&self, t: f64) -> Vec<V3> {
        let d = self.drive_at(t);
        (0..self.n).map(|i| if i < self.s { add(&self.h[i], &d) } else { self.h[i] }).collect()
    }
    /// drive only, on the subsystem
    pub fn drive_fields_at(&self, t: f64) -> Vec<V3> {
        let d = self.drive_at(t);
        (0..self.n).map(|i| if i < self.s { d } else { [0.0; 3] }).collect()
    }
    pub fn jmax(&self) -> f64 {
        self.j.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()))
    }
    pub fn hmax(&self) -> f64 {
        let d = match self.drive {
            0 => 0.0,
            3 => 1.0f64.max(self.e.abs()),
            4 => self.hs.iter().fold(0.0f64, |a, x| a.max(x.abs())),
            _ => 1.0,
        };
        d + self.h.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()))
    }
    pub fn scale(&self) -> f64 {
        2.0 * self.jmax() + self.hmax()
    }
    /// rounding to expect of one step: relative to rotation angle and drive phase
    pub fn step_tol(&self, t: f64) -> f64 {
        let k = self.dt.abs() * 2.0 * self.scale();
        let phase = if self.drive == 1 || self.drive == 2 || self.drive == 3 {
            8.0 * EPS * (2.0 * PI * (t.abs() + self.dt.abs()) / self.tau) * (1.0 + self.e.abs())
        } else {
            0.0
        };
        (2e-14 + phase) * (1.0 + k).powi(3)
    }
}

pub fn to_spins(v: &[V3]) -> Vec<Spin> {
    v.iter().map(|d| Spin { dir: *d }).collect()
}
pub fn dirs(v: &[Spin]) -> Vec<V3> {
    v.iter().map(|s| s.dir).collect()
}

/// Local field of site i: J_l S_l + J_r S_r - B on the ring.
pub fn omega(s: &[V3], j: &[V3], b: &[V3], i: usize) -> V3 {
    let n = s.len();
    let l = (i + n - 1) % n;
    let r = (i + 1) % n;
    sub(&add(&mul(&j[l], &s[l]), &mul(&j[i], &s[r])), &b[i])
}
/// Even half step, odd full step, even half step, on the ring.
pub fn model_step(s: &[V3], j: &[V3], b: &[V3], dt: f64) -> Vec<V3> {
    let mut s = s.to_vec();
    let n = s.len();
    for (par, w) in [(0usize, 0.5), (1, 1.0), (0, 0.5)].iter() {
        let old = s.clone();
        for i in (*par..n).step_by(2) {
            let om = omega(&old, j, b, i);
            s[i] = precess(&old[i], &om, dt * w);
        }
    }
    s
}
pub fn max_dist(a: &[V3], b: &[V3]) -> (f64, usize) {
    let mut m = (0.0, 0);
    if a.len() != b.len() {
        return (f64::INFINITY, a.len().min(b.len()));
    }
    for i in 0..a.len() {
        let d = dist(&a[i], &b[i]);
        if !(d <= m.0) {
            m = (d, i);
        }
    }
    m
}
pub fn bond(a: &V3, j: &V3, b: &V3) -> f64 {
    a[0] * j[0] * b[0] + a[1] * j[1] * b[1] + a[2] * j[2] * b[2]
}
/// Total (not per site) ring energy with the given fields.
pub fn ring_energy(s: &[V3], j: &[V3], b: &[V3]) -> f64 {
    let n = s.len();
    let mut e = 0.0;
    for i in 0..n {
        e -= bond(&s[i], &j[i], &s[(i + 1) % n]);
        e += dot(&s[i], &b[i]);
    }
    e
}
pub fn open_energy(s: &[V3], j: &[V3], b: &[V3]) -> f64 {
    let n = s.len();
    let mut e = 0.0;
    for i in 0..n {
        if i + 1 < n {
            e -= bond(&s[i], &j[i], &s[i + 1]);
        }
        e += dot(&s[i], &b[i]);
    }
    e
}
pub fn sum(v: &[V3]) -> V3 {
    v.iter().fold([0.0; 3], |a, x| add(&a, x))
}

// ---------------------------------------------------------------- scratch files

pub fn scratch() -> &'static str {
    static D: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let root = std::env::var("SC_WORK").unwrap_or_else(|_| "/verif/.work".to_string());
        let d = format!("{}/run-{}", root, std::process::id());
        let _ = std::fs::create_dir_all(&d);
        d
    })
}
pub fn fresh_name(tag: &str) -> String {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    format!("{}/{}{}-", scratch(), tag, N.fetch_add(1, Ordering::SeqCst))
}
pub fn fresh_dir(tag: &str) -> String {
    let d = fresh_name(tag);
    let _ = std::fs::create_dir_all(&d);
    d
}
