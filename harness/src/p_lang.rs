//! L01-L03: the Langevin chain.
use crate::chain::*;
use crate::engine::*;
use crate::gen::*;
use crate::util::*;
use crate::{ensure, harness};
use sc::spinchain_langevin::SpinChainLangevin;
use serde::{Deserialize, Serialize};

/// a Langevin chain that removes its log file
struct Lang {
    x: SpinChainLangevin,
    p: String,
}
impl Lang {
    fn new(c: &ChainCase) -> Lang {
        let p = fresh_name("lang");
        Lang { x: c.build_langevin(&p), p }
    }
    fn set(&mut self, s: &[V3]) {
        for (a, b) in self.x.spins.iter_mut().zip(s) {
            a.dir = *b;
        }
    }
}
impl Drop for Lang {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(format!("{}0.dat", self.p));
    }
}

/// Local field of the open chain.
fn omega_open(s: &[V3], j: &[V3], b: &[V3], i: usize) -> V3 {
    let n = s.len();
    let mut w = [0.0; 3];
    if i > 0 {
        w = add(&w, &mul(&j[i - 1], &s[i - 1]));
    }
    if i + 1 < n {
        w = add(&w, &mul(&j[i], &s[i + 1]));
    }
    sub(&w, &b[i])
}
/// One step of the damped open chain with the given total kicks of the two ends.
fn open_step(c: &ChainCase, s: &[V3], t: f64, gamma: f64, kl: &V3, kr: &V3) -> Vec<V3> {
    let n = s.len();
    let b = c.fields_at(t + c.dt);
    let mut s = s.to_vec();
    for (par, w) in [(0usize, 0.5), (1, 1.0), (0, 0.5)].iter() {
        let old = s.clone();
        for i in (*par..n).step_by(2) {
            let om = omega_open(&old, &c.j, &b, i);
            let mut f = om;
            if i == 0 {
                f = sub(&sub(&f, &scale(&cross(&old[i], &om), gamma)), &scale(kl, 1.0 / c.dt));
            }
            if i == n - 1 {
                f = sub(&sub(&f, &scale(&cross(&old[i], &om), gamma)), &scale(kr, 1.0 / c.dt));
            }
            s[i] = precess(&old[i], &f, c.dt * w);
        }
    }
    s
}

// ---------------------------------------------------------------- L01

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct StepCase {
    c: ChainCase,
    steps: u32,
    cold: bool,
    seed: u64,
}
fn gen_open(g: &mut Gen, o: &Opts, smax: usize) -> StepCase {
    let mut c = ChainCase::gen(g, o);
    let cold = g.chance(0.6);
    if cold {
        c.beta = f64::MAX; // stands for infinity, which JSON cannot hold
    } else {
        c.gamma = 0.0;
    }
    StepCase { c, steps: g.us(1, smax) as u32, cold, seed: g.raw() }
}
fn gen_step(g: &mut Gen) -> StepCase {
    gen_open(g, &Opts::default(), 6)
}
fn gen_step_big(g: &mut Gen) -> StepCase {
    gen_open(g, &Opts { nmin: 42, nmax: 1000, ..Opts::default() }, 3)
}
fn gen_step_long(g: &mut Gen) -> StepCase {
    let mut s = gen_open(g, &Opts { nmax: 8, dtmax: 0.5, ..Opts::default() }, 3000);
    s.steps = s.steps.max(200);
    s
}
fn step_tol(c: &ChainCase, t: f64) -> f64 {
    let k = c.dt.abs() * 2.0 * c.scale() * (1.0 + c.gamma);
    c.step_tol(t) * (1.0 + k).powi(3)
}
fn check_step(k: &StepCase) -> Outcome {
    let c = &k.c;
    let mut l = Lang::new(c);
    if k.cold {
        l.x.vars.beta = f64::INFINITY;
    }
    rand::verif::seed(k.seed);
    let mut any = false;
    for q in 0..k.steps {
        let t = l.x.t;
        let old = dirs(&l.x.spins);
        let want = open_step(c, &old, t, c.gamma, &[0.0; 3], &[0.0; 3]);
        l.x.update();
        let got = dirs(&l.x.spins);
        let (d, i) = max_dist(&got, &want);
        let tol = step_tol(c, t);
        ensure!(
            d <= tol,
            "noise-free Langevin step {} from t = {} (n = {}, subsystem {}, dt = {}, gamma = {}, drive {}): spin {} is {:?}, expected {:?} (off by {:e}, tolerance {:e})",
            q, t, c.n, c.s, c.dt, c.gamma, drive_name(c.drive), i, got.get(i), want.get(i), d, tol
        );
        ensure!((l.x.t - (t + c.dt)).abs() <= 2.0 * EPS * (t.abs() + c.dt.abs()), "time {} -> {} in a step of {}", t, l.x.t, c.dt);
        any |= max_dist(&old, &got).0 > 1e-12;
    }
    Ok(Info::nt(any).label(if k.cold { "damped, no noise" } else { "gamma = 0" }).label(drive_name(c.drive)).label_if(c.n == 2, "two spins").label_if(c.s < c.n && c.drive != 0, "drive on part of the chain"))
}
fn gen_cons(g: &mut Gen) -> StepCase {
    let o = Opts { drives: &[0, 4], dtmax: 2.0, units: true, ..Opts::default() };
    let mut c = ChainCase::gen(g, &o);
    c.gamma = 0.0;
    let steps = if g.chance(0.1) { g.us(100, 2000) } else { g.us(1, 60) } as u32;
    StepCase { c, steps, cold: false, seed: g.raw() }
}
fn check_cons(k: &StepCase) -> Outcome {
    let c = &k.c;
    let mut l = Lang::new(c);
    let b = c.fields_at(c.t);
    let e0 = open_energy(&c.spins, &c.j, &b);
    rand::verif::seed(k.seed);
    for _ in 0..k.steps {
        l.x.update();
    }
    let e1 = open_energy(&dirs(&l.x.spins), &c.j, &b);
    let tol = 1e-14 * c.n as f64 * c.scale() * (4.0 + k.steps as f64) + 1e-13 * c.scale();
    ensure!((e1 - e0).abs() <= tol, "open-chain energy {} -> {} after {} steps of {} without bath or drive work (n = {})", e0, e1, k.steps, c.dt, c.n);
    // reproducible: another stream of random numbers changes nothing
    let mut m = Lang::new(c);
    rand::verif::seed(!k.seed);
    for _ in 0..k.steps {
        m.x.update();
    }
    for i in 0..c.n {
        let (p, q) = (l.x.spins[i].dir, m.x.spins[i].dir);
        ensure!((0..3).all(|a| p[a] == q[a]), "without coupling to the bath spin {} depends on the random numbers: {:?} and {:?}", i, p, q);
    }
    Ok(Info::nt(max_dist(&c.spins, &dirs(&l.x.spins)).0 > 1e-9).label_if(k.steps >= 100, "100 steps or more").label_if(c.drive == 4, "static drive"))
}

/// Rotation vector of the rotation taking the axes to the given triple (sense of dS/dt = S x f).
fn rot_vec(x: &V3, y: &V3, z: &V3) -> V3 {
    // columns of the matrix; for S -> precess(S, f, 1): antisymmetric part is -sin|f| f/|f|
    let a = [z[1] - y[2], x[2] - z[0], y[0] - x[1]];
    let sin = 0.5 * len(&a);
    let cos = 0.5 * (x[0] + y[1] + z[2] - 1.0);
    if sin < 1e-300 {
        return [0.0; 3];
    }
    // R_ij antisymmetric part for a left-handed turn
    let ang = sin.atan2(cos);
    scale(&a, ang / (2.0 * sin))
}
/// Kicks of the two ends in `m` consecutive steps, seen on free spins (no couplings, no fields).
fn kicks(c: &ChainCase, seed: u64, m: usize) -> Result<Vec<(V3, V3)>, Fail> {
    Ok(turns(c, seed, m)?.iter().map(|o| (rot_vec(&o[0][0], &o[0][1], &o[0][2]), rot_vec(&o[1][0], &o[1][1], &o[1][2]))).collect())
}
/// where the kicks of each step take the three axes, at the left and at the right end
fn turns(c: &ChainCase, seed: u64, m: usize) -> Result<Vec<[[V3; 3]; 2]>, Fail> {
    let mut f = c.clone();
    f.j = vec![[0.0; 3]; c.n];
    f.h = vec![[0.0; 3]; c.n];
    f.drive = 0;
    let mut l = Lang::new(&f);
    let ax: [V3; 3] = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
    let mut out: Vec<[[V3; 3]; 2]> = vec![[[[0.0; 3]; 3]; 2]; m];
    let mut used = None;
    for a in 0..3 {
        let s = vec![ax[a]; c.n];
        rand::verif::seed(seed);
        for k in 0..m {
            l.set(&s);
            l.x.update();
            out[k][0][a] = l.x.spins[0].dir;
            out[k][1][a] = l.x.spins[c.n - 1].dir;
            for i in 1..c.n - 1 {
                ensure!(l.x.spins[i].dir == ax[a], "a free inner spin ({} of {}) moves from {:?} to {:?}", i, c.n, ax[a], l.x.spins[i].dir);
            }
        }
        let n = rand::verif::count();
        if let Some(u) = used {
            // rejection sampling may redraw, but the same stream must be used the same way
            harness!(u == n, "random numbers are used differently for different spins; kicks cannot be recovered");
        }
        used = Some(n);
    }
    Ok(out)
}
fn noise_case(g: &mut Gen, o: &Opts) -> ChainCase {
    let mut c = ChainCase::gen(g, o);
    // sigma^2 = 2 gamma dt / beta, kept where the rotation vector is below pi
    let sig = g.log(1e-3, 0.4);
    c.gamma = g.log(0.01, 3.0);
    c.dt = g.log(1e-3, 0.5);
    c.beta = 2.0 * c.gamma * c.dt / (sig * sig);
    c
}
fn gen_noisy(g: &mut Gen) -> StepCase {
    let c = noise_case(g, &Opts { nmax: 24, ..Opts::default() });
    StepCase { c, steps: g.us(1, 8) as u32, cold: false, seed: g.raw() }
}
fn check_noisy(k: &StepCase) -> Outcome {
    let c = &k.c;
    let ks = kicks(c, k.seed, k.steps as usize)?;
    let mut l = Lang::new(c);
    rand::verif::seed(k.seed);
    let mut big = 0.0f64;
    for (q, (kl, kr)) in ks.iter().enumerate() {
        // free spins turn about minus the kick
        let (kl, kr) = (scale(kl, -1.0), scale(kr, -1.0));
        let t = l.x.t;
        let old = dirs(&l.x.spins);
        let want = open_step(c, &old, t, c.gamma, &kl, &kr);
        l.x.update();
        let got = dirs(&l.x.spins);
        let (d, i) = max_dist(&got, &want);
        let tol = step_tol(c, t) * 4.0 + 1e-12;
        ensure!(
            d <= tol,
            "Langevin step {} from t = {} (n = {}, dt = {}, gamma = {}, beta = {}, kicks {:?} and {:?} seen on free spins): spin {} is {:?}, expected {:?} (off by {:e})",
            q, t, c.n, c.dt, c.gamma, c.beta, kl, kr, i, got.get(i), want.get(i), d
        );
        big = big.max(len(&kl)).max(len(&kr));
    }
    Ok(Info::nt(big > 1e-3).label_if(c.n == 2, "two spins").label(drive_name(c.drive)))
}
/// inner spins, bit for bit
fn gen_inner(g: &mut Gen) -> (StepCase, f64, f64, u64) {
    let mut c = noise_case(g, &Opts { nmin: 6, nmax: 40, ..Opts::default() });
    if g.chance(0.3) {
        c.gamma = 0.0;
    }
    (StepCase { c, steps: 1, cold: false, seed: g.raw() }, g.log(0.01, 2.0), g.log(0.01, 50.0), g.raw())
}
fn check_inner(k: &(StepCase, f64, f64, u64)) -> Outcome {
    let c = &k.0.c;
    let mut a = Lang::new(c);
    rand::verif::seed(k.0.seed);
    a.x.update();
    let mut d = c.clone();
    d.gamma = k.1;
    d.beta = k.2;
    let mut b = Lang::new(&d);
    rand::verif::seed(k.3);
    b.x.update();
    for i in 3..c.n - 2 {
        let (p, q) = (a.x.spins[i].dir, b.x.spins[i].dir);
        ensure!((0..3).all(|x| p[x] == q[x]), "inner spin {} of {} feels the bath within one step: {:?} and {:?}", i, c.n, p, q);
    }
    // no coupling joins the ends: the last coupling does not matter at all
    let mut e = c.clone();
    e.j[c.n - 1] = [k.1, -k.2, 0.7];
    let mut b = Lang::new(&e);
    rand::verif::seed(k.0.seed);
    b.x.update();
    for i in 0..c.n {
        let (p, q) = (a.x.spins[i].dir, b.x.spins[i].dir);
        ensure!((0..3).all(|x| p[x] == q[x]), "spin {} of {} feels a coupling between the ends: {:?} and {:?}", i, c.n, p, q);
    }
    Ok(Info::nt(max_dist(&c.spins, &dirs(&a.x.spins)).0 > 1e-9))
}
pub fn l01() -> Property {
    Property {
        id: "L01",
        families: vec![
            Family::new("step", 200000, 3000000, gen_step, check_step, "at least one spin moves").boxed(),
            Family::new("step-large", 12000, 150000, gen_step_big, check_step, "at least one spin moves (42 to 1000 spins)").boxed(),
            Family::new("step-long", 2000, 30000, gen_step_long, check_step, "at least one spin moves (200 to 3000 consecutive steps)").shrink(300).boxed(),
            Family::new("energy", 60000, 800000, gen_cons, check_cons, "the state changes").boxed(),
            Family::new("noisy-step", 60000, 800000, gen_noisy, check_noisy, "an end spin is kicked by more than 1e-3").boxed(),
            Family::new("inner", 90000, 1000000, gen_inner, check_inner, "the state changes").boxed(),
        ],
        assumptions: vec!["chains of even length", "couplings are set through the guarded hook"],
    }
}

// ---------------------------------------------------------------- L02

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct LawCase {
    c: ChainCase,
    seed: u64,
}
fn gen_law(g: &mut Gen) -> LawCase {
    LawCase { c: noise_case(g, &Opts { nmax: 6, ..Opts::default() }), seed: g.raw() }
}
const P_MIN: f64 = 1e-11;
fn check_law(k: &LawCase) -> Outcome {
    let c = &k.c;
    let m = 4000;
    let ks = kicks(c, k.seed, m)?;
    let sig = (2.0 * c.gamma * c.dt / c.beta).sqrt();
    let names = ["left x", "left y", "left z", "right x", "right y", "right z"];
    let v: Vec<[f64; 6]> = ks.iter().map(|(l, r)| [l[0] / sig, l[1] / sig, l[2] / sig, r[0] / sig, r[1] / sig, r[2] / sig]).collect();
    for a in 0..6 {
        let mut u: Vec<f64> = v.iter().map(|x| cdf_norm(x[a])).collect();
        let p = p_ks_uniform(&mut u);
        let ms: f64 = v.iter().map(|x| x[a] * x[a]).sum::<f64>() / m as f64;
        ensure!(
            p > P_MIN,
            "{} kicks are not normal with variance 2 gamma dt / beta = {:e} (gamma = {}, dt = {}, beta = {}): p = {:e}, mean square {} of that",
            names[a], sig * sig, c.gamma, c.dt, c.beta, p, ms
        );
        ensure!(((ms - 1.0) * (m as f64 / 2.0).sqrt()).abs() < 9.0, "{} kicks have mean square {} times 2 gamma dt / beta (gamma = {}, dt = {}, beta = {})", names[a], ms, c.gamma, c.dt, c.beta);
        for b in 0..6 {
            let r: f64 = (1..m).map(|i| v[i - 1][a] * v[i][b]).sum::<f64>() / (m as f64).sqrt();
            ensure!(r.abs() < 8.5, "{} kicks depend on the {} kicks of the step before ({:.1} standard errors)", names[b], names[a], r);
            if b < a {
                let r: f64 = v.iter().map(|x| x[a] * x[b]).sum::<f64>() / (m as f64).sqrt();
                ensure!(r.abs() < 8.5, "{} and {} kicks of a step are correlated ({:.1} standard errors)", names[a], names[b], r);
                let r: f64 = v.iter().map(|x| (x[a] * x[a] - 1.0) * (x[b] * x[b] - 1.0) / 2.0).sum::<f64>() / (m as f64).sqrt();
                ensure!(r.abs() < 12.0, "sizes of {} and {} kicks of a step are correlated ({:.1} standard errors)", names[a], names[b], r);
            }
        }
    }
    Ok(Info::nt(true).label_if(c.n == 2, "two spins"))
}
/// kicks of the size of a turn and more: only the rotation they make can be seen
fn gen_law_big(g: &mut Gen) -> LawCase {
    let mut c = ChainCase::gen(g, &Opts { nmax: 6, ..Opts::default() });
    let sig = g.log(0.3, 60.0);
    c.gamma = g.log(1e-3, 10.0);
    c.dt = g.log(1e-3, 2.0);
    c.beta = 2.0 * c.gamma * c.dt / (sig * sig);
    LawCase { c, seed: g.raw() }
}
/// distribution function of the length of a normal vector with deviation 1 per component
fn cdf_maxwell(x: f64) -> f64 {
    2.0 * cdf_norm(x) - 1.0 - (2.0 / PI).sqrt() * x * (-0.5 * x * x).exp()
}
/// angle in [0, pi] and axis of the rotation that takes the three axes to `m`
fn turn(m: &[V3; 3]) -> (f64, V3) {
    let tr = m[0][0] + m[1][1] + m[2][2];
    let v = [m[1][2] - m[2][1], m[2][0] - m[0][2], m[0][1] - m[1][0]];
    let s = len(&v);
    (s.atan2(tr - 1.0), if s > 0.0 { scale(&v, 1.0 / s) } else { [0.0; 3] })
}
fn check_law_big(k: &LawCase) -> Outcome {
    let c = &k.c;
    let m = 4000;
    let sig = (2.0 * c.gamma * c.dt / c.beta).sqrt();
    let fold = |a: f64| -> f64 {
        let top = (9.0 * sig / (2.0 * PI)) as usize + 1;
        let mut p = cdf_maxwell(a / sig);
        for q in 1..=top {
            let w = 2.0 * PI * q as f64;
            p += cdf_maxwell((w + a) / sig) - cdf_maxwell((w - a) / sig);
        }
        p
    };
    let ks = turns(c, k.seed, m)?;
    let mut u: Vec<[f64; 8]> = vec![];
    for t in &ks {
        let mut x = [0.0; 8];
        for e in 0..2 {
            let (a, ax) = turn(&t[e]);
            x[4 * e] = fold(a);
            for q in 0..3 {
                x[4 * e + 1 + q] = 0.5 * (1.0 + ax[q]);
            }
        }
        u.push(x);
    }
    let names = ["left angle", "left axis x", "left axis y", "left axis z", "right angle", "right axis x", "right axis y", "right axis z"];
    for a in 0..8 {
        let mut w: Vec<f64> = u.iter().map(|x| x[a]).collect();
        let p = p_ks_uniform(&mut w);
        ensure!(p > P_MIN, "the {} of the rotations that a step's kicks make is not that of normal kicks with variance 2 gamma dt / beta = {:e} (gamma = {}, dt = {}, beta = {}): p = {:e}", names[a], sig * sig, c.gamma, c.dt, c.beta, p);
        for b in 0..8 {
            let r: f64 = (1..m).map(|i| 12.0 * (u[i - 1][a] - 0.5) * (u[i][b] - 0.5)).sum::<f64>() / (m as f64).sqrt();
            ensure!(r.abs() < 8.5, "the {} depends on the {} of the step before ({:.1} standard errors)", names[b], names[a], r);
            if b < a {
                let r: f64 = u.iter().map(|x| 12.0 * (x[a] - 0.5) * (x[b] - 0.5)).sum::<f64>() / (m as f64).sqrt();
                ensure!(r.abs() < 8.5, "the {} and the {} of a step are correlated ({:.1} standard errors)", names[a], names[b], r);
            }
        }
    }
    Ok(Info::nt(true).label_if(c.n == 2, "two spins").label(if sig < 1.0 { "deviation below one" } else if sig < PI { "deviation 1 to pi" } else { "deviation above pi" }))
}
fn gen_cool(g: &mut Gen) -> StepCase {
    let mut c = ChainCase::gen(g, &Opts { nmax: 20, drives: &[0, 4], ..Opts::default() });
    c.gamma = g.log(0.01, 2.0);
    c.dt = 0.05 / ((1.0 + c.gamma) * (c.scale() + 1e-3)) * g.log(0.01, 1.0);
    StepCase { c, steps: g.us(5, 200) as u32, cold: true, seed: g.raw() }
}
fn check_cool(k: &StepCase) -> Outcome {
    let c = &k.c;
    let b = c.fields_at(c.t);
    let mut l = Lang::new(c);
    l.x.vars.beta = f64::INFINITY;
    rand::verif::seed(k.seed);
    let mut e = open_energy(&c.spins, &c.j, &b);
    let e0 = e;
    let tol = 2e-14 * c.n as f64 * (c.scale() + 1e-3) + 1e-13 * c.scale();
    for q in 0..k.steps {
        l.x.update();
        let f = open_energy(&dirs(&l.x.spins), &c.j, &b);
        ensure!(f <= e + tol, "without noise the energy rises {} -> {} in step {} (gamma = {}, dt = {}, n = {})", e, f, q, c.gamma, c.dt, c.n);
        e = f;
    }
    Ok(Info::nt(e0 - e > 1e-6 * c.scale()).label_if(c.n == 2, "two spins"))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct BathCase {
    n: usize,
    s: usize,
    beta: f64,
    gamma: f64,
    /// independent spins in a field instead of an isotropic chain
    free: bool,
    h: [V3; 2],
    start: u8,
    seed: u64,
}
fn gen_bath(g: &mut Gen) -> BathCase {
    let free = g.chance(0.3);
    let n = if free { 2 } else { g.pick(&[2usize, 2, 4, 4, 6]) };
    let mut h = [[0.0; 3]; 2];
    for v in h.iter_mut() {
        *v = scale(&g.dir(), g.uni(0.3, 1.5));
    }
    BathCase { n, s: g.us(2, n), beta: g.log(0.3, 6.0), gamma: g.log(0.4, 1.5), free, h, start: g.below(3) as u8, seed: g.raw() }
}
fn check_bath(k: &BathCase) -> Outcome {
    let n = k.n;
    let dt = 0.03;
    let mut c = ChainCase { n, s: k.s, dt, t: 0.0, tau: 10.0, e: 0.5, beta: k.beta, gamma: k.gamma, lambda: 1.0, hs: [0.0; 3], drive: 0, junk: 0, spins: vec![[0.0, 0.0, 1.0]; n], j: vec![[1.0; 3]; n], h: vec![[0.0; 3]; n] };
    if k.free {
        c.j = vec![[0.0; 3]; n];
        c.h = k.h.to_vec();
    }
    c.spins = (0..n)
        .map(|i| match k.start {
            0 => [0.0, 0.0, 1.0],
            1 => [0.0, 0.0, if i % 2 == 0 { 1.0 } else { -1.0 }],
            _ => [1.0, 0.0, 0.0],
        })
        .collect();
    let mut l = Lang::new(&c);
    rand::verif::seed(k.seed);
    // independent segments: chains restarted from the start state
    let seg = 40;
    let steps = 6000 * n / 2;
    let burn = 1500 * n;
    let mut v: Vec<[f64; 3]> = vec![];
    for _ in 0..seg {
        l.set(&c.spins);
        let mut a = [0.0; 3];
        for q in 0..burn + steps {
            l.x.update();
            if q >= burn {
                let s = &l.x.spins;
                if k.free {
                    a[0] += dot(&s[0].dir, &c.h[0]);
                    a[1] += dot(&s[1].dir, &c.h[1]);
                } else {
                    a[0] -= dot(&s[0].dir, &s[1].dir);
                    a[1] -= dot(&s[n - 2].dir, &s[n - 1].dir);
                    a[2] -= dot(&s[n / 2 - 1].dir, &s[n / 2].dir);
                }
            }
        }
        v.push(scale(&a, 1.0 / steps as f64));
    }
    for (q, name) in ["left end", "right end", "middle bond"].iter().enumerate() {
        let want = if k.free {
            if q == 2 {
                continue;
            }
            let b = len(&c.h[q]);
            -b * langevin(k.beta * b)
        } else {
            -langevin(k.beta)
        };
        let m = v.iter().map(|x| x[q]).sum::<f64>() / seg as f64;
        let var = v.iter().map(|x| (x[q] - m).powi(2)).sum::<f64>() / (seg - 1) as f64;
        let se = (var / seg as f64).sqrt();
        let tol = 7.0 * se + 0.012;
        ensure!(
            (m - want).abs() <= tol,
            "the bath drives the {} energy ({}) to {:.4} +- {:.4} at beta = {}, gamma = {}, n = {}; the canonical value is {:.4}",
            name, if k.free { "free spins in a field" } else { "isotropic open chain" }, m, se, k.beta, k.gamma, n, want
        );
    }
    Ok(Info::nt(true).label(if k.free { "free spins in a field" } else { "isotropic chain" }).label(format!("start {}", k.start)))
}
pub fn l02() -> Property {
    Property {
        id: "L02",
        families: vec![
            Family::new("kicks", 2700, 40000, gen_law, check_law, "every case counts: 4000 steps' kicks on both ends").shrink(60).boxed(),
            Family::new("large-kicks", 1500, 20000, gen_law_big, check_law_big, "every case counts: 4000 steps' kicks on both ends").shrink(60).boxed(),
            Family::new("cooling", 36000, 400000, gen_cool, check_cool, "the bath removed a visible amount of energy").boxed(),
            Family::new("noisy-step", 60000, 400000, gen_noisy, check_noisy, "an end spin is kicked by more than 1e-3").boxed(),
            Family::new("canonical", 120, 2000, gen_bath, check_bath, "every case counts: 40 runs to equilibrium").shrink(10).shard_size(1).boxed(),
        ],
        assumptions: vec!["kicks are recovered as rotation vectors of free spins, below pi", "canonical averages are taken at dt = 0.03, whose bias is allowed for by 0.012"],
    }
}

// ---------------------------------------------------------------- L03

fn drive_slope(c: &ChainCase, t: f64) -> V3 {
    let p = 2.0 * PI * t / c.tau;
    match c.drive {
        1 => [-p.sin(), p.cos(), 0.0],
        2 => [-p.sin(), 0.0, 0.0],
        3 => [-p.sin(), c.e * p.cos(), 0.0],
        _ => [0.0; 3],
    }
}
struct Vals {
    total: f64,
    sys: f64,
    m: V3,
    mt: V3,
    bt: f64,
    tol: [f64; 4],
}
fn vals(c: &ChainCase, s: &[V3], t: f64) -> Vals {
    let b = c.fields_at(t);
    let n = c.n as f64;
    let mut sys = 0.0;
    for i in 0..c.s - 1 {
        sys += dot(&s[i], &b[i]) - bond(&s[i], &c.j[i], &s[i + 1]);
    }
    let m = sum(&s[..c.s]);
    let d = c.drive_at(t);
    let w1 = sub(&mul(&c.j[0], &s[1]), &d);
    let w2 = sub(&mul(&c.j[c.s - 2], &s[c.s - 2]), &d);
    let (a, z) = (&s[0], &s[c.s - 1]);
    let cr = |a: &V3, w: &V3| dot(&cross(a, w), &cross(a, w));
    let hp = drive_slope(c, t);
    let bt = 2.0 * c.gamma / c.beta * (dot(&w1, a) + dot(&w2, z)) - c.gamma * (cr(a, &w1) + cr(z, &w2)) + 2.0 * PI / c.tau * dot(&hp, &m);
    let phase = 8.0 * EPS * (2.0 * PI * t.abs() / c.tau) * (1.0 + c.e.abs());
    let sc = c.scale();
    let et = 32.0 * EPS * (n + 4.0) * sc / n.max(1.0) * 4.0 + phase;
    let bs = 2.0 * c.gamma / c.beta * 2.0 * sc + c.gamma * 8.0 * sc * sc;
    Vals {
        total: ring_energy(s, &c.j, &b) / n,
        sys: sys / (c.s - 1) as f64,
        m,
        mt: sum(s),
        bt,
        tol: [et, 64.0 * EPS * (c.s as f64 + 4.0) * sc + 2.0 * phase, 16.0 * EPS * n, 64.0 * EPS * bs + phase * (bs + 2.0 * PI / c.tau * c.s as f64) + 32.0 * EPS * 2.0 * PI / c.tau * c.s as f64 * (1.0 + c.e.abs())],
    }
}
fn gen_obs(g: &mut Gen) -> ChainCase {
    let odd = g.chance(0.2);
    ChainCase::gen(g, &Opts { smin: 2, even: !odd, nmax: 60, ..Opts::default() })
}
fn check_obs(c: &ChainCase) -> Outcome {
    let l = Lang::new(c);
    let v = vals(c, &c.spins, c.t);
    let x = &l.x;
    let at = format!("t = {}, n = {}, subsystem {}, drive {}", c.t, c.n, c.s, drive_name(c.drive));
    let (a, b) = (x.total_energy(), x.total_energy2());
    ensure!((a - v.total).abs() <= v.tol[0] && (b - v.total).abs() <= v.tol[0], "total energies {} and {} ({}), expected {}", a, b, at, v.total);
    ensure!((x.system_energy() - v.sys).abs() <= v.tol[1], "subsystem energy {} ({}), expected {}", x.system_energy(), at, v.sys);
    ensure!(dist(&x.m(), &v.m) <= v.tol[2], "subsystem magnetisation {:?} ({}), expected {:?}", x.m(), at, v.m);
    ensure!(dist(&x.m_tot(), &v.mt) <= v.tol[2], "total magnetisation {:?} ({}), expected {:?}", x.m_tot(), at, v.mt);
    let bt = x.boundary_term();
    ensure!((bt - v.bt).abs() <= v.tol[3], "boundary term {} ({}, gamma = {}, beta = {}), expected {}", bt, at, c.gamma, c.beta, v.bt);
    Ok(Info::nt(v.total != 0.0 && v.sys != 0.0).label(drive_name(c.drive)).label_if(c.s == 2, "subsystem of two").label_if(c.s == c.n, "subsystem is everything"))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct LogCase {
    c: ChainCase,
    /// 0 step, 1 Monte-Carlo update, 2.. log
    ops: Vec<u8>,
    seed: u64,
}
fn gen_log(g: &mut Gen) -> LogCase {
    let c = ChainCase::gen(g, &Opts { smin: 2, nmax: 40, ..Opts::default() });
    let k = g.us(1, 14);
    LogCase { c, ops: (0..k).map(|_| g.below(5) as u8).collect(), seed: g.raw() }
}
fn check_log(k: &LogCase) -> Outcome {
    let c = &k.c;
    let mut l = Lang::new(c);
    rand::verif::seed(k.seed);
    let mut want = vec![];
    for o in &k.ops {
        match o {
            0 => l.x.update(),
            1 => l.x.metropolis_update(),
            _ => {
                let es = l.x.system_energy();
                let (m, mt, s, n) = (l.x.m(), l.x.m_tot(), c.s as f64, c.n as f64);
                want.push(([l.x.t, es, es, m[0] / s, m[1] / s, m[2] / s, mt[2] / n, l.x.boundary_term()], vals(c, &dirs(&l.x.spins), l.x.t)));
                l.x.log();
            }
        }
    }
    let body = std::fs::read_to_string(format!("{}0.dat", l.p)).map_err(|e| Fail::Harness(e.to_string()))?;
    let mut lines = body.lines();
    let head = lines.next();
    ensure!(head == Some("#t E_total E_sub M_x M_y M_z"), "the log starts with {:?}", head);
    let rest: Vec<&str> = lines.collect();
    ensure!(rest.len() == want.len() && body.ends_with('\n'), "{} log lines after {} calls", rest.len(), want.len());
    for (i, (w, v)) in want.iter().enumerate() {
        let got: Vec<f64> = rest[i].split(' ').map(|x| x.parse().unwrap_or(f64::NAN)).collect();
        ensure!(got.len() == 8, "log line {:?} has {} columns", rest[i], got.len());
        let n = c.n as f64;
        let model = [w[0], v.sys, v.sys, v.m[0] / c.s as f64, v.m[1] / c.s as f64, v.m[2] / c.s as f64, v.mt[2] / n, v.bt];
        let tol = [0.0, v.tol[1], v.tol[1], v.tol[2], v.tol[2], v.tol[2], v.tol[2], v.tol[3]];
        for a in 0..8 {
            ensure!((got[a] - w[a]).abs() <= 8.0 * EPS * w[a].abs() + 1e-300 || (got[a].is_nan() && w[a].is_nan()), "column {} of log line {:?} is not {}", a + 1, rest[i], w[a]);
            ensure!((got[a] - model[a]).abs() <= tol[a] + 8.0 * EPS * model[a].abs(), "column {} of log line {:?} should be {}", a + 1, rest[i], model[a]);
        }
    }
    Ok(Info::nt(want.len() >= 2).label_if(c.s == c.n, "subsystem is everything"))
}
pub fn l03() -> Property {
    let mut families = vec![
        Family::new("observables", 400000, 3000000, gen_obs, check_obs, "the energies do not vanish").boxed(),
        Family::new("log", 60000, 400000, gen_log, check_log, "at least two log calls").boxed(),
    ];
    families.extend(crate::p_mc::lang_families());
    Property {
        id: "L03",
        families,
        assumptions: vec!["the boundary term takes the drive as its field, as its formula states", "subsystems of at least two spins", "couplings are set through the guarded hook"],
    }
}
