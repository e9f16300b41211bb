//! M01-M04 and the Monte-Carlo parts of E03 and L03.
//!
//! All single-spin updates are examined under control of the random source: the proposal of a
//! seed is what the update does at beta = 0, where every move is accepted; the draw that decides
//! acceptance is the one whose value does not change that proposal; bisecting its raw value gives
//! the acceptance probability to the last bit, whatever order the draws are made in.
use crate::chain::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::p_energy::*;
use crate::util::*;
use sc::spin::Spin;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;
use serde::{Deserialize, Serialize};

pub enum Ch {
    A(SpinChain),
    B(SpinChainLangevin, String),
}
impl Drop for Ch {
    fn drop(&mut self) {
        if let Ch::B(_, p) = self {
            let _ = std::fs::remove_file(format!("{}0.dat", p));
        }
    }
}
pub const KINDS: [&str; 7] = [
    "metropolis_update",
    "metropolis_update_rot_magnus",
    "metropolis_update_maglab",
    "metropolis_update_magnus",
    "metropolis_update_mag_full",
    "Langevin metropolis_update",
    "Langevin metropolis_update_magnus",
];
impl Ch {
    pub fn new(c: &ChainCase, kind: u8) -> Ch {
        if kind >= 5 {
            let p = fresh_name("mc");
            Ch::B(c.build_langevin(&p), p)
        } else {
            Ch::A(c.build())
        }
    }
    pub fn spins(&self) -> &Vec<Spin> {
        match self {
            Ch::A(x) => &x.spins,
            Ch::B(x, _) => &x.spins,
        }
    }
    pub fn set(&mut self, s: &[V3]) {
        let v = match self {
            Ch::A(x) => &mut x.spins,
            Ch::B(x, _) => &mut x.spins,
        };
        for (a, b) in v.iter_mut().zip(s) {
            a.dir = *b;
        }
    }
    pub fn beta(&mut self, b: f64) {
        match self {
            Ch::A(x) => x.vars.beta = b,
            Ch::B(x, _) => x.vars.beta = b,
        }
    }
    pub fn update(&mut self, kind: u8) {
        match self {
            Ch::A(x) => match kind {
                0 => x.metropolis_update(),
                1 => x.metropolis_update_rot_magnus(),
                2 => x.metropolis_update_maglab(),
                3 => x.metropolis_update_magnus(),
                _ => x.metropolis_update_mag_full(),
            },
            Ch::B(x, _) => match kind {
                5 => x.metropolis_update(),
                _ => x.metropolis_update_magnus(),
            },
        }
    }
    pub fn t(&self) -> f64 {
        match self {
            Ch::A(x) => x.t,
            Ch::B(x, _) => x.t,
        }
    }
}

/// First-order Magnus energy: exchange - 1/(2 omega) sum over driven sites of
/// S^z + 2 y.(J S_right + J S_left) x S.
pub fn magnus_energy(c: &ChainCase, s: &[V3]) -> f64 {
    let k = c.tau / (4.0 * PI);
    let z = vec![[0.0; 3]; c.n];
    let mut e = ring_energy(s, &c.j, &z);
    for i in 0..c.s {
        let w = omega(s, &c.j, &z, i);
        e -= k * (s[i][2] + 2.0 * cross(&w, &s[i])[1]);
    }
    e
}
/// Second-order Magnus energy of a fully driven ring.
pub fn mag_full_energy(c: &ChainCase, s: &[V3]) -> f64 {
    let om = 2.0 * PI / c.tau;
    let n = c.n;
    let z = vec![[0.0; 3]; n];
    let e0 = ring_energy(s, &c.j, &z);
    let (mut e1, mut e2) = (0.0, 0.0);
    for i in 0..n {
        let r = (i + 1) % n;
        let l = (i + n - 1) % n;
        let (a, b, j) = (&s[i], &s[r], &c.j[i]);
        e1 -= a[2] / 2.0 + (j[2] - j[0]) * (a[0] * b[2] + a[2] * b[0]);
        e2 += a[0] / 2.0;
        e2 -= 0.5 * j[1] * a[2] * b[2] + 0.5 * j[2] * a[1] * b[1] + 1.5 * j[0] * a[2] * b[2] + 1.5 * j[2] * a[0] * b[0];
        let w = omega(s, &c.j, &z, i);
        e2 += w[0] * dot(a, &w) - a[0] * dot(&w, &w);
        let v = cross(&w, a);
        e2 += v[1] * (c.j[i][1] * s[r][2] + c.j[l][1] * s[l][2]) - v[2] * (c.j[i][2] * s[r][1] + c.j[l][2] * s[l][1]);
    }
    e0 + e1 / om + e2 / (om * om)
}
pub fn model_energy(c: &ChainCase, kind: u8, s: &[V3]) -> f64 {
    match kind {
        0 => ring_energy(s, &c.j, &c.h),
        1 => rot_energy(c, s),
        2 => maglab_base(c, s),
        3 | 6 => magnus_energy(c, s),
        4 => mag_full_energy(c, s),
        _ => ring_energy(s, &c.j, &vec![[0.0; 3]; c.n]),
    }
}
fn energy_scale(c: &ChainCase, kind: u8) -> f64 {
    let om = 2.0 * PI / c.tau;
    let j = c.jmax();
    (if kind == 0 || kind == 5 { 0.0 } else { 1.0 }) + c.scale()
        + match kind {
            1 => om + 8.0 * j * j / om,
            2 => 1.0 / om,
            3 | 6 => (1.0 + 8.0 * j) / om,
            4 => (1.0 + 8.0 * j) / om + (1.0 + 8.0 * j + 64.0 * j * j) / (om * om),
            _ => 0.0,
        }
}

pub struct Move {
    pub site: usize,
    pub dir: V3,
}
/// One update from `s`; `Err` when it touched more than one spin.
fn one(x: &mut Ch, kind: u8, s: &[V3], seed: u64, script: &[(u64, u64)]) -> Result<(Option<Move>, u64), String> {
    x.set(s);
    rand::verif::seed(seed);
    rand::verif::script(script);
    x.update(kind);
    let n = rand::verif::count();
    let mut m = None;
    for (i, q) in x.spins().iter().enumerate() {
        if q.dir != s[i] {
            if m.is_some() {
                return Err(format!("{} changed more than one spin", KINDS[kind as usize]));
            }
            m = Some(Move { site: i, dir: q.dir });
        }
    }
    Ok((m, n))
}

pub struct Accept {
    pub site: usize,
    pub dir: V3,
    /// measured acceptance probability and how sharply it is known
    pub p: f64,
    pub sharp: f64,
    pub how: &'static str,
}
/// The proposal of a seed.
pub fn proposal(x: &mut Ch, kind: u8, s: &[V3], seed: u64) -> Result<(Move, u64), Fail> {
    x.beta(0.0);
    let (m, d) = one(x, kind, s, seed, &[]).map_err(Fail::Violation)?;
    match m {
        Some(m) => Ok((m, d)),
        None => Err(Fail::Violation(format!("{} at beta = 0 rejected a move (every move has probability one there)", KINDS[kind as usize]))),
    }
}
/// Acceptance probability of the proposal of `seed` at inverse temperature `beta`.
pub fn acceptance(x: &mut Ch, kind: u8, s: &[V3], seed: u64, beta: f64) -> Result<Accept, Fail> {
    let (m, d0) = proposal(x, kind, s, seed)?;
    x.beta(beta);
    let (_, d1) = one(x, kind, s, seed, &[]).map_err(Fail::Violation)?;
    let d = d0.max(d1);
    // Draws that do not touch the proposal, read at beta = 0 where nothing is refused.  The extreme
    // raw values are left out: a generator may treat them specially at beta = 0.
    let mut values: Vec<u64> = vec![
        1 << 30,
        u64::MAX - (1 << 30),
        1 << 63,
        seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9abc,
        seed.rotate_left(29) ^ 0x5555_5555_5555_5555,
    ];
    for k in 1..16u64 {
        values.push((k << 60) + (k << 17) + 0x5a5a);
    }
    let same = |q: &Option<Move>| matches!(q, Some(q) if q.site == m.site && q.dir == m.dir);
    let mut free = vec![];
    if d > 300 {
        return Ok(Accept { site: m.site, dir: m.dir, p: f64::NAN, sharp: 0.0, how: "not readable" });
    }
    x.beta(0.0);
    for i in 0..d {
        let mut indep = true;
        for v in values.iter() {
            let (q, _) = one(x, kind, s, seed, &[(i, *v)]).map_err(Fail::Violation)?;
            if !same(&q) {
                indep = false;
                break;
            }
        }
        if indep {
            free.push(i);
        }
    }
    // A draw can still turn out to steer the proposal for a value not tried above (a loop that
    // rejects directions reads a varying number of draws): then it is no acceptance draw.
    'again: loop {
        x.beta(beta);
        let (site, dir) = (m.site, m.dir);
        let mk = |p: f64, sharp: f64, how: &'static str| Ok(Accept { site, dir, p, sharp, how });
        // Ok(Some(accepted)), or Ok(None) when the script changes the proposal itself
        let mut try_at = |script: &[(u64, u64)]| -> Result<Option<bool>, Fail> {
            x.beta(0.0);
            let (q0, _) = one(x, kind, s, seed, script).map_err(Fail::Violation)?;
            x.beta(beta);
            if !same(&q0) {
                return Ok(None);
            }
            let (q, _) = one(x, kind, s, seed, script).map_err(Fail::Violation)?;
            match q {
                None => Ok(Some(false)),
                Some(q) => {
                    if q.site == m.site && q.dir == m.dir {
                        Ok(Some(true))
                    } else {
                        Err(Fail::Violation(format!(
                            "{}: the same random numbers propose spin {} -> {:?} at beta = {} but spin {} -> {:?} at beta = 0",
                            KINDS[kind as usize], q.site, q.dir, beta, m.site, m.dir
                        )))
                    }
                }
            }
        };
        match free.len() {
            0 => {
                let a = match try_at(&[])? {
                    Some(a) => a,
                    None => return Err(Fail::Harness("the proposal is not reproducible".into())),
                };
                return mk(if a { 1.0 } else { 0.0 }, 0.0, "no draw decides");
            }
            1 => {
                let i = free[0];
                let (mut a, mut b) = (1u64 << 12, u64::MAX - (1 << 12));
                let (lo, hi) = match (try_at(&[(i, a)])?, try_at(&[(i, b)])?) {
                    (Some(l), Some(h)) => (l, h),
                    _ => return mk(f64::NAN, 0.0, "not readable"),
                };
                if lo == hi {
                    return mk(if lo { 1.0 } else { 0.0 }, 1e-15, "one draw, no effect");
                }
                while b - a > 1 {
                    let q = a + (b - a) / 2;
                    match try_at(&[(i, q)])? {
                        Some(v) if v == lo => a = q,
                        Some(_) => b = q,
                        None => return mk(f64::NAN, 0.0, "not readable"),
                    }
                }
                let f = b as f64 / 2f64.powi(64);
                return mk(if lo { f } else { 1.0 - f }, 1e-15, "one draw, bisected");
            }
            _ => {
                // keep the draws that make a difference at this beta, if one of them alone does
                let mut own = vec![];
                let mut steer = vec![];
                for i in free.iter() {
                    let lo = try_at(&[(*i, 1 << 12)])?;
                    let hi = try_at(&[(*i, u64::MAX - (1 << 12))])?;
                    match (lo, hi) {
                        (Some(l), Some(h)) if l != h => own.push(*i),
                        (Some(_), Some(_)) => (),
                        _ => steer.push(*i),
                    }
                }
                if !steer.is_empty() {
                    free.retain(|i| !steer.contains(i));
                    if free.is_empty() {
                        return mk(f64::NAN, 0.0, "not readable");
                    }
                    continue 'again;
                }
                let mut k = 0u64;
                let mut z = seed;
                let tot = 3000;
                for _ in 0..tot {
                    let sc: Vec<(u64, u64)> = free
                        .iter()
                        .map(|i| {
                            z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                            let mut y = z;
                            y ^= y >> 32;
                            y = y.wrapping_mul(0xd6e8feb86659fd93);
                            y ^= y >> 32;
                            (*i, y)
                        })
                        .collect();
                    match try_at(&sc)? {
                        Some(true) => k += 1,
                        Some(false) => (),
                        None => {
                            // together they steer the proposal: only those that decide on their own stay
                            if own.len() == free.len() || own.is_empty() {
                                return mk(f64::NAN, 0.0, "not readable");
                            }
                            free = own.clone();
                            continue 'again;
                        }
                    }
                }
                let p = k as f64 / tot as f64;
                return mk(p, 7.0 * (p * (1.0 - p) / tot as f64).sqrt() + 20.0 / tot as f64, "several draws, sampled");
            }
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct AccCase {
    pub c: ChainCase,
    pub kind: u8,
    pub seed: u64,
    /// beta dE aimed at
    pub w: f64,
}
fn gen_acc(g: &mut Gen, kind: u8) -> AccCase {
    let full = kind == 4;
    let nmin = if kind == 0 || kind == 5 || kind == 2 { 2 } else { 3 };
    let o = Opts { nmin, nmax: 24, even: false, ..Opts::default() };
    let mut c = ChainCase::gen(g, &o);
    if full {
        c.s = c.n;
    }
    if g.chance(0.3) {
        c.beta = g.log(1e-3, 1e4);
    }
    if g.chance(0.1) {
        // another unit of energy
        let k = g.log(1e-9, 1e3);
        if kind == 0 || kind == 5 {
            c.rescale(k, 1.0);
            c.beta /= k;
        } else if kind != 1 && k < 1.0 {
            c.j.iter_mut().for_each(|v| *v = scale(v, k));
            c.tau = k * g.log(0.1, 10.0);
            c.beta /= k;
        }
    }
    let mut w = g.log(0.01, 5.0);
    if g.chance(0.25) {
        // a negative temperature
        c.beta = -c.beta;
        w = -w;
    }
    let seed = g.raw();
    AccCase { c, kind, seed, w }
}
fn gen_acc0(g: &mut Gen) -> AccCase {
    gen_acc(g, 0)
}
fn gen_acc_eff(g: &mut Gen) -> AccCase {
    let k = g.pick(&[1u8, 2, 3, 4, 6]);
    gen_acc(g, k)
}
fn gen_acc_lang(g: &mut Gen) -> AccCase {
    gen_acc(g, 5)
}
pub fn check_acc(a: &AccCase) -> Outcome {
    let c = &a.c;
    let mut x = Ch::new(c, a.kind);
    let (m, _) = proposal(&mut x, a.kind, &c.spins, a.seed)?;
    ensure!((len(&m.dir) - 1.0).abs() <= 4e-15, "{} proposes a direction of length {}", KINDS[a.kind as usize], len(&m.dir));
    let mut new = c.spins.clone();
    new[m.site] = m.dir;
    let de = model_energy(c, a.kind, &new) - model_energy(c, a.kind, &c.spins);
    let te = 64.0 * EPS * (c.n as f64 + 4.0) * energy_scale(c, a.kind);
    let mut betas = vec![c.beta];
    if de.abs() > 10.0 * te {
        betas.push(a.w / de.abs());
    }
    let mut info = Info::nt(false).label(KINDS[a.kind as usize]);
    for b in betas {
        let r = acceptance(&mut x, a.kind, &c.spins, a.seed, b)?;
        if r.p.is_nan() {
            info = info.label(r.how);
            continue;
        }
        let p = (-b * de).exp().min(1.0);
        let slope = (b.abs() * te - b * de).exp().min(1.0) * (b.abs() * te).min(1.0);
        let tol = r.sharp + 4e-15 + slope * 2.0;
        ensure!(
            (r.p - p).abs() <= tol,
            "{}: moving spin {} of {} from {:?} to {:?} (subsystem {}, tau {}) costs {} at beta = {}: probability should be {}, is {} ({}; the update behaves as if it cost {})",
            KINDS[a.kind as usize], m.site, c.n, c.spins[m.site], m.dir, c.s, c.tau, de, b, p, r.p, r.how, -r.p.ln() / b
        );
        if p > 1e-6 && p < 1.0 {
            info.nontrivial = true;
            if b < 0.0 {
                info = info.label("negative beta");
            }
        }
        info = info.label(r.how);
    }
    ensure!(x.t() == c.t, "{} changed the time", KINDS[a.kind as usize]);
    Ok(info
        .label_if(m.site == 0, "first site")
        .label_if(m.site + 1 == c.n, "last site")
        .label_if(m.site + 1 == c.s || m.site == c.s, "subsystem edge")
        .label_if(de < 0.0, "downhill")
        .label_if(de != 0.0 && de.abs() < 1e-6, "energies below 1e-6")
        .label_if(c.n == 2, "two spins"))
}

/// Independent of any control of the random source: acceptance frequency and accepted
/// directions from a fixed state, for updates whose energy is linear in the moved spin.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FreqCase {
    c: ChainCase,
    kind: u8,
    seed: u64,
    reps: u32,
}
fn gen_freq(g: &mut Gen, kind: u8, reps: u32) -> FreqCase {
    let o = Opts { nmin: 2, nmax: 6, even: false, ..Opts::default() };
    let mut c = ChainCase::gen(g, &o);
    c.beta = g.log(0.05, 10.0);
    if g.chance(0.2) {
        c.beta = -c.beta;
    }
    FreqCase { c, kind, seed: g.raw(), reps }
}
fn gen_freq0(g: &mut Gen) -> FreqCase {
    let k = g.pick(&[0u8, 0, 2]);
    gen_freq(g, k, 20000)
}
fn gen_freq_lang(g: &mut Gen) -> FreqCase {
    gen_freq(g, 5, 20000)
}
/// Acceptance probability of a uniform proposal, energy a (u - u0), beta folded in, and the
/// probability of being accepted with projection at most u.
fn acc_cdf(a: f64, u0: f64, u: f64) -> f64 {
    // integral over v from -1 to u of min(1, exp(-a (v - u0))) dv / 2, a >= 0
    let f = |x: f64| -> f64 {
        if x <= u0 {
            x + 1.0
        } else if a * (x - u0) < 1e-8 {
            x + 1.0
        } else {
            u0 + 1.0 + (-(-a * (x - u0)).exp_m1()) / a
        }
    };
    f(u) / 2.0
}
fn check_freq(f: &FreqCase) -> Outcome {
    let c = &f.c;
    let mut x = Ch::new(c, f.kind);
    x.beta(c.beta);
    // energy gradient of each site
    let om = 2.0 * PI / c.tau;
    let grad: Vec<V3> = (0..c.n)
        .map(|i| {
            let z = vec![[0.0; 3]; c.n];
            let w = omega(&c.spins, &c.j, &z, i);
            let v = match f.kind {
                0 => sub(&c.h[i], &w),
                2 => sub(&[0.0, 0.0, -1.0 / (2.0 * om)], &w),
                _ => scale(&w, -1.0),
            };
            // only the product with beta matters
            if c.beta < 0.0 { scale(&v, -1.0) } else { v }
        })
        .collect();
    rand::verif::seed(f.seed);
    let mut acc = vec![0u64; c.n];
    let mut pit: Vec<f64> = vec![];
    let mut az: Vec<f64> = vec![];
    for _ in 0..f.reps {
        x.set(&c.spins);
        x.update(f.kind);
        let mut ch = None;
        for i in 0..c.n {
            if x.spins()[i].dir != c.spins[i] {
                ensure!(ch.is_none(), "{} changed more than one spin", KINDS[f.kind as usize]);
                ch = Some(i);
            }
        }
        if let Some(i) = ch {
            acc[i] += 1;
            let g = len(&grad[i]);
            let d = x.spins()[i].dir;
            let ax = if g > 1e-9 { scale(&grad[i], 1.0 / g) } else { [0.0, 0.0, 1.0] };
            let (a, u0) = if g > 1e-9 { (c.beta.abs() * g, dot(&ax, &c.spins[i])) } else { (0.0, 1.0) };
            pit.push(acc_cdf(a, u0, dot(&ax, &d)) / acc_cdf(a, u0, 1.0));
            let o = if ax[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
            let e1 = norm(&cross(&ax, &o));
            let e2 = cross(&ax, &e1);
            az.push((dot(&e2, &d).atan2(dot(&e1, &d)) / (2.0 * PI) + 1.0) % 1.0);
        }
    }
    let tot = f.reps as u64;
    let mut nt = false;
    for i in 0..c.n {
        let g = len(&grad[i]);
        let (a, u0) = if g > 1e-9 { (c.beta.abs() * g, dot(&grad[i], &c.spins[i]) / g) } else { (0.0, 1.0) };
        let p = acc_cdf(a, u0, 1.0) / c.n as f64;
        let k = acc[i];
        // Chernoff bound, valid for small expectations too
        let q = k as f64 / tot as f64;
        let kl = |q: f64, p: f64| if q <= 0.0 { -(1.0 - p).ln() } else if q >= 1.0 { -p.ln() } else { q * (q / p).ln() + (1.0 - q) * ((1.0 - q) / (1.0 - p)).ln() };
        let ll = tot as f64 * kl(q, p);
        ensure!(ll < 26.0, "{}: spin {} of {} moved in {} of {} updates from a fixed state at beta = {}, expected {:.1}", KINDS[f.kind as usize], i, c.n, k, tot, c.beta, p * tot as f64);
        nt |= p * (c.n as f64) < 0.95 && k > 100;
    }
    if pit.len() > 50 {
        let (a, b) = (p_ks_uniform(&mut pit), p_ks_uniform(&mut az));
        ensure!(a > 1e-10, "{}: accepted directions are not distributed as min(1, exp(-beta dE)) along the local field (p = {:e}, {} moves, beta = {})", KINDS[f.kind as usize], a, pit.len(), c.beta);
        ensure!(b > 1e-10, "{}: accepted directions are not isotropic around the local field (p = {:e})", KINDS[f.kind as usize], b);
    }
    Ok(Info::nt(nt).label(KINDS[f.kind as usize]).label_if(c.beta < 0.0, "negative beta"))
}

pub fn m01() -> Property {
    Property {
        id: "M01",
        families: vec![
            Family::new("acceptance", 800000, 4000000, gen_acc0, check_acc, "a probability strictly between 1e-6 and 1 was measured").boxed(),
            Family::new("frequency", 1200, 20000, gen_freq0, check_freq, "some site has mean acceptance below 0.95 and more than 100 accepted moves (20000 updates per case)").shrink(60).boxed(),
        ],
        assumptions: vec!["all random numbers come from rand's thread-local generator, whose stand-in the checks seed and script", "frequency: Chernoff bound e^-26 per site, Kolmogorov-Smirnov level 1e-10"],
    }
}
pub fn lang_families() -> Vec<Box<dyn AnyFamily>> {
    vec![
        Family::new("mc-acceptance", 100000, 1000000, gen_acc_lang, check_acc, "a probability strictly between 1e-6 and 1 was measured").boxed(),
        Family::new("mc-frequency", 600, 8000, gen_freq_lang, check_freq, "some site has mean acceptance below 0.95 and more than 100 accepted moves").shrink(60).boxed(),
    ]
}

// ---------------------------------------------------------------- M03

/// The energy of moving one spin must be a difference: A to B, B to C, A to C, and two spins in
/// either order.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct PathCase {
    c: ChainCase,
    kind: u8,
    seed: u64,
}
fn gen_path(g: &mut Gen) -> PathCase {
    let k = g.pick(&[1u8, 2, 3, 4, 6, 0, 5]);
    let o = Opts { nmin: 3, nmax: 8, even: false, ..Opts::default() };
    let mut c = ChainCase::gen(g, &o);
    c.tau = g.pos_num(0.5, 30.0);
    if k == 4 {
        c.s = c.n;
    }
    PathCase { c, kind: k, seed: g.raw() }
}
/// The cost of a move as the update sees it (needs a probability that is neither 0 nor 1).
fn measured_cost(x: &mut Ch, kind: u8, s: &[V3], seed: u64) -> Result<Option<(f64, usize, V3)>, Fail> {
    let mut b = 1.0;
    for _ in 0..40 {
        let r = acceptance(x, kind, s, seed, b)?;
        if r.p.is_nan() || r.sharp > 1e-14 {
            return Ok(None);
        }
        if r.p >= 1.0 - 1e-12 {
            if r.how == "no draw decides" {
                return Ok(None);
            }
            b *= 8.0;
        } else if r.p < 0.05 {
            b /= 4.0;
        } else if r.p > 0.6 {
            b *= 2.0;
        } else {
            return Ok(Some((-r.p.ln() / b, r.site, r.dir)));
        }
        if b > 1e9 || b < 1e-9 {
            return Ok(None);
        }
    }
    Ok(None)
}
fn check_path(p: &PathCase) -> Outcome {
    let c = &p.c;
    let mut x = Ch::new(c, p.kind);
    // costs are only visible uphill: search seeds for uphill moves of two different spins, from
    // the given state and after the other one has moved; both orders must add up alike
    let a = match measured_cost(&mut x, p.kind, &c.spins, p.seed)? {
        Some(a) => a,
        None => return Ok(Info::nt(false).label("downhill")),
    };
    let mut sa = c.spins.clone();
    sa[a.1] = a.2;
    for k in 1..40u64 {
        let s2 = p.seed.wrapping_add(k.wrapping_mul(0x9E37_79B9_7F4A_7C15));
        let (m, _) = proposal(&mut x, p.kind, &c.spins, s2)?;
        if m.site == a.1 {
            continue;
        }
        let b0 = match measured_cost(&mut x, p.kind, &c.spins, s2)? {
            Some(b) => b,
            None => continue,
        };
        let mut sb = c.spins.clone();
        sb[b0.1] = b0.2;
        // second legs
        let b1 = match measured_cost(&mut x, p.kind, &sa, s2)? {
            Some(b) => b,
            None => continue,
        };
        let a1 = match measured_cost(&mut x, p.kind, &sb, p.seed)? {
            Some(b) => b,
            None => continue,
        };
        ensure!(b1.1 == b0.1 && b1.2 == b0.2 && a1.1 == a.1 && a1.2 == a.2, "{}: the proposal of fixed random numbers depends on the state", KINDS[p.kind as usize]);
        let (q, r) = (a.0 + b1.0, b0.0 + a1.0);
        let tol = 1e-10 * (energy_scale(c, p.kind) + q.abs());
        ensure!(
            (q - r).abs() <= tol,
            "{}: moving spins {} and {} of {} (subsystem {}) costs {} in one order and {} in the other",
            KINDS[p.kind as usize], a.1, b0.1, c.n, c.s, q, r
        );
        let d = (a.1 as i64 - b0.1 as i64).rem_euclid(c.n as i64).min((b0.1 as i64 - a.1 as i64).rem_euclid(c.n as i64));
        return Ok(Info::nt(true).label(KINDS[p.kind as usize]).label(format!("spins {} apart", d)));
    }
    Ok(Info::nt(false).label("no second uphill move"))
}
/// Where the corrections vanish the effective updates are the bare exchange update.
fn gen_reduce(g: &mut Gen) -> AccCase {
    let k = g.pick(&[1u8, 2, 3, 4, 6]);
    let mut a = gen_acc(g, k);
    match k {
        1 => {
            // slow frame, equal in-plane couplings, no subsystem field
            a.c.j.iter_mut().for_each(|v| v[1] = v[0]);
        }
        _ => {}
    }
    a
}
fn check_reduce(a: &AccCase) -> Outcome {
    let mut c = a.c.clone();
    match a.kind {
        1 => {
            c.s = 0;
            c.tau = 1e15;
        }
        2 | 3 | 4 | 6 => c.tau = 1e-15,
        _ => {}
    }
    c.h = vec![[0.0; 3]; c.n];
    let mut x = Ch::new(&c, a.kind);
    let (m, _) = proposal(&mut x, a.kind, &c.spins, a.seed)?;
    let mut new = c.spins.clone();
    new[m.site] = m.dir;
    let de = ring_energy(&new, &c.j, &c.h) - ring_energy(&c.spins, &c.j, &c.h);
    if de.abs() < 1e-9 {
        return Ok(Info::nt(false));
    }
    let b = a.w / de.abs();
    let r = acceptance(&mut x, a.kind, &c.spins, a.seed, b)?;
    if r.p.is_nan() {
        return Ok(Info::nt(false).label(r.how));
    }
    let p = (-b * de).exp().min(1.0);
    // what the corrections still cost at this period
    let rest = b.abs() * 1e-13 * (1.0 + c.jmax()).powi(2);
    ensure!((r.p - p).abs() <= r.sharp + rest + 1e-10 * (1.0 + a.w.abs()) * (1.0 + c.jmax() / de.abs()), "{} without its corrections accepts with probability {}, the bare exchange update with {}", KINDS[a.kind as usize], r.p, p);
    Ok(Info::nt(p < 1.0).label(KINDS[a.kind as usize]))
}
pub fn m03() -> Property {
    Property {
        id: "M03",
        families: vec![
            Family::new("acceptance", 800000, 3000000, gen_acc_eff, check_acc, "a probability strictly between 1e-6 and 1 was measured").boxed(),
            Family::new("path", 30000, 300000, gen_path, check_path, "the cost of moving two spins was measured in both orders").boxed(),
            Family::new("reduction", 50000, 500000, gen_reduce, check_reduce, "the move costs bare exchange energy").boxed(),
        ],
        assumptions: vec!["rings of at least three spins (the second neighbour is another spin)", "the second-order update on fully driven rings, as its comment requires", "all random numbers come from rand's thread-local generator"],
    }
}

/// Effective energies change under a move by what the matching update uses.
fn gen_cons(g: &mut Gen) -> AccCase {
    let k = g.pick(&[1u8, 2]);
    let mut a = gen_acc(g, k);
    if a.c.n < 3 {
        a.c.n = 3;
        for v in [&mut a.c.spins, &mut a.c.j, &mut a.c.h].iter_mut() {
            let q = v[0];
            v.resize(3, q);
        }
    }
    if g.chance(0.5) {
        a.c.j.iter_mut().for_each(|v| v[1] = v[0]);
    }
    a
}
fn check_cons(a: &AccCase) -> Outcome {
    let c = &a.c;
    let mut x = Ch::new(c, a.kind);
    let (m, _) = proposal(&mut x, a.kind, &c.spins, a.seed)?;
    let mut new = c.spins.clone();
    new[m.site] = m.dir;
    let f = |s: &[V3]| -> f64 {
        let mut d = c.clone();
        d.spins = s.to_vec();
        let y = d.build();
        c.n as f64 * if a.kind == 1 { y.mc_system_energy_rot() } else { y.mc_system_energy_maglab() }
    };
    let de = f(&new) - f(&c.spins);
    let te = 64.0 * EPS * (c.n as f64 + 4.0) * energy_scale(c, 1);
    if de.abs() < 1e3 * te {
        return Ok(Info::nt(false));
    }
    let b = a.w / de.abs();
    let r = acceptance(&mut x, a.kind, &c.spins, a.seed, b)?;
    if r.p.is_nan() {
        return Ok(Info::nt(false).label(r.how));
    }
    let p = (-b * de).exp().min(1.0);
    let tol = r.sharp + 1e-14 + 4.0 * b.abs() * te;
    let aniso = c.j.iter().any(|v| v[0] != v[1]);
    let mut info = Info::nt(p < 1.0).label(KINDS[a.kind as usize]).label(if aniso { "unequal in-plane couplings" } else { "equal in-plane couplings" });
    if (r.p - p).abs() > tol {
        if a.kind == 2 && aniso {
            // listed finding: the lab-frame energy has a correction its update lacks; anything
            // else about the pair still has to match
            let d2 = maglab_base(c, &new) - maglab_base(c, &c.spins);
            let corr = (three_spin(c, &new, 2.0, 3.0) - three_spin(c, &c.spins, 2.0, 3.0)) / (16.0 * 2.0 * PI / c.tau);
            ensure!((de - (d2 - corr)).abs() <= 8.0 * te, "mc_system_energy_maglab changes by {} under a move, expected {}", de, d2 - corr);
            let p2 = (-b * d2).exp().min(1.0);
            ensure!((r.p - p2).abs() <= tol * 4.0, "{} accepts with probability {}, expected {}", KINDS[2], r.p, p2);
            info.known.push(MAGLAB_KEY.to_string());
            return Ok(info);
        }
        return Err(Fail::Violation(format!(
            "{} accepts a move of spin {} of {} with probability {} at beta = {}, while the energy function changes by {} (probability {})",
            KINDS[a.kind as usize], m.site, c.n, r.p, b, de, p
        )));
    }
    Ok(info)
}
pub fn consistency_family() -> Box<dyn AnyFamily> {
    Family::new("update-consistency", 150000, 1500000, gen_cons, check_cons, "the move costs effective energy").boxed()
}

// ---------------------------------------------------------------- M02

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct PropCase {
    c: ChainCase,
    kind: u8,
    seed: u64,
    reset: bool,
    reps: u32,
}
fn gen_prop(g: &mut Gen) -> PropCase {
    let kind = g.below(7) as u8;
    let o = Opts { nmin: if kind == 0 || kind == 5 || kind == 2 { 2 } else { 3 }, nmax: 130, even: false, ..Opts::default() };
    let c = ChainCase::gen(g, &o);
    PropCase { c, kind, seed: g.raw(), reset: g.chance(0.3), reps: 20000 }
}
fn check_prop(p: &PropCase) -> Outcome {
    let c = &p.c;
    let name = KINDS[p.kind as usize];
    let mut x = Ch::new(c, p.kind);
    x.beta(0.0);
    x.set(&c.spins);
    rand::verif::seed(p.seed);
    let mut cur = c.spins.clone();
    let mut sites = vec![0u64; c.n];
    let (mut zb, mut ab) = (vec![0u64; 16], vec![0u64; 16]);
    let mut joint = vec![0u64; 64];
    let mut half = vec![0u64; 16];
    let (mut oldc, mut lag, mut lag3, mut sitez) = (0.0, 0.0, 0.0, 0.0);
    let mut zs: Vec<f64> = vec![];
    let mut us: Vec<f64> = vec![];
    let mut prev: Option<(usize, V3)> = None;
    let mut same_site = 0u64;
    let mut k = 0u64;
    for _ in 0..p.reps {
        if p.reset {
            x.set(&c.spins);
            cur = c.spins.clone();
        }
        x.update(p.kind);
        let mut ch = None;
        for i in 0..c.n {
            if x.spins()[i].dir != cur[i] {
                ensure!(ch.is_none(), "{} changed more than one spin", name);
                ch = Some(i);
            }
        }
        let i = match ch {
            Some(i) => i,
            None => return Err(Fail::Violation(format!("{} at beta = 0 rejected a move", name))),
        };
        let d = x.spins()[i].dir;
        ensure!((len(&d) - 1.0).abs() <= 4e-15, "{} proposed a direction of length {}", name, len(&d));
        let old = cur[i];
        cur[i] = d;
        k += 1;
        sites[i] += 1;
        let zi = (((d[2] + 1.0) * 8.0) as usize).min(15);
        let a = (d[1].atan2(d[0]) / (2.0 * PI) + 1.0) % 1.0;
        let ai = ((a * 16.0) as usize).min(15);
        zb[zi] += 1;
        ab[ai] += 1;
        joint[(zi / 2) * 8 + ai / 2] += 1;
        half[(i * 2 / c.n).min(1) * 8 + zi / 2] += 1;
        oldc += dot(&old, &d);
        sitez += (i as f64 / (c.n as f64 - 1.0) - 0.5) * d[2];
        if let Some((s, q)) = prev {
            lag += dot(&q, &d);
            lag3 += q[2] * a - q[2] * 0.5;
            if s == i {
                same_site += 1;
            }
        }
        prev = Some((i, d));
        zs.push((d[2] + 1.0) / 2.0);
        us.push(a);
    }
    let lim = 1e-10;
    let t = |what: &str, pv: f64| -> Result<(), Fail> {
        ensure!(pv > lim, "{}: {} (p = {:e}, {} proposals, n = {})", name, what, pv, k, c.n);
        Ok(())
    };
    t("sites are not chosen uniformly", chi2_uniform(&sites))?;
    t("z components of proposals are not uniform", chi2_uniform(&zb))?;
    t("azimuths of proposals are not uniform", chi2_uniform(&ab))?;
    t("z and azimuth of proposals are not jointly uniform", chi2_uniform(&joint))?;
    t("z components are not uniform (KS)", p_ks_uniform(&mut zs))?;
    t("azimuths are not uniform (KS)", p_ks_uniform(&mut us))?;
    let n = k as f64;
    let z = |v: f64, var: f64| p_norm2(v / (n * var).sqrt());
    t("proposals correlate with the old direction", z(oldc, 1.0 / 3.0))?;
    t("successive proposals correlate", z(lag, 1.0 / 3.0))?;
    t("successive proposals correlate (z with azimuth)", z(lag3, 1.0 / 36.0))?;
    let vs: f64 = (0..c.n).map(|i| (i as f64 / (c.n as f64 - 1.0) - 0.5).powi(2)).sum::<f64>() / c.n as f64 / 3.0;
    t("directions depend on the site", z(sitez, vs))?;
    let ps = 1.0 / c.n as f64;
    t("successive sites correlate", p_norm2(z_binom(same_site, k - 1, ps)).max(if ps * n < 100.0 { 1.0 } else { 0.0 }))?;
    let _ = half;
    Ok(Info::nt(true).label(name).label(if p.reset { "from a fixed state" } else { "along a run" }))
}
/// a million proposals of one kind: small caps around the axes and the equator, fine azimuths, resolution
fn gen_fine(g: &mut Gen) -> PropCase {
    let kind = g.below(7) as u8;
    let c = ChainCase::gen(g, &Opts { nmin: if kind == 0 || kind == 5 || kind == 2 { 2 } else { 3 }, nmax: 6, even: false, ..Opts::default() });
    PropCase { c, kind, seed: g.raw(), reset: false, reps: 1_000_000 }
}
/// probability of a Poisson count at least this far out on its side
fn p_poisson(k: u64, m: f64) -> f64 {
    let low = p_chi2(2.0 * m, 2.0 * (k as f64 + 1.0));
    let high = if k == 0 { 1.0 } else { 1.0 - p_chi2(2.0 * m, 2.0 * k as f64) };
    2.0 * low.min(high)
}
fn check_fine(p: &PropCase) -> Outcome {
    let c = &p.c;
    let name = KINDS[p.kind as usize];
    let mut x = Ch::new(c, p.kind);
    x.beta(0.0);
    x.set(&c.spins);
    rand::verif::seed(p.seed);
    let mut cur = c.spins.clone();
    // counts of 1 - |component| below 2^-k by axis and sign, and of |component| below 2^-k
    let mut cap = vec![[[0u64; 2]; 3]; 18];
    let mut eq = vec![[0u64; 3]; 18];
    let mut az = vec![0u64; 1024];
    let mut zb = vec![0u64; 1024];
    let mut vals: Vec<u64> = vec![];
    for _ in 0..p.reps {
        x.update(p.kind);
        let mut ch = None;
        for i in 0..c.n {
            if x.spins()[i].dir != cur[i] {
                ch = Some(i);
                break;
            }
        }
        let i = match ch {
            Some(i) => i,
            None => return Err(Fail::Violation(format!("{} at beta = 0 rejected a move", name))),
        };
        let d = x.spins()[i].dir;
        cur[i] = d;
        for a in 0..3 {
            let mut w = 0.5;
            for k in 0..18 {
                if 1.0 - d[a].abs() < w {
                    cap[k][a][(d[a] < 0.0) as usize] += 1;
                }
                if d[a].abs() < w {
                    eq[k][a] += 1;
                }
                w *= 0.5;
            }
        }
        let a = (d[1].atan2(d[0]) / (2.0 * PI) + 1.0) % 1.0;
        az[((a * 1024.0) as usize).min(1023)] += 1;
        zb[(((d[2] + 1.0) * 512.0) as usize).min(1023)] += 1;
        vals.push(d[2].to_bits());
    }
    let n = p.reps as f64;
    let lim = 1e-11;
    let mut w = 0.5;
    for k in 0..18 {
        for a in 0..3 {
            for s in 0..2 {
                let pv = p_poisson_or_binom(cap[k][a][s], n, w / 2.0);
                ensure!(pv > lim, "{}: {} of {} proposals lie within {} of the pole {}{}, {} expected (p = {:e})", name, cap[k][a][s], n, w, ["+", "-"][s], ["x", "y", "z"][a], n * w / 2.0, pv);
            }
            let pv = p_poisson_or_binom(eq[k][a], n, w);
            ensure!(pv > lim, "{}: {} of {} proposals have a {} component below {}, {} expected (p = {:e})", name, eq[k][a], n, ["x", "y", "z"][a], w, n * w, pv);
        }
        w *= 0.5;
    }
    for (b, what) in [(&az, "azimuths"), (&zb, "z components")].iter() {
        let pv = chi2_uniform(b);
        ensure!(pv > lim, "{}: {} of proposals are not uniform over 1024 bins (p = {:e})", name, what, pv);
        for (i, k) in b.iter().enumerate() {
            let pv = p_poisson(*k, n / 1024.0);
            ensure!(pv > lim, "{}: {} proposals in bin {} of 1024 {}, {} expected (p = {:e})", name, k, i, what, n / 1024.0, pv);
        }
    }
    vals.sort_unstable();
    let same = vals.windows(2).filter(|v| v[0] == v[1]).count();
    ensure!((same as f64) < 0.05 * n, "{}: {} of {} proposals repeat the z component of another", name, same, n);
    Ok(Info::nt(true).label(name))
}
fn p_poisson_or_binom(k: u64, n: f64, p: f64) -> f64 {
    if n * p > 20000.0 {
        p_norm2(z_binom(k, n as u64, p))
    } else {
        p_poisson(k, n * p)
    }
}
/// At finite beta the proposals are the same uniform ones: whatever is accepted is what the same
/// random numbers propose at beta = 0, from any state.
fn gen_same(g: &mut Gen) -> AccCase {
    let k = g.below(7) as u8;
    gen_acc(g, k)
}
fn check_same(a: &AccCase) -> Outcome {
    let c = &a.c;
    let mut x = Ch::new(c, a.kind);
    let mut any = 0;
    let other: Vec<V3> = c.spins.iter().rev().map(|v| [-v[1], v[2], -v[0]]).collect();
    for k in 0..12u64 {
        let seed = a.seed.wrapping_add(k);
        let (m, _) = proposal(&mut x, a.kind, &c.spins, seed)?;
        let (q, _) = proposal(&mut x, a.kind, &other, seed)?;
        ensure!(m.site == q.site && m.dir == q.dir, "{}: the same random numbers propose spin {} -> {:?} in one state and spin {} -> {:?} in another", KINDS[a.kind as usize], m.site, m.dir, q.site, q.dir);
        x.beta(c.beta);
        let (r, _) = one(&mut x, a.kind, &c.spins, seed, &[]).map_err(Fail::Violation)?;
        if let Some(r) = r {
            any += 1;
            ensure!(m.site == r.site && m.dir == r.dir, "{}: the same random numbers propose spin {} -> {:?} at beta = 0 and spin {} -> {:?} at beta = {}", KINDS[a.kind as usize], m.site, m.dir, r.site, r.dir, c.beta);
        }
    }
    Ok(Info::nt(any > 0).label(KINDS[a.kind as usize]))
}
pub fn m02() -> Property {
    Property {
        id: "M02",
        families: vec![
            Family::new("uniform", 2000, 25000, gen_prop, check_prop, "every case counts: 20000 proposals of one update kind").shrink(60).boxed(),
            Family::new("fine", 120, 2000, gen_fine, check_fine, "every case counts: a million proposals of one update kind").shrink(8).shard_size(1).boxed(),
            Family::new("state-independent", 100000, 1000000, gen_same, check_same, "at least one of 12 moves was accepted at the finite temperature").boxed(),
        ],
        assumptions: vec!["eleven tests per case, each at level 1e-10; in the fine family some 2200 tests per case, each at level 1e-11", "the proposal of given random numbers is read off at beta = 0"],
    }
}

// ---------------------------------------------------------------- M04

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ThermCase {
    n: usize,
    beta: f64,
    field: V3,
    site_fields: bool,
    free: bool,
    start: u8,
    kind: u8,
    seed: u64,
    junk: u64,
    drive: u8,
}
fn gen_therm(g: &mut Gen) -> ThermCase {
    let n = g.us(2, 10);
    let free = g.chance(0.5);
    let beta = g.log(0.1, if free { 6.0 } else { 3.0 });
    let beta = if g.chance(0.2) { -beta } else { beta };
    let field = scale(&g.dir(), g.uni(0.1, 2.0));
    ThermCase { n, beta, field, site_fields: g.chance(0.5), free, start: g.below(4) as u8, kind: if free { 0 } else { g.pick(&[0u8, 0, 5]) }, seed: g.raw(), junk: g.raw(), drive: g.below(5) as u8 }
}
/// ln of the transfer-matrix eigenvalue ratios of the isotropic ring, by downward recurrence.
pub fn ring_exact_energy(n: usize, b: f64) -> f64 {
    // i_l(b)/i_0(b) and derivatives by numerical differentiation of ln Z
    let lnz = |b: f64| -> f64 {
        // i_l(-b) = (-1)^l i_l(b)
        let sg = if b < 0.0 && n % 2 == 1 { -1.0 } else { 1.0 };
        let b = b.abs();
        let mut sl = 1.0;
        let lmax = 60;
        // ratio r_l = i_l / i_{l-1} by continued fraction
        let mut r = vec![0.0; lmax + 2];
        let mut x = 0.0;
        for l in (1..=lmax + 1).rev() {
            x = 1.0 / ((2 * l + 1) as f64 / b + x);
            if l <= lmax {
                r[l] = x;
            }
        }
        // ln i_0 = ln(sinh b / b)
        let l0 = b + (-(-2.0 * b).exp()).ln_1p() - (2.0 * b).ln();
        let mut z = 1.0;
        let mut q = 1.0;
        for l in 1..=lmax {
            q *= r[l];
            sl *= sg;
            z += (2 * l + 1) as f64 * sl * q.powi(n as i32);
        }
        n as f64 * l0 + z.ln()
    };
    let h = 1e-3 * b.abs().min(1.0);
    let d = (8.0 * (lnz(b + h) - lnz(b - h)) - (lnz(b + 2.0 * h) - lnz(b - 2.0 * h))) / (12.0 * h);
    -d / n as f64
}
fn check_therm(c: &ThermCase) -> Outcome {
    let n = c.n;
    let mut seed = c.seed;
    let mut rnd = || {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let mut y = seed;
        y ^= y >> 33;
        y = y.wrapping_mul(0xff51afd7ed558ccd);
        y ^= y >> 33;
        y
    };
    let h: Vec<V3> = (0..n)
        .map(|i| {
            if !c.free {
                [0.0; 3]
            } else if c.site_fields {
                scale(&[c.field[(i) % 3], -c.field[(i + 1) % 3], c.field[(i + 2) % 3]], 0.5 + i as f64 / n as f64)
            } else {
                c.field
            }
        })
        .collect();
    let j = vec![if c.free { [0.0; 3] } else { [1.0; 3] }; n];
    let spins: Vec<V3> = match c.start {
        0 => vec![[0.0, 0.0, 1.0]; n],
        1 => (0..n).map(|i| if i % 2 == 0 { [1.0, 0.0, 0.0] } else { [-1.0, 0.0, 0.0] }).collect(),
        2 => vec![norm(&scale(&c.field, -1.0)); n],
        _ => vec![norm(&c.field); n],
    };
    let case = ChainCase {
        n, s: n.min(1 + c.junk as usize % n).max(2).min(n), dt: 0.1, t: 3.0, tau: 7.0, e: 0.5, beta: c.beta, gamma: 0.3, lambda: 0.4,
        hs: [0.3, 0.2, 0.1], drive: c.drive, junk: c.junk, spins: spins.clone(), j: j.clone(), h: h.clone(),
    };
    let (burn, meas, chains) = (120 * n, 160, 96);
    let burn = (burn as f64 * (1.0 + c.beta.abs())) as usize;
    let mut x = Ch::new(&case, c.kind);
    x.beta(c.beta);
    let mut means = vec![];
    for _ in 0..chains {
        x.set(&spins);
        rand::verif::seed(rnd());
        for _ in 0..burn {
            x.update(c.kind);
        }
        let mut acc = 0.0;
        for _ in 0..meas {
            for _ in 0..n {
                x.update(c.kind);
            }
            let s = dirs(x.spins());
            if c.free {
                for i in 0..n {
                    acc += dot(&s[i], &h[i]) / len(&h[i]);
                }
            } else {
                acc += ring_energy(&s, &j, &h);
            }
        }
        means.push(acc / (meas * n) as f64);
    }
    let want = if c.free {
        -h.iter().map(|v| langevin(c.beta * len(v))).sum::<f64>() / n as f64
    } else {
        ring_exact_energy(n, c.beta)
    };
    let m = means.iter().sum::<f64>() / chains as f64;
    let var = means.iter().map(|v| (v - m).powi(2)).sum::<f64>() / (chains as f64 - 1.0);
    let se = (var / chains as f64).sqrt().max(1e-9);
    let z = (m - want) / se;
    ensure!(
        z.abs() < 8.0,
        "{}: {} of {} spins at beta = {} is {:.5} +- {:.5}, exactly {:.5} ({:.1} standard errors, start {})",
        KINDS[c.kind as usize], if c.free { "mean projection on the field" } else { "energy per site of the isotropic ring" }, n, c.beta, m, se, want, z, c.start
    );
    Ok(Info::nt(true).label(if c.free { "free spins in a field" } else { "isotropic ring" }).label(format!("start {}", c.start)).label_if(c.beta < 0.0, "negative beta"))
}
pub fn m04() -> Property {
    Property {
        id: "M04",
        families: vec![Family::new("thermal", 1200, 12000, gen_therm, check_therm, "every case counts: 96 independent chains measured after burn-in").shrink(40).boxed()],
        assumptions: vec!["burn-in of 120 (1 + |beta|) sweeps, |beta| at most 6 for free spins and 3 for the ring", "deviations are judged at 8 standard errors of 96 independent chains"],
    }
}
