//! I01-I03, C01: new chains, thermal initial states, the beta solver and the configuration file.
use crate::chain::*;
use crate::engine::*;
use crate::gen::*;
use crate::util::*;
use crate::{ensure, harness};
use sc::config::Config;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Conf {
    pub hsize: i32,
    pub ssize: i32,
    pub t: f64,
    pub dt: f64,
    pub runs: i32,
    pub trel: f64,
    pub threads: usize,
    pub tau: f64,
    pub lambda: f64,
    pub hfield: V3,
    pub hs: V3,
    pub jvar: f64,
    pub hvar: f64,
    pub method: i32,
    pub ednsty: f64,
    pub file: String,
    pub strob: bool,
    pub offset: u32,
    pub beta: f64,
    pub mc_points: usize,
    pub e: f64,
    pub drive: u8,
    pub log: bool,
}
impl Conf {
    pub fn conf(&self) -> Config {
        Config {
            hsize: self.hsize,
            ssize: self.ssize,
            t: self.t,
            dt: self.dt,
            runs: self.runs,
            trel: self.trel,
            threads: self.threads,
            tau: self.tau,
            lambda: self.lambda,
            hfield: self.hfield.to_vec(),
            hs: self.hs.to_vec(),
            jvar: self.jvar,
            hvar: self.hvar,
            method: self.method,
            ednsty: self.ednsty,
            file: self.file.clone(),
            strob: self.strob,
            offset: self.offset,
            beta: self.beta,
            mc_points: self.mc_points,
            e: self.e,
            drive: drive_of(self.drive),
            log: self.log,
        }
    }
}
fn text(g: &mut Gen) -> String {
    match g.below(4) {
        0 => "log".to_string(),
        1 => g.pick(&["", "a b", "x\"y", "it's", "back\\slash", "tab\there", "new\nline", "#no comment", "données", "σ-run", "[t]", "a=b", "true", "1.5", "....", "log.toml"]).to_string(),
        _ => {
            let n = g.us(1, 12);
            (0..n)
                .map(|_| match g.below(4) {
                    0 => char::from_u32(g.range(32, 126) as u32).unwrap_or('a'),
                    1 => char::from_u32(g.range(0xa1, 0x24ff) as u32).unwrap_or('b'),
                    _ => char::from_u32(g.range(97, 122) as u32).unwrap_or('c'),
                })
                .collect()
        }
    }
}
fn any_float(g: &mut Gen) -> f64 {
    match g.below(10) {
        0 => g.pick(&[0.0, -0.0, 1.0, -1.0, 1e300, -1e300, 5e-324, f64::MAX, f64::MIN_POSITIVE, 0.1, 1e16, 1e21, 1e-7, 123456789.0]),
        1 => g.dict_float(),
        2 => {
            let x = f64::from_bits(g.raw());
            if x.is_finite() {
                x
            } else {
                1.5
            }
        }
        3 => g.pick(&[f64::INFINITY, f64::NEG_INFINITY]),
        4 => g.range(-1000, 1000) as f64,
        5 => g.slog(1e-300, 1e300),
        _ => g.num(10.0),
    }
}
fn any_i32(g: &mut Gen) -> i32 {
    match g.below(5) {
        0 => g.pick(&[0, 1, -1, i32::MAX, i32::MIN, 512, 8]),
        1 => g.raw() as i32,
        _ => g.range(0, 2000) as i32,
    }
}
fn any_conf(g: &mut Gen) -> Conf {
    Conf {
        hsize: any_i32(g),
        ssize: any_i32(g),
        t: any_float(g),
        dt: any_float(g),
        runs: any_i32(g),
        trel: any_float(g),
        threads: if g.chance(0.2) { (g.raw() >> 1) as usize } else { g.us(0, 64) },
        tau: any_float(g),
        lambda: any_float(g),
        hfield: [any_float(g), any_float(g), any_float(g)],
        hs: [any_float(g), any_float(g), any_float(g)],
        jvar: any_float(g),
        hvar: any_float(g),
        method: any_i32(g),
        ednsty: any_float(g),
        file: text(g),
        strob: g.chance(0.5),
        offset: if g.chance(0.3) { g.raw() as u32 } else { g.us(0, 1000) as u32 },
        beta: any_float(g),
        mc_points: if g.chance(0.2) { (g.raw() >> 1) as usize } else { g.us(0, 100000) },
        e: any_float(g),
        drive: g.below(5) as u8,
        log: g.chance(0.5),
    }
}

// ---------------------------------------------------------------- I01

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct NewCase {
    c: Conf,
    lang: bool,
    num: usize,
    gamma: f64,
    seed: u64,
}
fn real_conf(g: &mut Gen, nmax: usize) -> Conf {
    let mut c = any_conf(g);
    let n = g.size(1, nmax, false);
    c.hsize = n as i32;
    c.ssize = g.sub(1, n) as i32;
    c.t = g.sym(300.0);
    c.dt = g.pos_num(1e-4, 1.0);
    c.runs = g.us(1, 5) as i32;
    c.trel = if g.chance(0.3) { 0.0 } else { g.sym(200.0) };
    c.threads = g.us(1, 8);
    c.tau = g.pos_num(0.05, 200.0);
    c.lambda = g.num(2.0);
    c.hfield = g.vec3(2.0);
    c.hs = g.vec3(2.0);
    c.ednsty = -g.uni(0.01, 0.99);
    c.beta = match g.below(4) {
        0 => 0.0,
        1 => g.slog(1e-6, 1e4),
        _ => g.pos_num(0.01, 50.0),
    };
    c.e = g.num(1.0);
    c
}
fn gen_new(g: &mut Gen) -> NewCase {
    let lang = g.chance(0.4);
    let mut c = real_conf(g, 600);
    c.jvar = if g.chance(0.5) { 0.0 } else { g.pos_num(1e-6, 2.0) };
    c.hvar = if g.chance(0.5) { 0.0 } else { g.pos_num(1e-6, 2.0) };
    c.file = g.pick(&["log", "", "a.b", "x-1-", "run"]).to_string();
    let num = if g.chance(0.2) { (g.raw() >> 20) as usize } else { g.us(0, 1200) };
    NewCase { c, lang, num, gamma: g.num(2.0).abs(), seed: g.raw() }
}
struct Made {
    spins: Vec<V3>,
    j: Vec<V3>,
    h: Vec<V3>,
    t: f64,
    vars: String,
    gamma: f64,
}
fn make(conf: Config, lang: bool, num: usize, gamma: f64) -> Made {
    if lang {
        let mut x = SpinChainLangevin::new(conf, num, gamma);
        Made { spins: dirs(&x.spins), j: x.verif_couplings().clone(), h: x.static_h.clone(), t: x.t, vars: format!("{:?}", x.vars), gamma: x.gamma }
    } else {
        let x = SpinChain::new(conf, num);
        Made { spins: dirs(&x.spins), j: x.j_couple.clone(), h: x.static_h.clone(), t: x.t, vars: format!("{:?}", x.vars), gamma }
    }
}
fn check_new(k: &NewCase) -> Outcome {
    let dir = fresh_dir("new");
    let r = check_new_in(k, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn check_new_in(k: &NewCase, dir: &str) -> Outcome {
    let c = &k.c;
    let mut conf = c.conf();
    conf.file = format!("{}/{}", dir, c.file);
    let vars = format!("{:?}", conf);
    let (n, s) = (c.hsize as usize, c.ssize as usize);
    rand::verif::seed(k.seed);
    let x = make(conf, k.lang, k.num, k.gamma);
    ensure!(x.spins.len() == n, "{} spins with hsize = {}", x.spins.len(), n);
    ensure!(x.j.len() == n, "{} couplings with hsize = {}", x.j.len(), n);
    ensure!(x.h.len() == n, "{} static fields with hsize = {}", x.h.len(), n);
    ensure!(x.t == -c.trel, "initial time {} with trel = {}", x.t, c.trel);
    ensure!(x.vars == vars, "configuration {} becomes {}", vars, x.vars);
    ensure!(x.gamma == k.gamma, "gamma {} becomes {}", k.gamma, x.gamma);
    for (i, v) in x.spins.iter().enumerate() {
        ensure!(finite(v) && (len(v) - 1.0).abs() <= 1e-14, "initial spin {} is {:?}", i, v);
    }
    for (i, v) in x.j.iter().enumerate() {
        let mean = [1.0, 1.0, c.lambda];
        for a in 0..3 {
            let lim = if c.jvar == 0.0 { 0.0 } else { 9.0 * c.jvar } + 2.0 * EPS * (1.0 + mean[a].abs());
            ensure!((v[a] - mean[a]).abs() <= lim, "coupling {} is {:?} with lambda = {}, jvar = {}", i, v, c.lambda, c.jvar);
        }
    }
    for (i, v) in x.h.iter().enumerate() {
        for a in 0..3 {
            let mean = c.hfield[a] + if i < s { c.hs[a] } else { 0.0 };
            let lim = if c.hvar == 0.0 { 0.0 } else { 9.0 * c.hvar } + 4.0 * EPS * (c.hfield[a].abs() + c.hs[a].abs());
            ensure!((v[a] - mean).abs() <= lim, "static field {} of {} (subsystem {}) is {:?} with hfield = {:?}, hs = {:?}, hvar = {}", i, n, s, v, c.hfield, c.hs, c.hvar);
        }
    }
    // files
    let mut names: Vec<String> = std::fs::read_dir(dir).map_err(|e| Fail::Harness(e.to_string()))?.filter_map(|x| x.ok()).map(|x| x.file_name().to_string_lossy().to_string()).collect();
    names.sort();
    let want = if k.lang || c.log { vec![format!("{}{}.dat", c.file, k.num)] } else { vec![] };
    ensure!(names == want, "files {:?} after creating run {} with file = {:?}, log = {} ({}), expected {:?}", names, k.num, c.file, c.log, if k.lang { "Langevin" } else { "ring" }, want);
    if let Some(f) = want.first() {
        let body = std::fs::read_to_string(format!("{}/{}", dir, f)).map_err(|e| Fail::Harness(e.to_string()))?;
        let head = if k.lang { "#t E_total E_sub M_x M_y M_z\n" } else { "" };
        ensure!(body == head, "the new log holds {:?}", body);
    }
    Ok(Info::nt(s < n && (c.jvar > 0.0 || c.hvar > 0.0 || c.hs != [0.0; 3]))
        .label(if k.lang { "Langevin" } else { "ring" })
        .label_if(c.jvar == 0.0, "no coupling scatter")
        .label_if(c.hvar == 0.0, "no field scatter")
        .label_if(c.log, "log on"))
}
fn gen_scatter(g: &mut Gen) -> NewCase {
    let mut k = gen_new(g);
    k.c.hsize = g.range(1, 400) as i32;
    k.c.ssize = g.sub(1, k.c.hsize as usize) as i32;
    k.c.jvar = g.log(1e-4, 3.0);
    k.c.hvar = g.log(1e-4, 3.0);
    k.c.log = false;
    k
}
/// smallest p-value a sound program may show; about 1e5 tests are made per run
const P_MIN: f64 = 1e-11;
fn check_scatter(k: &NewCase) -> Outcome {
    let c = &k.c;
    let prefix = fresh_name("sc");
    let mut z: Vec<Vec<f64>> = vec![vec![]; 6];
    let mut edge: Vec<Vec<f64>> = vec![vec![]; 2];
    let mut lag: Vec<(f64, f64)> = vec![];
    rand::verif::seed(k.seed);
    let n = c.hsize as usize;
    let reps = (3000 / n).max(2);
    for _ in 0..reps {
        let mut conf = c.conf();
        conf.file = prefix.clone();
        let x = make(conf, k.lang, 0, k.gamma);
        let mut last: Option<[f64; 6]> = None;
        for i in 0..n {
            let mean = [1.0, 1.0, c.lambda];
            let mut v = [0.0; 6];
            for a in 0..3 {
                v[a] = (x.j[i][a] - mean[a]) / c.jvar;
                v[3 + a] = (x.h[i][a] - c.hfield[a] - if i < c.ssize as usize { c.hs[a] } else { 0.0 }) / c.hvar;
            }
            for a in 0..6 {
                z[a].push(v[a]);
            }
            if i == 0 {
                edge[0].extend_from_slice(&v);
            }
            if i + 1 == n {
                edge[1].extend_from_slice(&v);
            }
            if let Some(l) = last {
                for a in 0..6 {
                    lag.push((l[a], v[a]));
                }
            }
            last = Some(v);
        }
    }
    if k.lang {
        let _ = std::fs::remove_file(format!("{}0.dat", prefix));
    }
    let names = ["coupling x", "coupling y", "coupling z", "field x", "field y", "field z"];
    for a in 0..6 {
        let mut u: Vec<f64> = z[a].iter().map(|x| cdf_norm(*x)).collect();
        let p = p_ks_uniform(&mut u);
        ensure!(p > P_MIN, "{} scatter is not normal with spread {} (p = {:e} over {} draws)", names[a], if a < 3 { c.jvar } else { c.hvar }, p, u.len());
        let m = z[a].len() as f64;
        let v: f64 = z[a].iter().map(|x| x * x).sum::<f64>();
        // sum of squares is chi-squared with m degrees; compare through its normal limit
        let q = ((v / m).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * m))) / (2.0 / (9.0 * m)).sqrt();
        ensure!(p_norm2(q) > P_MIN, "{} scatter has mean square {} instead of 1 (in units of its spread squared, {} draws)", names[a], v / m, m);
        for b in 0..a {
            let r: f64 = z[a].iter().zip(&z[b]).map(|(x, y)| x * y).sum::<f64>() / m.sqrt();
            ensure!(r.abs() < 8.5, "{} and {} are correlated ({:.1} standard errors)", names[a], names[b], r);
        }
    }
    if !lag.is_empty() {
        let m = lag.len() as f64;
        let r: f64 = lag.iter().map(|(x, y)| x * y).sum::<f64>() / m.sqrt();
        ensure!(r.abs() < 8.5, "neighbouring sites' scatter is correlated ({:.1} standard errors)", r);
    }
    for (w, e) in edge.iter_mut().enumerate() {
        let mut u: Vec<f64> = e.iter().map(|x| cdf_norm(*x)).collect();
        let p = p_ks_uniform(&mut u);
        ensure!(p > P_MIN, "scatter on the {} site is not normal (p = {:e}, {} draws)", ["first", "last"][w], p, u.len());
    }
    Ok(Info::nt(true).label(if k.lang { "Langevin" } else { "ring" }).label_if(n <= 8, "at most 8 sites"))
}
pub fn i01() -> Property {
    Property {
        id: "I01",
        families: vec![
            Family::new("new", 100000, 800000, gen_new, check_new, "the subsystem is smaller than the chain and there is a spread or a subsystem field").boxed(),
            Family::new("scatter", 1500, 60000, gen_scatter, check_scatter, "every case counts: about 3000 sites of couplings and fields").shrink(60).boxed(),
        ],
        assumptions: vec!["the normal law is tested with p > 1e-11 per test under fixed seeds", "subsystems no longer than the chain"],
    }
}

// ---------------------------------------------------------------- I02

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ThermalCase {
    beta: f64,
    n: usize,
    lang: bool,
    seed: u64,
}
fn gen_thermal(g: &mut Gen) -> ThermalCase {
    let beta = match g.below(10) {
        0 => 0.0,
        1 => -g.log(1e-6, 1e3),
        2 => g.log(1e-12, 1e-2),
        3 => g.log(30.0, 1e11),
        4 => g.dict_float().min(1e11),
        _ => g.log(0.01, 100.0),
    };
    let n = match g.below(3) {
        0 => g.us(2, 12),
        1 => g.us(2, 100),
        _ => g.us(500, 2000),
    };
    ThermalCase { beta, n, lang: g.chance(0.4), seed: g.raw() }
}
fn thermal_conf(beta: f64, n: usize, prefix: &str) -> Config {
    Config { hsize: n as i32, ssize: (n as i32 / 2).max(1), beta, jvar: 0.0, log: false, file: prefix.to_string(), ednsty: -0.123, tau: 7.7, lambda: 0.4, ..Config::default() }
}
fn check_thermal(k: &ThermalCase) -> Outcome {
    let prefix = fresh_name("th");
    rand::verif::seed(k.seed);
    let reps = 1 + 4000 / k.n;
    let b = k.beta.abs();
    let mut us = vec![];
    let mut phis = vec![];
    let mut labs = vec![];
    let mut pairs: Vec<(f64, f64)> = vec![];
    let mut cells = vec![0u64; 16];
    let mut firsts = vec![];
    for _ in 0..reps {
        let x = make(thermal_conf(k.beta, k.n, &prefix), k.lang, 0, 1.0);
        let s = x.spins;
        let mut last_u: Option<f64> = None;
        for i in 0..s.len() {
            ensure!(finite(&s[i]) && (len(&s[i]) - 1.0).abs() <= 1e-14, "beta = {}: initial spin {} of {} is {:?}", k.beta, i, k.n, s[i]);
            if i == 0 {
                continue;
            }
            // 1 - cos (or 1 + cos for negative beta) without cancellation
            let d = if k.beta >= 0.0 { sub(&s[i], &s[i - 1]) } else { add(&s[i], &s[i - 1]) };
            let y = dot(&d, &d) / 2.0;
            let u = if b == 0.0 { y / 2.0 } else { (-b * y).exp_m1() / (-2.0 * b).exp_m1() };
            us.push(u);
            if i == 1 {
                firsts.push(u);
            }
            if let Some(l) = last_u {
                pairs.push((l, u));
            }
            last_u = Some(u);
            // azimuth around the previous spin, from the one before it
            let az = |r: &V3| -> Option<f64> {
                let a = &s[i - 1];
                let e1 = sub(r, &scale(a, dot(r, a)));
                if len(&e1) < 1e-4 {
                    return None;
                }
                let e1 = scale(&e1, 1.0 / len(&e1));
                let e2 = cross(a, &e1);
                let p = dot(&d, &e2).atan2(dot(&d, &e1)) / (2.0 * PI);
                Some(if p < 0.0 { p + 1.0 } else { p })
            };
            if i >= 2 && b < 1e6 {
                if let Some(p) = az(&s[i - 2]) {
                    phis.push(p);
                    cells[((u * 4.0) as usize).min(3) * 4 + ((p * 4.0) as usize).min(3)] += 1;
                }
            }
            if let Some(p) = az(&[0.6, 0.0, 0.8]) {
                labs.push(p);
            }
        }
    }
    if k.lang {
        let _ = std::fs::remove_file(format!("{}0.dat", prefix));
    }
    let m = us.len();
    let mean: f64 = us.iter().sum::<f64>() / m as f64;
    let p = p_ks_uniform(&mut us);
    ensure!(p > P_MIN, "beta = {}: angles between consecutive spins do not follow sin(a) exp(beta cos a) (p = {:e} over {} angles, mean rank {:.4} instead of 0.5)", k.beta, p, m, mean);
    let p = p_ks_uniform(&mut firsts);
    ensure!(p > P_MIN, "beta = {}: the first angle does not follow sin(a) exp(beta cos a) (p = {:e})", k.beta, p);
    if phis.len() > 50 {
        let p = p_ks_uniform(&mut phis);
        ensure!(p > P_MIN, "beta = {}: new spins are not isotropic around the previous one, seen from the one before (p = {:e})", k.beta, p);
        if phis.len() > 800 {
            let p = chi2_uniform(&cells);
            ensure!(p > P_MIN, "beta = {}: opening angle and azimuth are not independent (p = {:e}, {:?})", k.beta, p, cells);
        }
    }
    let p = p_ks_uniform(&mut labs);
    ensure!(p > P_MIN, "beta = {}: new spins are not isotropic around the previous one, seen from a fixed direction (p = {:e})", k.beta, p);
    if pairs.len() > 100 {
        let n = pairs.len() as f64;
        let r: f64 = pairs.iter().map(|(x, y)| 12.0 * (x - 0.5) * (y - 0.5)).sum::<f64>() / n.sqrt();
        ensure!(r.abs() < 8.0, "beta = {}: consecutive angles are correlated ({:.1} standard errors)", k.beta, r);
    }
    Ok(Info::nt(true)
        .label(if k.lang { "Langevin" } else { "ring" })
        .label_if(k.beta == 0.0, "infinite temperature")
        .label_if(k.beta < 0.0, "negative temperature")
        .label_if(b > 100.0, "beta above 100")
        .label_if(b > 0.0 && b < 1e-3, "beta below 1e-3"))
}
fn gen_cold(g: &mut Gen) -> ThermalCase {
    let beta = match g.below(4) {
        0 => -g.log(700.0, 1e300),
        1 => g.log(1e-320, 1e-10),
        _ => g.log(300.0, 1e300),
    };
    ThermalCase { beta, n: g.us(2, 60), lang: g.chance(0.4), seed: g.raw() }
}
fn check_cold(k: &ThermalCase) -> Outcome {
    let prefix = fresh_name("cold");
    rand::verif::seed(k.seed);
    let x = make(thermal_conf(k.beta, k.n, &prefix), k.lang, 0, 1.0);
    if k.lang {
        let _ = std::fs::remove_file(format!("{}0.dat", prefix));
    }
    let s = x.spins;
    for i in 0..s.len() {
        ensure!(finite(&s[i]) && (len(&s[i]) - 1.0).abs() <= 1e-14, "beta = {:e}: initial spin {} is {:?}", k.beta, i, s[i]);
        if i > 0 && k.beta.abs() > 1.0 {
            let d = if k.beta > 0.0 { sub(&s[i], &s[i - 1]) } else { add(&s[i], &s[i - 1]) };
            // exceeded with probability e^-70; the angle itself is only good to the root of the rounding
            let lim = (2.0 * (70.0 / k.beta.abs() + 1e-15)).sqrt();
            ensure!(len(&d) <= lim, "beta = {:e}: spins {} and {} are {:e} apart (at most {:e})", k.beta, i - 1, i, len(&d), lim);
        }
    }
    Ok(Info::nt(s.len() > 2).label_if(k.beta > 1e11, "beta above 1e11").label_if(k.beta < 0.0, "negative beta"))
}
pub fn i02() -> Property {
    Property {
        id: "I02",
        families: vec![
            Family::new("law", 2500, 100000, gen_thermal, check_thermal, "every case counts: at least 4000 consecutive angles at one beta").shrink(80).boxed(),
            Family::new("extreme", 30000, 600000, gen_cold, check_cold, "at least three spins").boxed(),
        ],
        assumptions: vec!["laws are tested with p > 1e-11 per test under fixed seeds", "above beta = 1e11, where the cosine's own rounding shows, only the size of the angles is bounded"],
    }
}

// ---------------------------------------------------------------- I03

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SolveCase {
    a: f64,
    b: f64,
}
fn gen_e(g: &mut Gen) -> f64 {
    let e = match g.below(8) {
        0 => -g.log(1e-15, 0.1),
        1 => -1.0 + g.log(1e-15, 0.1),
        2 => -g.dict_float().abs(),
        3 => g.pick(&[-0.66, -0.5, -0.1, -0.9, -0.99, -0.999, -0.75, -0.25, -1.0 / 3.0]),
        _ => -g.unit(),
    };
    if e > -1.0 && e < 0.0 {
        e
    } else {
        -0.66
    }
}
fn gen_solve(g: &mut Gen) -> SolveCase {
    let a = gen_e(g);
    let b = if g.chance(0.4) { (a * (1.0 + g.slog(1e-9, 0.1))).max(-1.0 + 1e-15).min(-1e-15) } else { gen_e(g) };
    // energies above zero belong to negative temperatures
    let flip = |x: f64, f: u64| if f == 0 { -x } else if f == 1 { 0.0 } else { x };
    let (u, v) = (g.below(6), g.below(40));
    let (u, v) = (if u == 0 { 0 } else { 2 }, v);
    match v {
        0 => SolveCase { a: flip(a, u), b: 0.0 },
        1..=4 => SolveCase { a: flip(a, u), b: flip(b, 2 - u) },
        _ => SolveCase { a: flip(a, u), b: flip(b, u) },
    }
}
fn check_solve(k: &SolveCase) -> Outcome {
    let mut bs = vec![];
    for e in [k.a, k.b].iter() {
        let x = SpinChain::solve_beta(*e);
        let y = SpinChainLangevin::solve_beta(*e);
        for (b, w) in [(x, "ring"), (y, "Langevin")].iter() {
            ensure!(b.is_finite() && if *e < 0.0 { *b > 0.0 } else if *e > 0.0 { *b < 0.0 } else { b.abs() < 1e-5 }, "solve_beta({:e}) of the {} chain = {}", e, w, b);
            let f = -langevin(*b);
            ensure!((f - e).abs() <= 1e-6, "solve_beta({:e}) of the {} chain = {}, where the energy is {:e}", e, w, b, f);
        }
        ensure!((langevin(x) - langevin(y)).abs() <= 1e-6, "solve_beta({}) is {} for the ring and {} for the Langevin chain", e, x, y);
        bs.push(x);
    }
    let (lo, hi) = if k.a <= k.b { (0, 1) } else { (1, 0) };
    let gap = (k.a - k.b).abs();
    // monotone wherever the accuracy resolves the two
    if gap > 1e-5 {
        ensure!(bs[lo] > bs[hi], "solve_beta is not decreasing: {} and {} give {} and {}", k.a, k.b, k.a.min(k.b), bs[lo]);
    }
    Ok(Info::nt(gap > 1e-5).label_if(k.a < -0.99, "energy below -0.99").label_if(k.a.abs() < 0.01, "energy near zero").label_if(k.a > 0.0 || k.b > 0.0, "energy above zero"))
}
fn gen_inv(g: &mut Gen) -> SolveCase {
    let a = g.log(1e-3, 1e5);
    SolveCase { a: if g.chance(0.15) { -a } else { a }, b: 0.0 }
}
/// beta -> energy -> beta
fn check_inv(k: &SolveCase) -> Outcome {
    let e = -langevin(k.a);
    let b = SpinChain::solve_beta(e);
    // d beta = d e / L'(beta)
    let h = 1e-4 * k.a.abs();
    let slope = (langevin(k.a + h) - langevin(k.a - h)) / (2.0 * h);
    let tol = 1e-6 / slope + 1e-6 * k.a.abs();
    ensure!((b - k.a).abs() <= tol.max(1e-9) || (langevin(b) - langevin(k.a)).abs() <= 1e-6, "beta = {} has energy {}, which solve_beta maps to {}", k.a, e, b);
    Ok(Info::nt(tol < 0.1 * k.a.abs()).label_if(k.a < 0.0, "negative temperature"))
}
pub fn i03() -> Property {
    Property {
        id: "I03",
        families: vec![
            Family::new("inverts", 1500000, 20000000, gen_solve, check_solve, "the two energies differ by more than the accuracy").boxed(),
            Family::new("inverse", 1000000, 10000000, gen_inv, check_inv, "the accuracy asked for pins beta to 10 percent").boxed(),
        ],
        assumptions: vec!["accuracy 1e-6 in the energy density"],
    }
}

// ---------------------------------------------------------------- C01

fn cwd() -> &'static str {
    static D: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let d = fresh_dir("cwd");
        std::env::set_current_dir(&d).expect("chdir");
        d
    })
}
fn read(lang: bool, p: &str) -> Config {
    if lang {
        SpinChainLangevin::read_config(p)
    } else {
        SpinChain::read_config(p)
    }
}
/// field by field, floats by value (NaN equal to itself)
fn show(c: &Config) -> String {
    format!("{:?}", c)
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RoundCase {
    c: Conf,
    lang: bool,
    pretty: bool,
}
fn gen_round(g: &mut Gen) -> RoundCase {
    RoundCase { c: any_conf(g), lang: g.chance(0.5), pretty: g.chance(0.3) }
}
fn check_round(k: &RoundCase) -> Outcome {
    cwd();
    let conf = k.c.conf();
    let s = if k.pretty { toml::to_string_pretty(&conf) } else { toml::to_string(&conf) };
    let s = s.map_err(|e| Fail::Violation(format!("cannot write {:?}: {}", conf, e)))?;
    let f = format!("{}.toml", fresh_name("conf"));
    std::fs::write(&f, &s).map_err(|e| Fail::Harness(e.to_string()))?;
    let got = read(k.lang, &f);
    let after = std::fs::read_to_string(&f).unwrap_or_default();
    let _ = std::fs::remove_file(&f);
    ensure!(show(&got) == show(&conf), "wrote {}, read {}", show(&conf), show(&got));
    ensure!(after == s, "reading a configuration changed the file");
    Ok(Info::nt(true).label(if k.lang { "Langevin reader" } else { "ring reader" }))
}

pub const KEYS: [&str; 23] = [
    "hsize", "ssize", "t", "dt", "runs", "trel", "threads", "tau", "lambda", "hfield", "hs", "jvar", "hvar", "method", "ednsty", "file", "strob", "offset", "beta", "mc_points", "e", "drive", "log",
];
fn toml_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// style 0: shortest round-trip, 1: exponent, 2: as an integer where it is one
pub fn toml_f(x: f64, style: u64) -> String {
    if x.is_infinite() {
        return if x > 0.0 { "inf".into() } else { "-inf".into() };
    }
    match style % 4 {
        1 => {
            let s = format!("{:e}", x);
            if s.contains('.') {
                s
            } else {
                s.replace('e', ".0e")
            }
        }
        2 if x == x.trunc() && x.abs() < 1e15 && !(x == 0.0 && x.is_sign_negative()) => format!("{}", x as i64),
        _ => format!("{:?}", x),
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct PartCase {
    c: Conf,
    keys: Vec<u8>,
    extra: Vec<u8>,
    style: u64,
    lang: bool,
}
fn gen_part(g: &mut Gen) -> PartCase {
    let c = any_conf(g);
    let n = g.us(0, 23);
    let mut pool: Vec<u8> = (0..23).collect();
    let mut keys = vec![];
    for _ in 0..n {
        let i = g.below(pool.len() as u64) as usize;
        keys.push(pool.remove(i));
    }
    let m = if g.chance(0.5) { g.us(1, 4) } else { 0 };
    let extra = (0..m).map(|_| g.below(256) as u8).collect();
    PartCase { c, keys, extra, style: g.raw(), lang: g.chance(0.5) }
}
pub fn value_of(c: &Conf, k: &str, style: u64) -> String {
    let v3 = |v: &V3| {
        if style & 16 == 0 {
            format!("[{}, {}, {}]", toml_f(v[0], 0), toml_f(v[1], 0), toml_f(v[2], 0))
        } else {
            format!("[\n  {},\n  {}, # y\n  {},\n]", toml_f(v[0], 0), toml_f(v[1], 0), toml_f(v[2], 0))
        }
    };
    match k {
        "hsize" => c.hsize.to_string(),
        "ssize" => c.ssize.to_string(),
        "t" => toml_f(c.t, style),
        "dt" => toml_f(c.dt, style >> 2),
        "runs" => c.runs.to_string(),
        "trel" => toml_f(c.trel, style >> 4),
        "threads" => c.threads.to_string(),
        "tau" => toml_f(c.tau, style >> 6),
        "lambda" => toml_f(c.lambda, style >> 8),
        "hfield" => v3(&c.hfield),
        "hs" => v3(&c.hs),
        "jvar" => toml_f(c.jvar, style >> 10),
        "hvar" => toml_f(c.hvar, style >> 12),
        "method" => c.method.to_string(),
        "ednsty" => toml_f(c.ednsty, style >> 14),
        "file" => toml_str(&c.file),
        "strob" => c.strob.to_string(),
        "offset" => c.offset.to_string(),
        "beta" => toml_f(c.beta, style >> 16),
        "mc_points" => c.mc_points.to_string(),
        "e" => toml_f(c.e, style >> 18),
        "drive" => format!("\"{}\"", drive_name(c.drive)),
        _ => c.log.to_string(),
    }
}
fn apply_key(d: &mut Config, c: &Config, k: &str) {
    match k {
        "hsize" => d.hsize = c.hsize,
        "ssize" => d.ssize = c.ssize,
        "t" => d.t = c.t,
        "dt" => d.dt = c.dt,
        "runs" => d.runs = c.runs,
        "trel" => d.trel = c.trel,
        "threads" => d.threads = c.threads,
        "tau" => d.tau = c.tau,
        "lambda" => d.lambda = c.lambda,
        "hfield" => d.hfield = c.hfield.clone(),
        "hs" => d.hs = c.hs.clone(),
        "jvar" => d.jvar = c.jvar,
        "hvar" => d.hvar = c.hvar,
        "method" => d.method = c.method,
        "ednsty" => d.ednsty = c.ednsty,
        "file" => d.file = c.file.clone(),
        "strob" => d.strob = c.strob,
        "offset" => d.offset = c.offset,
        "beta" => d.beta = c.beta,
        "mc_points" => d.mc_points = c.mc_points,
        "e" => d.e = c.e,
        "drive" => d.drive = c.drive.clone(),
        _ => d.log = c.log,
    }
}
/// The documented defaults, written out here so that a changed default is seen.
pub fn default_conf() -> Config {
    default_case().conf()
}
pub fn default_case() -> Conf {
    Conf {
        hsize: 512,
        ssize: 8,
        t: 256.0,
        dt: 0.02,
        runs: 2,
        trel: 0.0,
        threads: 2,
        tau: 10.0,
        lambda: 1.0,
        hfield: [0.0; 3],
        hs: [0.0; 3],
        jvar: 0.001,
        hvar: 0.0,
        method: 2,
        ednsty: -0.66,
        file: "log".to_string(),
        strob: false,
        offset: 0,
        beta: 2.88,
        mc_points: 1000,
        e: 0.9,
        drive: 1,
        log: true,
    }
}
fn part_text(k: &PartCase) -> String {
    let mut s = String::new();
    let mut tail = String::new();
    for (i, x) in k.keys.iter().enumerate() {
        let name = KEYS[*x as usize];
        if k.style >> (20 + i) & 1 == 1 {
            s.push_str("# a comment = 3\n\n");
        }
        let q = if k.style >> (30 + i) & 3 == 3 { format!("\"{}\"", name) } else { name.to_string() };
        s.push_str(&format!("{}{}={}{}{}\n", if k.style & 1 == 1 { "  " } else { "" }, q, if k.style & 2 == 2 { "\t" } else { " " }, value_of(&k.c, name, k.style), if k.style & 8 == 8 { "  # x" } else { "" }));
        for (m, e) in k.extra.iter().enumerate() {
            if *e as usize % 23 == i {
                s.push_str(&format!("{}_{} = {}\n", ["nosuch", "hsize2", "Tau", "speed"][*e as usize / 64], m, ["1", "\"s\"", "[1, 2]", "false"][*e as usize % 4]));
            }
        }
    }
    for (m, e) in k.extra.iter().enumerate() {
        if e % 5 == 0 {
            tail.push_str(&format!("[extra{}]\nhsize = 3\ntau = \"x\"\n", m));
        }
    }
    s + &tail
}
fn check_part(k: &PartCase) -> Outcome {
    cwd();
    let s = part_text(k);
    let f = format!("{}.toml", fresh_name("part"));
    std::fs::write(&f, &s).map_err(|e| Fail::Harness(e.to_string()))?;
    let got = guarded(|| read(k.lang, &f));
    let after = std::fs::read_to_string(&f).unwrap_or_default();
    let _ = std::fs::remove_file(&f);
    let got = got.map_err(|e| Fail::Violation(format!("a valid configuration is refused ({}):\n{}", e, s)))?;
    let mut want = default_conf();
    let c = k.c.conf();
    for x in &k.keys {
        apply_key(&mut want, &c, KEYS[*x as usize]);
    }
    ensure!(show(&got) == show(&want), "the file\n{}\nreads as {}, expected {}", s, show(&got), show(&want));
    ensure!(after == s, "reading a configuration changed the file");
    Ok(Info::nt(!k.keys.is_empty() && k.keys.len() < 23).label_if(!k.extra.is_empty(), "unknown options").label_if(k.keys.is_empty(), "no known option"))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct BadCase {
    p: PartCase,
    how: u8,
    at: u64,
}
fn gen_bad(g: &mut Gen) -> BadCase {
    let mut p = gen_part(g);
    p.extra = vec![];
    BadCase { p, how: g.below(18) as u8, at: g.raw() }
}
/// A document no reader may accept.
fn bad_text(k: &BadCase) -> Vec<u8> {
    let keep = |name: &str| {
        let mut p = k.p.clone();
        p.keys.retain(|x| KEYS[*x as usize] != name);
        part_text(&p)
    };
    let put = |base: String, line: &str| {
        // anywhere between two lines of the flat part
        if base.contains("[\n") {
            return format!("{}{}\n", base, line);
        }
        let ls: Vec<&str> = base.lines().collect();
        let i = (k.at % (ls.len() as u64 + 1)) as usize;
        let mut o = String::new();
        for l in &ls[..i] {
            o += l;
            o += "\n";
        }
        o += line;
        o += "\n";
        for l in &ls[i..] {
            o += l;
            o += "\n";
        }
        o
    };
    let r = match k.how {
        0 => put(keep("hsize"), "hsize = \"512\""),
        1 => put(keep("hsize"), "hsize = 1.5"),
        2 => put(keep("drive"), "drive = \"circular\""),
        3 => put(keep("drive"), "drive = 1"),
        4 => put(keep("hfield"), "hfield = 1.0"),
        5 => put(keep("hs"), "hs = [\"a\", \"b\", \"c\"]"),
        6 => put(keep("strob"), "strob = 1"),
        7 => put(keep("file"), "file = log"),
        8 => put(keep("tau"), "tau = "),
        9 => put(keep("tau"), "tau 10.0"),
        10 => put(keep("offset"), "offset = -1"),
        11 => put(keep("beta"), "beta = 1.0\nbeta = 1.0"),
        12 => put(keep("log"), "log = yes"),
        13 => put(keep("hsize"), "hsize = 99999999999"),
        14 => put(keep("file"), "file = \"log"),
        15 => put(keep("mc_points"), "mc_points = 1e3"),
        16 => put(keep("dt"), "dt = true"),
        _ => {
            // not text at all
            let mut v = keep("file").into_bytes();
            v.extend_from_slice(b"file = \"log");
            v.extend_from_slice(&[0xff, 0xfe, 0x80 | (k.at as u8 & 0x3f)]);
            v.extend_from_slice(b"\"\n");
            return v;
        }
    };
    r.into_bytes()
}
fn check_bad(k: &BadCase) -> Outcome {
    let d = cwd();
    let s = bad_text(k);
    let f = format!("{}.toml", fresh_name("bad"));
    std::fs::write(&f, &s).map_err(|e| Fail::Harness(e.to_string()))?;
    let got = guarded(|| read(k.p.lang, &f));
    let after = std::fs::read(&f).unwrap_or_default();
    let _ = std::fs::remove_file(&f);
    let s2 = String::from_utf8_lossy(&s).to_string();
    let def = std::path::Path::new(&format!("{}/config.toml", d)).exists();
    if def {
        let _ = std::fs::remove_file(format!("{}/config.toml", d));
    }
    ensure!(got.is_err(), "a malformed configuration is accepted as {}:\n{}", show(&got.unwrap()), s2);
    ensure!(after == s, "a malformed configuration is overwritten: {}", s2);
    ensure!(!def, "a default config.toml is written for a malformed configuration:\n{}", s2);
    Ok(Info::nt(true).label(if k.how >= 17 { "not UTF-8" } else if [7, 8, 9, 11, 12, 14].contains(&k.how) { "not TOML" } else { "wrong type" }))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct MissCase {
    lang: bool,
    name: String,
    deep: bool,
}
fn gen_miss(g: &mut Gen) -> MissCase {
    MissCase { lang: g.chance(0.5), name: g.pick(&["config.toml", "other.toml", "x", "no such"]).to_string(), deep: g.chance(0.3) }
}
fn check_miss(k: &MissCase) -> Outcome {
    let d = cwd();
    let own = format!("{}/config.toml", d);
    let _ = std::fs::remove_file(&own);
    let name = if k.deep { format!("no-such-dir/{}", k.name) } else { k.name.clone() };
    let got = read(k.lang, &name);
    let want = default_conf();
    ensure!(show(&got) == show(&want), "a missing file gives {}, expected the defaults {}", show(&got), show(&want));
    let body = std::fs::read_to_string(&own);
    ensure!(body.is_ok(), "no config.toml is left after reading the missing {:?}", name);
    let body = body.unwrap();
    let v: Result<toml::Table, _> = body.parse();
    ensure!(v.is_ok(), "the config.toml left behind is not TOML: {}", body);
    let v = v.unwrap();
    for key in KEYS.iter() {
        ensure!(v.contains_key(*key), "the default config.toml lacks {}", key);
    }
    let again = read(!k.lang, "config.toml");
    ensure!(show(&again) == show(&want), "the default config.toml reads back as {}", show(&again));
    let now = std::fs::read_to_string(&own).unwrap_or_default();
    let n = std::fs::read_dir(d).map(|x| x.count()).unwrap_or(0);
    let _ = std::fs::remove_file(&own);
    ensure!(now == body, "reading the default config.toml changed it");
    harness!(n >= 1, "scratch directory vanished");
    ensure!(n == 1, "{} files are left after reading a missing configuration", n);
    Ok(Info::nt(true).label(k.name.clone()))
}
pub fn c01() -> Property {
    Property {
        id: "C01",
        families: vec![
            Family::new("missing", 200, 2000, gen_miss, check_miss, "every case counts").serial().boxed(),
            Family::new("round-trip", 100000, 1500000, gen_round, check_round, "every case counts: a whole configuration through a file").boxed(),
            Family::new("partial", 150000, 2000000, gen_part, check_part, "some but not all options are named").boxed(),
            Family::new("malformed", 80000, 800000, gen_bad, check_bad, "every case counts").boxed(),
        ],
        assumptions: vec!["TOML itself is the toml crate's business; the documents vary order, spacing, quoting, number formats, comments and unknown keys"],
    }
}
