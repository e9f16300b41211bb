//! B06: the temperature fits of the command line program, against exact ring thermodynamics.
use crate::bin::*;
use crate::engine::*;
use crate::gen::*;
use crate::p_bin::*;
use crate::p_init::*;
use crate::therm;
use crate::util::*;
use crate::{ensure, harness};
use serde::{Deserialize, Serialize};

/// -f
pub const FIT: u8 = 0;
/// -F
pub const EFF: u8 = 1;
/// -D
pub const INHOM: u8 = 2;
/// -r
pub const ROT: u8 = 3;
/// -E
pub const MAGLAB: u8 = 4;
const NAMES: [&str; 5] = ["-f", "-F", "-D", "-r", "-E"];
const LONG: [&str; 5] = ["-f", "-F", "--adiab_full", "--rot-frame", "--magnus-fit"];
const FILES: [&str; 5] = ["betat.dat", "betat.dat", "beta.dat", "betat-rot.dat", "betat-maglab.dat"];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FitCase {
    kind: u8,
    n: usize,
    s: usize,
    lambda: f64,
    tau: f64,
    by_option: bool,
    hfield: V3,
    hs: V3,
    /// the target belongs to this inverse temperature, or is out of reach (0: above, 1: below)
    beta: f64,
    out: u8,
    before: bool,
    form: u8,
    thin: u32,
    seed: u64,
}
fn gen_fit(g: &mut Gen) -> FitCase {
    let kind = g.below(5) as u8;
    let n = g.us(2, 5);
    let n = if kind == ROT || kind == MAGLAB { n.max(3) } else { n };
    let s = if kind == EFF || kind == INHOM || kind == ROT { if g.chance(0.5) { n } else { g.us(1, n) } } else { n };
    let tau = match g.below(3) {
        0 => g.log(3.2, 30.0),
        1 => g.pick(&[4.0, 10.0, 5.0]),
        _ => g.log(3.2, 8.0),
    };
    FitCase {
        kind,
        n,
        s,
        lambda: g.pick(&[1.0, 1.0, 0.5, 1.5, 0.0]),
        tau,
        by_option: g.chance(0.5),
        hfield: g.vec3(0.5),
        hs: g.vec3(0.5),
        beta: g.log(0.1, 4.0),
        out: if g.chance(0.2) { g.us(0, 1) as u8 } else { 9 },
        before: g.chance(0.3),
        form: g.below(4) as u8,
        thin: if kind == ROT || kind == MAGLAB { 20 } else { 2 },
        seed: g.raw() >> 1,
    }
}
fn gen_fit_full(g: &mut Gen) -> FitCase {
    let mut k = gen_fit(g);
    k.thin = if k.kind == ROT || k.kind == MAGLAB { 4 } else { 1 };
    k
}
/// long rings, whose sampling noise is small
fn gen_fit_long(g: &mut Gen) -> FitCase {
    let mut k = gen_fit(g);
    k.n = g.us(100, 160);
    k.s = if k.kind == EFF || k.kind == INHOM || k.kind == ROT { if g.chance(0.6) { k.n } else { g.us(1, k.n) } } else { k.n };
    k.beta = g.log(0.25, 2.0);
    k.out = 9;
    k.thin = if k.kind == ROT || k.kind == MAGLAB { 4 } else { 1 };
    if k.kind == MAGLAB {
        k.tau = g.log(2.0, 8.0);
    }
    k
}
/// the fields of the ensemble (weight exp(-beta H)) and those in the fitted energy
fn fields(k: &FitCase) -> (Vec<V3>, Vec<V3>) {
    let om = 2.0 * PI / k.tau;
    let f = |i: usize| -> (V3, V3) {
        let x = if i < k.s { 1.0 } else { 0.0 };
        match k.kind {
            FIT => ([1.0, 0.0, -om], [1.0, 0.0, 0.0]),
            EFF | INHOM | ROT => ([x, 0.0, -om], [x, 0.0, -om]),
            _ => ([0.0, 0.0, -0.5 / om], [0.0, 0.0, -0.5 / om]),
        }
    };
    ((0..k.n).map(|i| f(i).0).collect(), (0..k.n).map(|i| f(i).1).collect())
}
/// mean and variance, per site, of exchange plus fields `o` in the ensemble with fields `h`
fn moments(n: usize, j: &V3, h: &[V3], o: &[V3], beta: f64, sp: &therm::Sphere) -> (f64, f64) {
    let d = 2e-3;
    let f = |mu: f64| {
        let hh: Vec<V3> = h.iter().zip(o).map(|(a, b)| add(&scale(a, beta), &scale(b, mu))).collect();
        therm::ln_z(&scale(j, beta + mu), &hh, 1.0, sp)
    };
    let (a, b, c) = (f(-d), f(0.0), f(d));
    (-(c - a) / (2.0 * d) / n as f64, ((a - 2.0 * b + c) / (d * d)).max(0.0) / (n * n) as f64)
}
fn conf_of(k: &FitCase) -> Conf {
    let mut c = default_case();
    c.hsize = k.n as i32;
    c.ssize = k.s as i32;
    if k.kind == FIT {
        // this mode fits the subsystem alone
        c.hsize = (2 * k.n + 3) as i32;
    }
    c.jvar = 0.0;
    c.lambda = k.lambda;
    c.tau = if k.by_option { 1.7 } else { k.tau };
    c.hfield = k.hfield;
    c.hs = k.hs;
    c
}
fn new_line(d: &Dir, f: &str, before: bool, what: &str, cols: usize) -> Result<Vec<f64>, Fail> {
    let s = d.read(f).unwrap_or_default();
    let old = if before { "an old line\n" } else { "" };
    ensure!(s.starts_with(old), "{} changed the line {} had", what, f);
    let t = table(&format!("{} ({})", f, what), &s[old.len()..], cols)?;
    ensure!(t.len() == 1, "{} wrote {} lines to {}", what, t.len(), f);
    Ok(t[0].clone())
}
fn chk_fit(k: &FitCase) -> Outcome {
    let sp = therm::sphere(13, 14);
    let j = [1.0, 1.0, k.lambda];
    let (h, o) = fields(k);
    let target = match k.out {
        0 => 7.5,
        1 => -9.25,
        _ => moments(k.n, &j, &h, &o, k.beta, &sp).0,
    };
    let d = Dir::new("fit");
    let mut c = conf_of(k);
    let file = FILES[k.kind as usize];
    if k.before {
        d.write(file, "an old line\n")?;
    }
    let name = if k.form % 2 == 0 { NAMES[k.kind as usize] } else { LONG[k.kind as usize] };
    let mut a = args(&[name]);
    let mut inverse = 1.0;
    if k.kind == INHOM {
        // the target is the configured energy density, the option the period
        if k.out != 9 || target <= -1.0 || target >= 1.0 {
            inverse = if k.form % 2 == 0 { 0.4 } else { 2.2 };
            a.push(format!("{}", k.tau));
            a.extend(args(&["-b", &format!("{}", inverse)]));
        } else {
            inverse = if target < 0.0 { therm::solve_beta(target) } else { -therm::solve_beta(-target) };
            a.push(format!("{}", k.tau));
        }
        c.ednsty = target;
    } else {
        a.push(format!("{}", target));
        if k.by_option {
            a.extend(args(&["-t", &format!("{}", k.tau)]));
        }
    }
    let conf = conf_text(&c);
    d.write("config.toml", &conf)?;
    ok_run(&d, &a, k.seed, k.thin)?;
    let what = a.join(" ");
    let r = new_line(&d, file, k.before, &what, if k.kind == INHOM { 3 } else { 7 })?;
    ensure!(d.read("config.toml").as_deref() == Some(&conf[..]), "{} changed config.toml", what);
    ensure!(d.snapshot().len() == 2, "{} left other files: {:?}", what, d.snapshot().keys().collect::<Vec<_>>());
    ensure!((r[0] - k.tau).abs() < 1e-12 * k.tau, "{}: the line has tau = {}, not {}", what, r[0], k.tau);
    let beta = if k.kind == INHOM {
        ensure!((r[1] - inverse).abs() < 1e-5 * (1e-6 + inverse.abs()), "{}: the line has the inverse temperature {}, expected {}", what, r[1], inverse);
        r[2]
    } else {
        ensure!((r[1] - target).abs() < 1e-12 * target.abs(), "{}: the line has the target {}", what, r[1]);
        r[2]
    };
    let lo = if k.kind == ROT || k.kind == MAGLAB { 1e-4 } else { 0.01 };
    ensure!(beta >= lo && beta <= 5.0, "{}: the inverse temperature {} is out of the range {} to 5", what, beta, lo);
    // the energy of the ensemble found
    let (e, var) = moments(k.n, &j, &h, &o, beta, &sp);
    let slope = (moments(k.n, &j, &h, &o, beta * 1.01, &sp).0 - moments(k.n, &j, &h, &o, beta * 0.99, &sp).0).abs() / (0.02 * beta);
    let tol = 5.5 * (var / 300.0).sqrt() + 0.002 * slope + 2e-3;
    if beta < lo + 0.0015 {
        ensure!(target > e - tol, "{}: went to the hot end ({}) although the energy there, {}, is above the target {}", what, beta, e, target);
    } else if beta > 5.0 - 0.0015 {
        ensure!(target < e + tol, "{}: went to the cold end ({}) although the energy there, {}, is below the target {}", what, beta, e, target);
    } else {
        ensure!((e - target).abs() < tol, "{}: at the inverse temperature {} found the energy is {}, requested {} (tolerance {}, ring of {}, lambda = {})", what, beta, e, target, tol, k.n, k.lambda);
    }
    if k.out == 0 {
        ensure!(beta < lo + 0.0015, "{}: the target is above all energies, the inverse temperature found {} is not the hot end", what, beta);
    }
    if k.out == 1 {
        ensure!(beta > 5.0 - 0.0015, "{}: the target is below all energies, the inverse temperature found {} is not the cold end", what, beta);
    }
    let mut obs = false;
    if k.kind != INHOM && (k.s == k.n) {
        observables(&what, &r[3..7], k.n, &j, &h[0], k.kind, &add(&k.hfield, &k.hs), beta, &sp)?;
        obs = true;
    }
    Ok(Info::nt(true)
        .label(name.to_string())
        .label(if k.out == 9 { "attainable" } else { "out of reach" })
        .label_if(obs, "observables compared")
        .label_if(k.by_option, "period from the command line")
        .label_if(k.s < k.n, "subsystem smaller than the ring"))
}
/// the averages e mx my mz written with a fit
fn observables(what: &str, got: &[f64], n: usize, j: &V3, h: &V3, kind: u8, stat: &V3, beta: f64, sp: &therm::Sphere) -> Result<(), Fail> {
    let m = therm::ring(n, j, h, beta, sp).m;
    // the fields in the energy which is written
    let o: V3 = match kind {
        FIT => [1.0, 0.0, 0.0],
        EFF => *h,
        _ => add(stat, &[1.0, 0.0, 0.0]),
    };
    let hs = vec![*h; n];
    let (e, var) = moments(n, j, &hs, &vec![o; n], beta, sp);
    harness!(e.is_finite() && var.is_finite(), "no exact average");
    let neff = 2000.0;
    let tol = 6.5 * (var / neff).sqrt() + 3e-3;
    ensure!((got[0] - e).abs() < tol, "{}: the energy {} is written, the ensemble at the inverse temperature {} has {} (tolerance {})", what, got[0], beta, e, tol);
    for q in 0..3 {
        // fluctuations of the mean spin: from the response to a field along it
        let d = 2e-3;
        let f = |mu: f64| {
            let mut x = scale(h, beta);
            x[q] += mu;
            therm::ln_z(&scale(j, beta), &vec![x; n], 1.0, sp)
        };
        let v = ((f(-d) - 2.0 * f(0.0) + f(d)) / (d * d)).max(0.0) / (n * n) as f64;
        let tol = 6.5 * (v / neff).sqrt() + 3e-3;
        ensure!((got[1 + q] - m[q]).abs() < tol, "{}: the magnetisation {:?} is written, the ensemble at the inverse temperature {} has {:?}", what, &got[1..4], beta, m);
    }
    Ok(())
}

// ---------------------------------------------------------------- -H

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct HighCase {
    n: usize,
    lambda: f64,
    tau: f64,
    hs: V3,
    beta: f64,
    by_file: bool,
    target: f64,
    before: bool,
    long: bool,
    seed: u64,
}
pub fn gen_high(g: &mut Gen) -> HighCase {
    HighCase {
        n: g.us(2, 5),
        lambda: g.pick(&[1.0, 1.0, 0.5, 1.5]),
        tau: g.log(0.05, 20.0),
        hs: g.vec3(0.5),
        beta: match g.below(6) {
            0 => 0.0,
            1 | 2 => -g.log(0.1, 4.0),
            _ => g.log(0.1, 4.0),
        },
        by_file: g.chance(0.5),
        target: g.num(1.0),
        before: g.chance(0.3),
        long: g.chance(0.5),
        seed: g.raw() >> 1,
    }
}
fn clamp_v(v: &V3, m: f64) -> V3 {
    [v[0].max(-m).min(m), v[1].max(-m).min(m), v[2].max(-m).min(m)]
}
pub fn chk_high(k: &HighCase) -> Outcome {
    let sp = therm::sphere(13, 14);
    let d = Dir::new("hig");
    let mut c = default_case();
    c.hsize = k.n as i32;
    c.ssize = k.n as i32;
    c.jvar = 0.0;
    c.lambda = k.lambda;
    c.tau = k.tau;
    c.hs = clamp_v(&k.hs, 1.0);
    c.hfield = [0.3, -0.2, 0.9];
    c.ednsty = if k.by_file { -langevin(k.beta) } else { -0.3 };
    let conf = conf_text(&c);
    d.write("config.toml", &conf)?;
    if k.before {
        d.write("betat.dat", "an old line\n")?;
    }
    let mut a = args(&[if k.long { "--high-freq" } else { "-H" }, &format!("{}", k.target)]);
    if !k.by_file {
        a.extend(args(&[&format!("--beta={}", k.beta)]));
    }
    ok_run(&d, &a, k.seed, 2)?;
    let what = a.join(" ");
    let r = new_line(&d, "betat.dat", k.before, &what, 7)?;
    ensure!((r[0] - k.tau).abs() < 1e-12 * k.tau && (r[1] - k.target).abs() <= 1e-12 * k.target.abs(), "{}: the line is {:?}", what, r);
    ensure!((r[2] - k.beta).abs() <= if k.by_file { 1e-5 * k.beta.abs() + 1e-9 } else { 1e-12 * k.beta.abs() }, "{}: ran at the inverse temperature {}, not {}", what, r[2], k.beta);
    ensure!(d.read("config.toml").as_deref() == Some(&conf[..]), "{} changed config.toml", what);
    let h = add(&c.hs, &[0.0, 0.0, -k.tau / (4.0 * PI)]);
    observables(&what, &r[3..7], k.n, &[1.0, 1.0, k.lambda], &h, EFF, &[0.0; 3], k.beta, &sp)?;
    Ok(Info::nt(true).label(if k.by_file { "from the energy density" } else { "from the command line" }).label_if(k.beta < 0.0, "negative temperature"))
}
pub fn gen_high_beta(g: &mut Gen) -> HighCase {
    let mut k = gen_high(g);
    k.by_file = false;
    k
}

// ---------------------------------------------------------------- -A

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct AdiabCase {
    n: usize,
    lambda: f64,
    tau: f64,
    dt: f64,
    drive: u8,
    runs: i32,
    threads: usize,
    hfield: V3,
    beta: f64,
    aligned: bool,
    before: bool,
    long: bool,
    seed: u64,
}
fn gen_adiab(g: &mut Gen) -> AdiabCase {
    let aligned = g.chance(0.3);
    let tau = g.log(3.2, 15.0);
    AdiabCase {
        n: 2 * g.us(1, 2),
        lambda: if aligned { 1.0 } else { g.pick(&[1.0, 0.5, 1.5]) },
        tau,
        dt: tau / g.range(30, 60) as f64,
        drive: g.pick(&[1, 1, 2, 0]),
        runs: g.range(1, 4) as i32,
        threads: g.us(1, 5),
        hfield: if aligned || g.chance(0.5) { [0.0; 3] } else { clamp_v(&g.vec3(0.4), 0.5) },
        beta: if aligned { 1e12 } else { g.log(0.3, 3.0) },
        aligned,
        before: g.chance(0.3),
        long: g.chance(0.5),
        seed: g.raw() >> 1,
    }
}
fn chk_adiab(k: &AdiabCase) -> Outcome {
    let sp = therm::sphere(13, 14);
    let d = Dir::new("adi");
    let mut c = default_case();
    c.hsize = k.n as i32;
    c.ssize = k.n as i32;
    c.jvar = 0.0;
    c.lambda = k.lambda;
    c.tau = 1.7;
    c.dt = k.dt;
    c.drive = if k.aligned { 0 } else { k.drive };
    c.runs = k.runs;
    c.threads = k.threads;
    c.hfield = k.hfield;
    c.hs = [0.0; 3];
    let conf = conf_text(&c);
    d.write("config.toml", &conf)?;
    if k.before {
        d.write("beta.dat", "an old line\n")?;
    }
    let a = args(&[if k.long { "--adiabatic" } else { "-A" }, &format!("{}", k.tau), "-b", &format!("{:e}", k.beta)]);
    ok_run(&d, &a, k.seed, 2)?;
    let what = a.join(" ");
    let r = new_line(&d, "beta.dat", k.before, &what, 8)?;
    ensure!((r[0] - k.tau).abs() < 1e-12 * k.tau, "{}: the line has tau = {}", what, r[0]);
    ensure!((r[1] - k.beta).abs() <= 1e-9 * k.beta, "{}: the line has the initial inverse temperature {}", what, r[1]);
    ensure!(d.read("config.toml").as_deref() == Some(&conf[..]), "{} changed config.toml", what);
    let (beta, mean) = (r[2], r[7]);
    ensure!(beta >= 0.01 && beta <= 5.0, "{}: the inverse temperature {} is out of the range 0.01 to 5", what, beta);
    let jm = 1.0f64.max(k.lambda.abs());
    ensure!(mean.abs() <= jm + 2.0 + len(&k.hfield), "{}: the mean energy {} of the trajectories is out of bounds", what, mean);
    if k.aligned {
        ensure!((mean + 1.0).abs() < 1e-3, "{}: parallel spins without fields have the mean energy {}", what, mean);
    }
    let om = 2.0 * PI / k.tau;
    let j = [1.0, 1.0, k.lambda];
    let h = add(&k.hfield, &[1.0, 0.0, -om]);
    let hv = vec![h; k.n];
    let o = vec![add(&h, &[0.0, 0.0, om]); k.n];
    let (e, var) = moments(k.n, &j, &hv, &o, beta, &sp);
    let slope = (moments(k.n, &j, &hv, &o, beta * 1.01, &sp).0 - moments(k.n, &j, &hv, &o, beta * 0.99, &sp).0).abs() / (0.02 * beta);
    let tol = 5.5 * (var / 300.0).sqrt() + 0.002 * slope + 2e-3;
    let lab;
    if beta < 0.0115 {
        ensure!(mean > e - tol, "{}: went to the hot end although the energy there, {}, is above the target {}", what, e, mean);
        lab = "hot end";
    } else if beta > 5.0 - 0.0015 {
        ensure!(mean < e + tol, "{}: went to the cold end although the energy there, {}, is below the target {}", what, e, mean);
        lab = "cold end";
    } else {
        ensure!((e - mean).abs() < tol, "{}: at the inverse temperature {} found the energy is {}, the trajectories have {} (tolerance {})", what, beta, e, mean, tol);
        lab = "interior";
    }
    // the energy written leaves the -omega S^z out, like the fitted one
    let (m, neff) = (therm::ring(k.n, &j, &h, beta, &sp).m, 2000.0);
    let tol = 6.5 * (var / neff).sqrt() + 3e-3;
    ensure!((r[3] - e).abs() < tol, "{}: the energy {} is written, the ensemble has {} (tolerance {})", what, r[3], e, tol);
    for q in 0..3 {
        ensure!((r[4 + q] - m[q]).abs() < 6.5 / neff.sqrt() + 3e-3, "{}: the magnetisation {:?} is written, the ensemble has {:?}", what, &r[4..7], m);
    }
    Ok(Info::nt(true).label(lab).label_if(k.aligned, "parallel spins").label_if(k.runs > 1, "several trajectories"))
}

pub fn b06() -> Property {
    Property {
        id: "B06",
        families: vec![
            Family::new("fits", 60, 1200, gen_fit, chk_fit, "always").shrink(12).shard_size(2).boxed(),
            Family::new("fits-full", 2, 60, gen_fit_full, chk_fit, "always").shrink(3).shard_size(1).boxed(),
            Family::new("fits-long", 24, 300, gen_fit_long, chk_fit, "always").shrink(3).shard_size(1).boxed(),
            Family::new("high-frequency", 24, 400, gen_high, chk_high, "always").shrink(12).shard_size(2).boxed(),
            Family::new("adiabatic", 16, 300, gen_adiab, chk_adiab, "always").shrink(8).shard_size(1).boxed(),
        ],
        assumptions: vec![
            "No disorder; rings of 2 to 5 spins, whose averages are computed by quadrature.",
            "The accuracy asked for is that of the program's own 1000 (fit) and 8000 (observables) samples, taken as 300 and 2000 independent ones, at 5.5 to 6.5 standard errors.",
            "The observables are compared for a subsystem that is the whole ring: otherwise the program averages a different ensemble than the one it fitted.",
            "Some Monte-Carlo updates are left out (guarded hook); the family `fits-full` leaves out fewer or none.",
        ],
    }
}
