//! B05: the sampling modes of the command line program.
use crate::bin::*;
use crate::chain::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::p_bin::*;
use crate::p_init::*;
use crate::util::*;
use serde::{Deserialize, Serialize};

fn mean_spins(r: &[f64], at: usize) -> V3 {
    [r[at], r[at + 1], r[at + 2]]
}
fn base_conf(g: &mut Gen, nmin: usize, nmax: usize, smin: usize, even: bool) -> Conf {
    let mut c = gen_sim_conf(g, &SimOpts { nmax: 4, steps: 20.0, jvar: true });
    let n = g.size(nmin, nmax, even);
    c.hsize = n as i32;
    c.ssize = match g.below(4) {
        0 => n,
        1 => smin.max(2).min(n),
        2 => smin.max(3).min(n),
        _ => g.us(smin, n),
    } as i32;
    c.threads = match g.below(4) {
        0 => 1,
        1 => g.us(2, 4),
        2 => g.us(5, 16),
        _ => g.us(1, 8),
    };
    if g.chance(0.6) {
        c.jvar = 0.0;
        c.hvar = 0.0;
    }
    c
}
fn points(g: &mut Gen, threads: usize) -> usize {
    match g.below(5) {
        0 => 1,
        1 => threads,
        2 => (threads + g.us(1, 3)).max(1),
        3 => (threads * g.us(1, 5) + g.us(0, threads)).max(1),
        _ => g.us(1, 60),
    }
}
/// fraction of the chain an 11-column line shows, if all of the subsystem
fn shown(s: usize, m: &V3, sm: &V3, sp: &V3) -> Option<Vec<V3>> {
    let tot = scale(m, s as f64);
    match s {
        1 => Some(vec![*sm]),
        2 => Some(vec![*sm, *sp]),
        3 => Some(vec![*sm, sub(&sub(&tot, sm), sp), *sp]),
        _ => None,
    }
}
/// energy of the first s spins closed into a ring, per spin, static fields only
fn sub_ring(c: &ChainCase, s: &[V3]) -> f64 {
    let n = s.len();
    let mut e = 0.0;
    for i in 0..n {
        e += dot(&s[i], &c.h[i]) - bond(&s[i], &c.j[i], &s[(i + 1) % n]);
    }
    e / n as f64
}
fn sub_open(c: &ChainCase, s: &[V3], t: f64) -> f64 {
    let b = c.fields_at(t);
    let n = s.len();
    let mut e = 0.0;
    for i in 0..n - 1 {
        e += dot(&s[i], &b[i]) - bond(&s[i], &c.j[i], &s[i + 1]);
    }
    e / (n - 1) as f64
}
fn unit(what: &str, v: &V3) -> Result<(), Fail> {
    ensure!((len(v) - 1.0).abs() < 1e-9, "{}: the spin {:?} has length {}", what, v, len(v));
    Ok(())
}
/// magnetisation of the subsystem and the two spins of a line
fn check_spins(what: &str, c: &Conf, m: &V3, sm: &V3, sp: &V3) -> Result<Option<Vec<V3>>, Fail> {
    unit(what, sm)?;
    unit(what, sp)?;
    ensure!(len(m) <= 1.0 + 1e-9, "{}: the magnetisation {:?} per spin has length {}", what, m, len(m));
    let s = c.ssize as usize;
    if s == 1 {
        ensure!(dist(sm, sp) < 1e-12 && dist(sm, m) < 1e-12, "{}: one spin is shown as {:?}, {:?} and {:?}", what, m, sm, sp);
    }
    if s == 2 {
        let w = scale(&add(sm, sp), 0.5);
        ensure!(dist(&w, m) < 1e-12, "{}: the two spins {:?} and {:?} make the magnetisation {:?}, not {:?}", what, sm, sp, w, m);
    }
    let v = shown(s, m, sm, sp);
    if let Some(v) = &v {
        for x in v {
            unit(what, x)?;
        }
    }
    // what is left to make up the sum has to fit unit spins
    if s > 3 {
        let rest = sub(&sub(&scale(m, s as f64), sm), sp);
        ensure!(len(&rest) <= (s - 2) as f64 + 1e-9, "{}: magnetisation {:?} of {} spins, two of which are {:?} and {:?}", what, m, s, sm, sp);
    }
    Ok(v)
}
/// an upper bound of any energy per spin, random parts included
fn bound(c: &Conf) -> f64 {
    let r = 8.0;
    let j = 1.0f64.max(c.lambda.abs()) + r * c.jvar;
    2.0 * (3f64.sqrt() * j) + len(&c.hfield) + len(&c.hs) + 2.0 + c.e.abs() + 3.0 * r * c.hvar
}

// ---------------------------------------------------------------- live samples

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct LiveCase {
    c: Conf,
    magnus: bool,
    before: Option<String>,
    thin: u32,
    flag: u8,
    seed: u64,
}
fn gen_live(g: &mut Gen) -> LiveCase {
    let magnus = g.chance(0.35);
    let mut c = base_conf(g, if magnus { 4 } else { 2 }, 12, 1, false);
    if !magnus && g.chance(0.3) {
        c.hsize = g.pick(&[2, 3]);
        c.ssize = c.hsize;
    }
    c.mc_points = points(g, c.threads);
    c.trel = g.pick(&[0.0, 0.0, 1.0, -2.5, 0.3]);
    let before = match g.below(4) {
        0 => Some(String::new()),
        1 => Some("1 2 3 4 5 6 7 8 9 10 11\n".to_string()),
        _ => None,
    };
    LiveCase { c, magnus, before, thin: 5000, flag: g.below(4) as u8, seed: g.raw() >> 1 }
}
fn gen_live_full(g: &mut Gen) -> LiveCase {
    let mut k = gen_live(g);
    k.thin = 1;
    k.c.mc_points = k.c.mc_points.min(5);
    k
}
fn chk_live(k: &LiveCase) -> Outcome {
    let d = Dir::new("liv");
    let conf = conf_text(&k.c);
    d.write("config.toml", &conf)?;
    if let Some(b) = &k.before {
        d.write("mc_live.dat", b)?;
    }
    let log = format!("{}0.dat", k.c.file);
    d.write(&log, "kept\n")?;
    let mut a = match (k.magnus, k.flag % 2) {
        (true, _) => args(&["--monte-carlo-magnus"]),
        (_, 0) => args(&["-m"]),
        _ => args(&["--monte-carlo"]),
    };
    // a temperature at which updates are accepted
    a.extend(args(&["-b", "0.7"]));
    ok_run(&d, &a, k.seed, k.thin)?;
    let s = d.read("mc_live.dat").unwrap_or_default();
    let old = k.before.clone().unwrap_or_default();
    ensure!(s.starts_with(&old), "{} changed the lines mc_live.dat had", a[0]);
    let what = format!("{} with {} points, {} threads", a[0], k.c.mc_points, k.c.threads);
    let t = table(&format!("mc_live.dat ({})", what), &s[old.len()..], 11)?;
    ensure!(t.len() == k.c.mc_points, "{}: {} lines written", what, t.len());
    ensure!(d.read("config.toml").as_deref() == Some(&conf[..]) && d.read(&log).as_deref() == Some("kept\n"), "{} changed other files", a[0]);
    ensure!(d.snapshot().len() == 3, "{} left other files: {:?}", a[0], d.snapshot().keys().collect::<Vec<_>>());
    let m = model(&k.c);
    let plain = k.c.jvar == 0.0 && k.c.hvar == 0.0;
    let top = bound(&k.c);
    let mut exact = 0;
    for (i, r) in t.iter().enumerate() {
        let w = format!("{}, line {}", what, i);
        let v = check_spins(&w, &k.c, &mean_spins(r, 2), &mean_spins(r, 5), &mean_spins(r, 8))?;
        ensure!(r[0].abs() <= top && r[1].abs() <= top, "{}: energies {} and {} are out of bounds ({})", w, r[0], r[1], top);
        if let (Some(v), true) = (v, plain) {
            let es = sub_ring(&m, &v);
            ensure!((es - r[1]).abs() < 1e-9, "{}: subsystem energy {}, the spins {:?} give {}", w, r[1], v, es);
            exact += 1;
            if k.c.hsize == k.c.ssize {
                let e = ring_energy(&v, &m.j, &m.fields_at(-k.c.trel)) / v.len() as f64;
                ensure!((e - r[0]).abs() < 1e-9, "{}: total energy {}, the spins {:?} give {}", w, r[0], v, e);
            }
        }
        // (large first-order corrections leave few moves to be accepted)
        if k.c.hsize <= 6 && !(k.magnus && k.c.tau > 2.0) {
            ensure!(!t[..i].iter().any(|q| q == r), "{}: the line is there twice", w);
        }
    }
    Ok(Info::nt(k.c.mc_points >= 2)
        .label(if k.magnus { "magnus" } else { "plain" })
        .label(if k.c.threads > k.c.mc_points {
            "more threads than points"
        } else if k.c.mc_points % k.c.threads != 0 {
            "points not divisible"
        } else {
            "points divisible"
        })
        .label_if(exact > 0, "energies recomputed")
        .label_if(k.before.is_some(), "file was there"))
}

// ---------------------------------------------------------------- Monte-Carlo profile

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ProfCase {
    c: Conf,
    /// no Monte-Carlo update is carried out, so that each thread keeps its chain
    frozen: bool,
    beta: f64,
    stale: bool,
    long: bool,
    seed: u64,
}
fn gen_prof(g: &mut Gen) -> ProfCase {
    let mut c = base_conf(g, 2, 40, 1, false);
    c.mc_points = points(g, c.threads);
    let mut frozen = g.chance(0.6);
    if frozen && g.chance(0.7) {
        c.threads = 1;
        c.mc_points = g.us(1, 9);
        c.jvar = 0.0;
        c.hvar = 0.0;
    }
    let mut beta = g.log(0.1, 20.0);
    if c.threads > 1 && g.chance(0.5) {
        // all chains aligned: the mean of each bond is known whatever the number of points
        frozen = true;
        beta = 1e12;
        c.lambda = 1.0;
        c.jvar = 0.0;
        c.hvar = 0.0;
    }
    ProfCase { c, frozen, beta, stale: g.chance(0.3), long: g.chance(0.5), seed: g.raw() >> 1 }
}
/// one line per site: index, bond-centred energy, spin
fn profile(name: &str, s: &str, n: usize) -> Result<Vec<(f64, V3)>, Fail> {
    let t = table(name, s, 5)?;
    ensure!(t.len() == n, "{} has {} lines for {} sites", name, t.len(), n);
    let mut v = vec![];
    for (i, r) in t.iter().enumerate() {
        ensure!(r[0] == i as f64, "{}: line {} is about site {}", name, i, r[0]);
        v.push((r[1], [r[2], r[3], r[4]]));
    }
    Ok(v)
}
fn bond_energies(s: &[V3], j: &[V3]) -> Vec<f64> {
    let n = s.len();
    (0..n).map(|i| -0.5 * (bond(&s[(i + n - 1) % n], &j[(i + n - 1) % n], &s[i]) + bond(&s[i], &j[i], &s[(i + 1) % n]))).collect()
}
fn exact_profile(name: &str, v: &[(f64, V3)], j: &[V3]) -> Result<(), Fail> {
    let s: Vec<V3> = v.iter().map(|x| x.1).collect();
    for (i, x) in s.iter().enumerate() {
        unit(&format!("{}, site {}", name, i), x)?;
    }
    for (i, e) in bond_energies(&s, j).iter().enumerate() {
        ensure!((e - v[i].0).abs() < 1e-9, "{}: site {} has the bond energy {}, its spin {:?} and neighbours give {}", name, i, v[i].0, s[i], e);
    }
    Ok(())
}
fn chk_prof(k: &ProfCase) -> Outcome {
    let d = Dir::new("prf");
    let conf = conf_text(&k.c);
    d.write("config.toml", &conf)?;
    if k.stale {
        d.write("mc_profile.dat", "an old profile\n")?;
    }
    let mut a = args(&[if k.long { "--monte-carlo-profile" } else { "-p" }]);
    a.push("-b".into());
    a.push(format!("{:e}", k.beta));
    ok_run(&d, &a, k.seed, if k.frozen { u32::MAX } else { 5000 })?;
    let n = k.c.hsize as usize;
    let what = format!("mc_profile.dat ({} points, {} threads)", k.c.mc_points, k.c.threads);
    let v = profile(&what, &d.read("mc_profile.dat").unwrap_or_default(), n)?;
    ensure!(d.snapshot().len() == 2, "{} left other files: {:?}", a[0], d.snapshot().keys().collect::<Vec<_>>());
    ensure!(d.read("config.toml").as_deref() == Some(&conf[..]), "{} changed config.toml", a[0]);
    let m = model(&k.c);
    let plain = k.c.jvar == 0.0;
    let top = 3f64.sqrt() * (1.0f64.max(k.c.lambda.abs()) + 8.0 * k.c.jvar);
    for (i, (e, s)) in v.iter().enumerate() {
        ensure!(len(s) <= 1.0 + 1e-9 && e.abs() <= top, "{}: site {} has the mean spin {:?} and the bond energy {}", what, i, s, e);
    }
    let mut lab = "bounds";
    if plain && (k.c.mc_points == 1 || (k.frozen && k.c.threads == 1)) {
        exact_profile(&what, &v, &m.j)?;
        lab = "exact";
    } else if k.beta > 1e11 {
        for (i, (e, s)) in v.iter().enumerate() {
            ensure!((e + 1.0).abs() < 1e-3, "{}: chains of parallel spins with the bond energy {} at site {}", what, e, i);
            ensure!(dist(s, &v[0].1) < 0.02, "{}: chains of parallel spins with the mean spins {:?} at site 0 and {:?} at site {}", what, v[0].1, s, i);
        }
        lab = "aligned";
    }
    Ok(Info::nt(lab != "bounds").label(lab).label(if k.c.mc_points % k.c.threads != 0 { "points not divisible" } else { "points divisible" }).label_if(k.stale, "an old profile in the way"))
}

// ---------------------------------------------------------------- histogram of single shots

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct DynHistCase {
    c: Conf,
    num: usize,
    aligned: bool,
    before: Option<String>,
    long: bool,
    seed: u64,
}
fn gen_dyn_hist(g: &mut Gen) -> DynHistCase {
    let mut c = base_conf(g, 2, 12, 2, true);
    let aligned = g.chance(0.5);
    if aligned {
        // otherwise the steps do not keep the spins parallel
        c.dt = g.log(1e-3, 1e-2);
        c.tau = g.log(0.01, 1.0);
    }
    c.t = g.range(0, 40) as f64 * c.dt;
    let num = match g.below(4) {
        0 => 1,
        1 => c.threads,
        2 => c.threads + g.us(1, 5),
        _ => g.us(1, 60),
    };
    if aligned {
        c.lambda = 1.0;
        c.jvar = 0.0;
        c.hvar = 0.0;
        c.ssize = c.hsize;
    }
    let before = if g.chance(0.3) { Some("0 0 0 1 -1\n".to_string()) } else { None };
    DynHistCase { c, num, aligned, before, long: g.chance(0.5), seed: g.raw() >> 1 }
}
fn chk_dyn_hist(k: &DynHistCase) -> Outcome {
    let d = Dir::new("dyh");
    let conf = conf_text(&k.c);
    d.write("config.toml", &conf)?;
    let f = format!("dyn-hist-t-{}.dat", k.c.t);
    if let Some(b) = &k.before {
        d.write(&f, b)?;
    }
    let num = format!("{}", k.num);
    let mut a = args(&[if k.long { "--dynamic-histogram" } else { "-d" }, &num]);
    a.push("-b".into());
    a.push(if k.aligned { "1e12".into() } else { "1.5".into() });
    ok_run(&d, &a, k.seed, 1000)?;
    let s = d.read(&f).unwrap_or_default();
    let old = k.before.clone().unwrap_or_default();
    ensure!(s.starts_with(&old), "{} changed the lines {} had", a[0], f);
    let what = format!("{} {} with {} threads", a[0], k.num, k.c.threads);
    let t = table(&format!("{} ({})", f, what), &s[old.len()..], 5)?;
    ensure!(t.len() == k.num, "{}: {} lines written", what, t.len());
    let mut seen: Vec<i64> = t.iter().map(|r| r[0] as i64).collect();
    seen.sort();
    ensure!(seen == (0..k.num as i64).collect::<Vec<_>>(), "{}: the lines have the numbers {:?}", what, seen);
    ensure!(d.snapshot().len() == 2, "{} left other files: {:?}", a[0], d.snapshot().keys().collect::<Vec<_>>());
    ensure!(d.read("config.toml").as_deref() == Some(&conf[..]), "{} changed config.toml", a[0]);
    let m = model(&k.c);
    let steps = (k.c.t / k.c.dt).round();
    let end = -k.c.trel + steps * k.c.dt;
    let b = m.fields_at(end)[0];
    for (i, r) in t.iter().enumerate() {
        let v = mean_spins(r, 1);
        ensure!(len(&v) <= 1.0 + 1e-9 && r[4].abs() <= 2.0 * bound(&k.c), "{}: line {:?} is out of bounds", what, r);
        ensure!(!t[..i].iter().any(|q| q[1..] == r[1..]), "{}: two of the independent shots are the same: {:?}", what, r);
        if k.aligned {
            // parallel spins in one field stay parallel
            ensure!((len(&v) - 1.0).abs() < 1e-3, "{}: parallel spins have the magnetisation {:?}", what, v);
            let e = -1.0 + dot(&v, &b);
            ensure!((e - r[4]).abs() < 4e-3 * (1.0 + len(&b)), "{}: parallel spins along {:?} at t = {} have the energy {} per bond, expected {}", what, v, end, r[4], e);
        }
    }
    Ok(Info::nt(k.num >= 2).label_if(k.aligned, "energies recomputed").label(if k.num < k.c.threads { "more threads than shots" } else { "threads in use" }).label_if(k.before.is_some(), "file was there"))
}

// ---------------------------------------------------------------- one trajectory

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct TrajCase {
    c: Conf,
    num: usize,
    whole: bool,
    aligned: bool,
    before: Option<String>,
    long: bool,
    seed: u64,
}
fn gen_traj(g: &mut Gen) -> TrajCase {
    let mut c = base_conf(g, 2, 8, 2, true);
    let whole = g.chance(0.7);
    let aligned = g.chance(0.6);
    if aligned {
        c.dt = g.log(1e-3, 1e-2);
    }
    c.tau = if whole { c.dt * g.range(1, 20) as f64 } else { g.log(0.3, 20.0) * c.dt };
    c.trel = g.pick(&[0.0, 0.0, 0.0, 3.0 * c.tau, -5.0 * c.tau, 100.0 * c.tau, 0.4]);
    let num = g.us(1, 60);
    if aligned {
        c.lambda = 1.0;
        c.jvar = 0.0;
        c.hvar = 0.0;
        c.ssize = c.hsize;
    }
    let before = if g.chance(0.3) { Some("0 0 0 1 -1\n".to_string()) } else { None };
    TrajCase { c, num, whole, aligned, before, long: g.chance(0.5), seed: g.raw() >> 1 }
}
fn chk_traj(k: &TrajCase) -> Outcome {
    let d = Dir::new("trj");
    let conf = conf_text(&k.c);
    d.write("config.toml", &conf)?;
    let f = format!("hist-st-t-{}.dat", k.c.t);
    if let Some(b) = &k.before {
        d.write(&f, b)?;
    }
    let num = format!("{}", k.num);
    let mut a = args(&[if k.long { "--trajectory" } else { "-s" }, &num]);
    a.push("-b".into());
    a.push(if k.aligned { "1e18".into() } else { "1.5".into() });
    ok_run(&d, &a, k.seed, 1000)?;
    let s = d.read(&f).unwrap_or_default();
    let old = k.before.clone().unwrap_or_default();
    ensure!(s.starts_with(&old), "{} changed the lines {} had", a[0], f);
    let what = format!("{} {} (tau = {}, dt = {}, trel = {})", a[0], k.num, k.c.tau, k.c.dt, k.c.trel);
    let t = table(&format!("{} ({})", f, what), &s[old.len()..], 5)?;
    ensure!(t.len() == k.num, "{}: {} lines written", what, t.len());
    ensure!(d.snapshot().len() == 2, "{} left other files: {:?}", a[0], d.snapshot().keys().collect::<Vec<_>>());
    ensure!(d.read("config.toml").as_deref() == Some(&conf[..]), "{} changed config.toml", a[0]);
    let m = model(&k.c);
    let cycle = ((k.c.tau / k.c.dt).round() as i64).max(1);
    let mut prev: Option<(f64, V3)> = None;
    for (i, r) in t.iter().enumerate() {
        if k.whole {
            let w = -k.c.trel + (31 + i) as f64 * k.c.tau;
            ensure!((r[0] - w).abs() <= 1e-9 * (1.0 + w.abs() + k.c.trel.abs()), "{}: sample {} is at t = {}, {} periods after the start is {}", what, i, r[0], 31 + i, w);
        } else if let Some((p, _)) = prev {
            ensure!((r[0] - p - cycle as f64 * k.c.dt).abs() < 1e-9 * (1.0 + r[0].abs()), "{}: samples at {} and {} are not one period apart", what, p, r[0]);
        }
        let v = mean_spins(r, 1);
        ensure!(len(&v) <= 1.0 + 1e-9 && r[4].abs() <= 2.0 * bound(&k.c), "{}: line {:?} is out of bounds", what, r);
        if k.aligned {
            ensure!((len(&v) - 1.0).abs() < 1e-3, "{}: parallel spins have the magnetisation {:?}", what, v);
            let b = m.fields_at(r[0])[0];
            let e = -1.0 + dot(&v, &b);
            ensure!((e - r[4]).abs() < 4e-3 * (1.0 + len(&b)), "{}: parallel spins along {:?} at t = {} have the energy {} per bond, expected {}", what, v, r[0], r[4], e);
            if let Some((t0, s0)) = prev {
                // all spins alike: the chain is one spin in the field
                let n = ((r[0] - t0) / k.c.dt).round() as i64;
                let mut q = vec![norm(&s0); m.n];
                for x in 0..n {
                    q = model_step(&q, &m.j, &m.fields_at(t0 + (x as f64 + 0.5) * m.dt), m.dt);
                }
                let (mut lo, mut hi) = (q[0], q[0]);
                for x in &q {
                    for z in 0..3 {
                        lo[z] = lo[z].min(x[z]);
                        hi[z] = hi[z].max(x[z]);
                    }
                }
                let w = scale(&sum(&q), 1.0 / m.n as f64);
                let tol = 1e-3 + 2.0 * dist(&lo, &hi);
                ensure!(dist(&w, &v) < tol, "{}: from t = {} to {} parallel spins go from {:?} to {:?}; the dynamics give {:?}", what, t0, r[0], s0, v, w);
            }
        }
        prev = Some((r[0], v));
    }
    Ok(Info::nt(k.num >= 2)
        .label_if(k.aligned, "replayed as one spin")
        .label(if k.whole { "period a multiple of the step" } else { "period not a multiple of the step" })
        .label_if(k.c.trel != 0.0, "start not at zero")
        .label_if(k.before.is_some(), "file was there"))
}

// ---------------------------------------------------------------- Monte-Carlo histograms

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct McHistCase {
    c: Conf,
    num: usize,
    magnus: bool,
    before: Option<String>,
    seed: u64,
}
fn gen_mc_hist(g: &mut Gen) -> McHistCase {
    let magnus = g.chance(0.5);
    let c = base_conf(g, 4, 12, 2, false);
    let num = g.us(1, 60);
    let before = if g.chance(0.3) { Some("0 0 0 1 -1 1 0 0 1 0 0\n".to_string()) } else { None };
    McHistCase { c, num, magnus, before, seed: g.raw() >> 1 }
}
/// index, magnetisation, energy and two spins of each sample
fn check_hist(what: &str, t: &[Vec<f64>], c: &Conf, num: usize) -> Result<usize, Fail> {
    ensure!(t.len() == num, "{}: {} lines written", what, t.len());
    let mut m = model(c);
    m.drive = 0;
    let plain = c.jvar == 0.0 && c.hvar == 0.0;
    let mut exact = 0;
    for (i, r) in t.iter().enumerate() {
        let w = format!("{}, line {}", what, i);
        ensure!(r[0] == i as f64, "{}: has the number {}", w, r[0]);
        let v = check_spins(&w, c, &mean_spins(r, 1), &mean_spins(r, 5), &mean_spins(r, 8))?;
        ensure!(r[4].abs() <= 2.0 * bound(c), "{}: the energy {} is out of bounds", w, r[4]);
        if let (Some(v), true) = (v, plain) {
            let e = sub_open(&m, &v, 0.0);
            ensure!((e - r[4]).abs() < 1e-9, "{}: the energy is {}, the spins {:?} give {}", w, r[4], v, e);
            exact += 1;
        }
    }
    Ok(exact)
}
fn chk_mc_hist(k: &McHistCase) -> Outcome {
    let d = Dir::new("mch");
    let conf = conf_text(&k.c);
    d.write("config.toml", &conf)?;
    let f = if k.magnus { "hist_mc_magnus.dat" } else { "hist_mc.dat" };
    let old = k.before.clone().unwrap_or_default();
    if k.before.is_some() {
        d.write(f, &old)?;
    }
    let num = format!("{}", k.num);
    let mut a = args(&[if k.magnus { "--magnus-hist" } else { "--histogram" }, &num]);
    a.extend(args(&["-b", "0.7"]));
    let what = format!("{} {}", a[0], k.num);
    let lines = old.lines().count() + k.num;
    let out = if k.magnus {
        ok_run(&d, &a, k.seed, 20)?.out
    } else {
        // the second half of this mode waits for a rare state: stop it there
        let p = d.path(f);
        let q = |_: ()| std::fs::read_to_string(&p).map(|s| s.lines().count() >= lines && s.ends_with('\n')).unwrap_or(false);
        let said = d.0.trim_end_matches('/').to_string() + ".out";
        let there = || q(()) && std::fs::read_to_string(&said).map(|s| s.contains("Initial M_z")).unwrap_or(false);
        let r = run_until(&d.0, &a, k.seed, 20, Until::Holds(&there))?;
        ensure!(r.code == 0, "{} ended with status {} ({})", what, r.code, r.tail());
        String::new()
    };
    let s = d.read(f).unwrap_or_default();
    ensure!(s.starts_with(&old), "{} changed the lines {} had", a[0], f);
    let t = table(&format!("{} ({})", f, what), &s[old.len()..], 11)?;
    let exact = check_hist(&what, &t, &k.c, k.num)?;
    for i in 1..t.len() {
        // (large first-order corrections leave few moves to be accepted)
        if k.c.hsize <= 6 && !(k.magnus && k.c.tau > 2.0) {
            ensure!(!t[..i].iter().any(|q| q[1..] == t[i][1..]), "{}: the sample {} is there twice", what, i);
        }
    }
    if k.magnus {
        let n = t.len() as f64;
        for (w, c) in [("mx", 1), ("my", 2), ("mz", 3), ("ed", 4)].iter() {
            let mean = t.iter().map(|r| r[*c]).sum::<f64>() / n;
            let tag = format!("{}: ", w);
            let got: Vec<f64> = out.lines().filter(|l| l.starts_with(&tag)).filter_map(|l| l[tag.len()..].trim().parse().ok()).collect();
            ensure!(got.len() == 1 && (got[0] - mean).abs() < 1e-9, "{}: printed {}{:?}, the mean of the samples is {}", what, tag, got, mean);
        }
    }
    ensure!(d.read("config.toml").as_deref() == Some(&conf[..]), "{} changed config.toml", a[0]);
    Ok(Info::nt(k.num >= 2).label(if k.magnus { "magnus" } else { "plain" }).label_if(exact > 0, "energies recomputed").label_if(k.before.is_some(), "file was there"))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct BothHistCase {
    n: usize,
    s: usize,
    num: usize,
    beta: f64,
    dt: f64,
    drive: u8,
    seed: u64,
}
fn gen_both(g: &mut Gen) -> BothHistCase {
    let n = 2 * g.us(450, 600);
    BothHistCase {
        n,
        s: g.pick(&[2, 3, n]),
        num: g.us(1, 3),
        beta: g.pick(&[1.0, -1.0]) * g.uni(0.2, 0.6),
        dt: g.pick(&[0.005, 0.01, 0.02]),
        drive: g.below(5) as u8,
        seed: g.raw() >> 1,
    }
}
/// both halves: the time evolution stays in the microcanonical shell it was started in
fn chk_both(k: &BothHistCase) -> Outcome {
    let d = Dir::new("bth");
    let mut c = default_case();
    c.hsize = k.n as i32;
    c.ssize = k.s as i32;
    c.jvar = 0.0;
    c.dt = k.dt;
    c.drive = k.drive;
    c.ednsty = -langevin(k.beta);
    d.write("config.toml", &conf_text(&c))?;
    ok_run(&d, &args(&["--histogram", &format!("{}", k.num)]), k.seed, 3)?;
    let t = table("hist_mc.dat", &d.read("hist_mc.dat").unwrap_or_default(), 11)?;
    check_hist("hist_mc.dat", &t, &c, k.num)?;
    let t = table("hist_dyn.dat", &d.read("hist_dyn.dat").unwrap_or_default(), 11)?;
    check_hist("hist_dyn.dat", &t, &c, k.num)?;
    if k.s == k.n {
        for r in &t {
            ensure!((r[4] - c.ednsty).abs() < 0.005 + 4.0 / k.n as f64 + k.dt * k.dt, "hist_dyn.dat: energy density {} in the shell around {}", r[4], c.ednsty);
            for q in 1..4 {
                ensure!(r[q].abs() < 0.003 + 1e-6, "hist_dyn.dat: the conserved magnetisation {:?} is outside of the shell", &r[1..4]);
            }
        }
    }
    Ok(Info::nt(true).label(if k.s == k.n { "whole ring" } else { "subsystem" }))
}

// ---------------------------------------------------------------- dynamical profiles

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct DynProfCase {
    c: Conf,
    kind: u8,
    stale: bool,
    long: bool,
    tau: Option<f64>,
    seed: u64,
}
fn gen_dyn_prof(g: &mut Gen) -> DynProfCase {
    let kind = g.below(3) as u8;
    let mut c = base_conf(g, 2, if kind == 0 { 4 } else { 8 }, 1, true);
    let m = g.pick(&[1i64, 1, 2, 3]);
    c.dt = if kind == 0 { g.log(1e-3, 2e-2) } else { g.log(1e-3, 0.2) };
    c.tau = m as f64 * c.dt;
    c.trel = g.pick(&[0.0, 0.0, 1.0, 3.0, 100.0]) * c.dt;
    c.runs = g.pick(&[1, 2, 3, 5]);
    match kind {
        0 => {
            c.runs = 1;
            c.jvar = 0.0;
            c.hvar = 0.0;
        }
        1 => {
            // parallel spins without fields stay where they are
            c.lambda = 1.0;
            c.jvar = 0.0;
            c.hvar = 0.0;
            c.hfield = [0.0; 3];
            c.hs = [0.0; 3];
            c.drive = 0;
        }
        _ => {}
    }
    let tau = if g.chance(0.3) { Some(c.tau) } else { None };
    if tau.is_some() {
        c.tau = 77.0;
    }
    DynProfCase { c, kind, stale: g.chance(0.3), long: g.chance(0.5), tau, seed: g.raw() >> 1 }
}
fn chk_dyn_prof(k: &DynProfCase) -> Outcome {
    let d = Dir::new("dyp");
    d.write("config.toml", &conf_text(&k.c))?;
    let mut u = k.c.clone();
    u.tau = k.tau.unwrap_or(u.tau);
    let mut a = args(&[if k.long { "--dynamic-profile" } else { "-P" }]);
    u.beta = if k.kind == 1 { 1e12 } else { 1.3 };
    a.push("-b".into());
    a.push(format!("{:e}", u.beta));
    if let Some(t) = k.tau {
        a.push("-t".into());
        a.push(format!("{}", t));
    }
    let names: Vec<String> = (1..9).map(|i| format!("dyn_profile-{}-tau.dat", 500 * i)).collect();
    if k.stale {
        d.write(&names[2], "an old profile\n")?;
    }
    ok_run(&d, &a, k.seed, if k.kind == 1 { u32::MAX } else { 4000 })?;
    let n = u.hsize as usize;
    let m = model(&u);
    let what = format!("{} with {} runs, {} threads", a[0], u.runs, u.threads);
    let top = 3f64.sqrt() * (1.0f64.max(u.lambda.abs()) + 8.0 * u.jvar);
    let mut prev: Option<Vec<V3>> = None;
    let mut replayed = 0;
    for (q, f) in names.iter().enumerate() {
        let w = format!("{} ({})", f, what);
        let v = profile(&w, &d.read(f).unwrap_or_default(), n)?;
        for (i, (e, s)) in v.iter().enumerate() {
            ensure!(len(s) <= 1.0 + 1e-9 && e.abs() <= top, "{}: site {} has the mean spin {:?} and the bond energy {}", w, i, s, e);
        }
        if u.runs == 1 && u.jvar == 0.0 {
            exact_profile(&w, &v, &m.j)?;
        }
        let s: Vec<V3> = v.iter().map(|x| x.1).collect();
        if k.kind == 1 {
            for (i, (e, s)) in v.iter().enumerate() {
                ensure!((e + 1.0).abs() < 1e-3 && dist(s, &v[0].1) < 0.02, "{}: parallel spins have the bond energy {} and the mean spin {:?} at site {}, {:?} at site 0", w, e, s, i, v[0].1);
            }
            if let Some(p) = &prev {
                ensure!(dist(&p[0], &s[0]) < 0.02, "{}: parallel spins without a field moved from {:?} to {:?}", w, p[0], s[0]);
            }
            replayed += 1;
        }
        if k.kind == 0 {
            if let Some(p) = &prev {
                let t0 = 500.0 * q as f64 * u.tau;
                let cnt = (500.0 * u.tau / u.dt).round() as i64;
                let go = |s: &[V3]| {
                    let mut s = s.to_vec();
                    for x in 0..cnt {
                        s = model_step(&s, &m.j, &m.fields_at(t0 + (x as f64 + 0.5) * m.dt), m.dt);
                    }
                    s
                };
                let x = go(p);
                let mut p2 = p.clone();
                for (i, z) in p2.iter_mut().enumerate() {
                    let sg = if i % 2 == 0 { 1e-9 } else { -0.7e-9 };
                    *z = norm(&[z[0] + sg, z[1] - 0.6 * sg, z[2] + 0.8 * sg]);
                }
                let grow = max_dist(&x, &go(&p2)).0 / 1e-9;
                let tol = 1e-11 * (10.0 + cnt as f64) * (1.0 + grow);
                if tol < 1e-3 {
                    let (dd, i) = max_dist(&x, &s);
                    ensure!(dd < tol, "{}: {} steps from the profile before give {:?} at site {}, the file has {:?}", w, cnt, x[i], i, s[i]);
                    replayed += 1;
                }
            }
        }
        prev = Some(s);
    }
    let mut want: Vec<String> = names.clone();
    want.push("config.toml".into());
    for r in 0..u.runs {
        if k.c.log {
            want.push(format!("{}{}.dat", u.file, u.offset as i64 + r as i64));
        }
    }
    for f in d.snapshot().keys() {
        ensure!(want.contains(f), "{}: left the unexpected file {}", what, f);
    }
    let mut next = u.clone();
    next.offset += u.runs as u32;
    next.t = 4000.0 * u.tau;
    same_config(&d.read("config.toml").unwrap_or_default(), &next, 1e-12)?;
    Ok(Info::nt(replayed > 0)
        .label(["replayed from file to file", "parallel spins", "bounds only"][k.kind as usize])
        .label_if(u.runs > 1, "several runs")
        .label_if(k.tau.is_some(), "period from the command line"))
}

pub fn b05() -> Property {
    Property {
        id: "B05",
        families: vec![
            Family::new("live", 300, 4000, gen_live, chk_live, "at least two samples").shrink(60).shard_size(4).boxed(),
            Family::new("live-full", 3, 60, gen_live_full, chk_live, "at least two samples (every update carried out)").shrink(8).shard_size(1).boxed(),
            Family::new("profile", 300, 4000, gen_prof, chk_prof, "each site is predicted from the others, or the chains are aligned").shrink(60).shard_size(4).boxed(),
            Family::new("shots", 1000, 5000, gen_dyn_hist, chk_dyn_hist, "at least two samples").shrink(60).shard_size(5).boxed(),
            Family::new("trajectory", 1500, 5000, gen_traj, chk_traj, "at least two samples").shrink(60).shard_size(5).boxed(),
            Family::new("histograms", 600, 2500, gen_mc_hist, chk_mc_hist, "at least two samples").shrink(60).shard_size(3).boxed(),
            Family::new("both-histograms", 4, 60, gen_both, chk_both, "always").shrink(2).shard_size(1).boxed(),
            Family::new("dynamic-profile", 160, 1500, gen_dyn_prof, chk_dyn_prof, "later files are predicted from earlier ones, or the chains are aligned").shrink(60).shard_size(3).boxed(),
        ],
        assumptions: vec![
            "At least one sample; subsystems of at least two spins where the energy per bond is written; periods that are multiples of the step and a start not after the first profile for the dynamic profile.",
            "Only some Monte-Carlo updates are carried out (guarded hook), or none where the case says so; the family `live-full` carries out all.",
            "The waiting part of --histogram, which ends when a rare state is reached, is only waited for on long rings.",
        ],
    }
}
