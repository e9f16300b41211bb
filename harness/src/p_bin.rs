//! B01, B02, B07, B08: simulation runs of the command line program.
use crate::bin::*;
use crate::chain::*;
use crate::engine::*;
use crate::gen::*;
use crate::p_init::*;
use crate::therm;
use crate::util::*;
use crate::{ensure, harness};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

fn finished(r: &Ran, what: &str) -> Result<(), Fail> {
    ensure!(r.code == 0, "{} ended with status {} ({})", what, r.code, r.tail());
    Ok(())
}
pub fn ok_run(d: &Dir, a: &[String], seed: u64, thin: u32) -> Result<Ran, Fail> {
    let r = run(&d.0, a, seed, thin)?;
    finished(&r, &format!("spinchain {}", a.join(" ")))?;
    Ok(r)
}

// ---------------------------------------------------------------- B01: sequences of invocations

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Inv {
    mode: u8,
    /// further kinds of run asked for on the same command line
    #[serde(default)]
    also: Vec<u8>,
    gamma: Option<f64>,
    tau: Option<f64>,
    beta: Option<f64>,
    /// rewrite config.toml with these before the run
    runs: Option<i32>,
    t: Option<f64>,
    seed: u64,
}
impl Inv {
    fn has(&self, m: u8) -> bool {
        self.mode == m || self.also.contains(&m)
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SeqCase {
    c: Conf,
    junk: Vec<u8>,
    inv: Vec<Inv>,
    nolog: bool,
    thin: u32,
}
/// inverse temperatures, infinite temperature and negative ones included
fn any_beta(g: &mut Gen) -> f64 {
    match g.below(12) {
        0 => 0.0,
        1 => -g.pos_num(0.01, 50.0),
        2 => g.log(1e-20, 1e-3),
        3 => g.log(50.0, 1e8),
        _ => g.pos_num(0.01, 50.0),
    }
}
fn gen_seq(g: &mut Gen) -> SeqCase {
    let mut c = gen_sim_conf(g, &SimOpts { nmax: 10, steps: 30.0, jvar: true });
    let k = g.us(1, 4);
    let mut inv = vec![];
    for _ in 0..k {
        let mode = g.pick(&[PLAIN, EXT, RESPONSE, LANGEVIN]);
        let gamma = gamma_of(g);
        let tau = if g.chance(0.3) { Some(if c.strob { c.dt * g.range(1, 9) as f64 } else { g.pos_num(0.1, 20.0) }) } else { None };
        // the bath has a positive temperature
        let beta = if g.chance(0.3) { Some(if mode == LANGEVIN { g.pos_num(0.01, 50.0) } else { any_beta(g) }) } else { None };
        let runs = if g.chance(0.4) { Some(g.range(0, 4) as i32) } else { None };
        let t = if g.chance(0.2) { Some(g.range(0, 20) as f64 * c.dt) } else { None };
        inv.push(Inv { mode, also: vec![], gamma, tau, beta, runs, t, seed: g.raw() >> 1 });
    }
    if g.chance(0.35) {
        let i = g.us(0, k - 1);
        let v = &mut inv[i];
        let all = g.pick(&[vec![EXT, RESPONSE], vec![EXT, LANGEVIN], vec![LANGEVIN, RESPONSE], vec![EXT, LANGEVIN, RESPONSE]]);
        v.mode = all[0];
        v.also = all[1..].to_vec();
        if all.contains(&LANGEVIN) {
            v.beta = v.beta.map(|_| g.pos_num(0.01, 50.0));
        }
    }
    let nolog = g.chance(0.1);
    if inv.iter().any(|i| i.has(LANGEVIN)) && c.ssize % 2 == 1 {
        c.ssize -= 1;
        c.ssize = c.ssize.max(2);
    }
    if c.strob && inv.iter().any(|i| i.has(RESPONSE)) {
        // the response run starts at -t
        c.t = (c.t / c.dt).round() * c.dt;
    }
    let n = g.us(0, 5);
    let junk = (0..n).map(|_| g.below(256) as u8).collect();
    SeqCase { c, junk, inv, nolog, thin: 1000 }
}
fn gen_seq_full(g: &mut Gen) -> SeqCase {
    let mut k = gen_seq(g);
    k.inv.truncate(1);
    k.thin = 1;
    k.c.runs = k.c.runs.min(2);
    for i in k.inv.iter_mut() {
        i.runs = i.runs.map(|r| r.min(2));
    }
    k
}
/// no run at all: what the command line leaves in config.toml
fn gen_rec(g: &mut Gen) -> SeqCase {
    let mut k = gen_seq(g);
    k.c.runs = 0;
    for i in k.inv.iter_mut() {
        i.runs = None;
        i.tau = match g.below(4) {
            0 => None,
            1 => Some(g.log(1e-12, 1e12)),
            2 => Some(k.c.dt * g.log(0.01, 100.0)),
            _ => Some(g.pos_num(1e-3, 1e3)),
        };
        i.beta = match g.below(5) {
            0 => None,
            1 => Some(g.log(1e-300, 1e300)),
            2 => Some(-g.log(1e-12, 1e12)),
            _ => Some(any_beta(g)),
        };
        i.mode = g.pick(&[PLAIN, EXT, RESPONSE, LANGEVIN]);
        i.also.clear();
    }
    k
}
fn chk_rec(k: &SeqCase) -> Outcome {
    chk_seq(k)?;
    Ok(Info::nt(k.inv.iter().any(|i| i.tau.is_some() || i.beta.is_some()))
        .label_if(k.inv.iter().any(|i| i.beta == Some(0.0)), "infinite temperature")
        .label_if(k.inv.iter().any(|i| i.beta.map_or(false, |b| b < 0.0)), "negative temperature")
        .label_if(k.inv.iter().any(|i| i.tau.map_or(false, |t| t < k.c.dt)), "period below the time step"))
}
/// the configuration a simulation run uses, from the stored one and the command line
fn used_conf(c: &Conf, i: &Inv) -> Conf {
    let mut u = c.clone();
    if let Some(t) = i.tau {
        u.tau = t;
    }
    u.beta = match i.beta {
        Some(b) => b,
        None => therm::solve_beta(u.ednsty),
    };
    u
}
fn chk_seq(k: &SeqCase) -> Outcome {
    let d = Dir::new("seq");
    let mut c = k.c.clone();
    c.log = !k.nolog;
    d.write("config.toml", &conf_text(&c))?;
    for (i, j) in k.junk.iter().enumerate() {
        if j % 8 >= 6 {
            // left over from somewhere else, under the name of a log to be made
            let q = c.offset as usize + (*j as usize / 8) % 3;
            d.write(&format!("{}{}.dat", c.file, q), &"an old file, to be replaced\n".repeat(40 * (1 + *j as usize)))?;
            continue;
        }
        let name = match j % 8 {
            0 => "notes.txt".to_string(),
            1 => "avg.dat".to_string(),
            2 => format!("{}x{}.dat", c.file, i),
            3 => format!("{}{}.bak", c.file, c.offset),
            4 => "mc_live.dat".to_string(),
            // a log of an earlier run
            _ => {
                if c.offset > 0 {
                    format!("{}{}.dat", c.file, c.offset - 1)
                } else {
                    "two-point.dat".to_string()
                }
            }
        };
        d.write(&name, &format!("kept {}\n", j))?;
    }
    let mut total = 0;
    let mut modes = BTreeSet::new();
    let mut made: BTreeSet<String> = BTreeSet::new();
    for (step, i) in k.inv.iter().enumerate() {
        if i.runs.is_some() || i.t.is_some() {
            c.runs = i.runs.unwrap_or(c.runs);
            c.t = i.t.unwrap_or(c.t);
            d.write("config.toml", &conf_text(&c))?;
        }
        let before = d.snapshot();
        let mut a = mode_args(i.mode, &i.gamma, step % 2 == 0);
        if let Some(t) = i.tau {
            a.push("-t".into());
            a.push(format!("{}", t));
        }
        if let Some(b) = i.beta {
            a.push(format!("--beta={}", b));
        }
        for m in &i.also {
            a.extend(mode_args(*m, &i.gamma, step % 2 == 0));
        }
        let mut used = used_conf(&c, i);
        ok_run(&d, &a, i.seed, k.thin)?;
        let after = d.snapshot();
        let mut want: BTreeSet<String> = BTreeSet::new();
        let mut what = String::new();
        // the kinds of run come one after the other
        for m in std::iter::once(&i.mode).chain(&i.also) {
            if *m == LANGEVIN {
                used.hsize = used.ssize;
            }
            what = format!("spinchain {}: {} run with {} run(s), {} thread(s)", a.join(" "), mode_name(*m), used.runs, used.threads);
            if !k.nolog || *m == LANGEVIN {
                for r in 0..used.runs {
                    let w = format!("{}{}.dat", used.file, used.offset as i64 + r as i64);
                    ensure!(made.insert(w.clone()), "{}: {} had been written by an earlier run", what, w);
                    let s = match after.get(&w) {
                        Some(s) => String::from_utf8_lossy(s).to_string(),
                        None => return Err(Fail::Violation(format!("{}: no {}; files: {:?}", what, w, after.keys().collect::<Vec<_>>()))),
                    };
                    parse_log(&w, &s, &used, *m).map_err(|e| match e {
                        Fail::Violation(m) => Fail::Violation(format!("{}: {}", what, m)),
                        e => e,
                    })?;
                    want.insert(w);
                }
            }
            used.offset += used.runs as u32;
        }
        for (n, v) in &after {
            if n == "config.toml" || want.contains(n) {
                continue;
            }
            match before.get(n) {
                None => return Err(Fail::Violation(format!("{}: left the unexpected file {}", what, n))),
                Some(b) => ensure!(b == v, "{}: changed {}", what, n),
            }
        }
        for n in before.keys() {
            ensure!(after.contains_key(n), "{}: removed {}", what, n);
        }
        let next = used;
        let t = d.read("config.toml").unwrap_or_default();
        same_config(&t, &next, if i.beta.is_some() { 1e-12 } else { 1e-6 })?;
        c = next;
        total += want.len();
        modes.insert(mode_name(i.mode));
        if !i.also.is_empty() {
            modes.insert("several kinds of run at once");
        }
    }
    let mut info = Info::nt(total > 0).label(format!("{} invocation(s)", k.inv.len()));
    for m in modes {
        info = info.label(m);
    }
    Ok(info)
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct DefCase {
    t: f64,
    runs: i32,
    seed: u64,
    none: bool,
}
fn gen_def(g: &mut Gen) -> DefCase {
    DefCase { t: g.range(0, 40) as f64 * 0.02, runs: g.range(1, 3) as i32, seed: g.raw() >> 1, none: g.chance(0.3) }
}
/// no config.toml, or one that gives a few options only
fn chk_def(k: &DefCase) -> Outcome {
    let d = Dir::new("def");
    let mut a = vec![];
    let mut c = crate::p_init::default_case();
    if k.none {
        // the defaults run for a long time: ask for the analysis of nothing instead
        a.push("-a".to_string());
        ok_run(&d, &a, k.seed, 1000)?;
        let s = d.read("config.toml").unwrap_or_default();
        same_config(&s, &c, 1e-12)?;
        return Ok(Info::nt(true).label("no file"));
    }
    c.t = k.t;
    c.runs = k.runs;
    d.write("config.toml", &format!("t = {:?}\nruns = {}\n", k.t, k.runs))?;
    ok_run(&d, &a, k.seed, 1000)?;
    c.beta = therm::solve_beta(c.ednsty);
    for r in 0..k.runs {
        let n = format!("log{}.dat", r);
        let s = match d.read(&n) {
            Some(s) => s,
            None => return Err(Fail::Violation(format!("no {}", n))),
        };
        parse_log(&n, &s, &c, PLAIN)?;
    }
    c.offset += k.runs as u32;
    same_config(&d.read("config.toml").unwrap_or_default(), &c, 1e-6)?;
    Ok(Info::nt(true).label("partial file"))
}
pub fn b01() -> Property {
    Property {
        id: "B01",
        families: vec![
            Family::new("sequences", 200, 1500, gen_seq, chk_seq, "the invocations made at least one log").shrink(60).shard_size(3).boxed(),
            Family::new("sequences-full", 4, 60, gen_seq_full, chk_seq, "the invocation made at least one log (full warm-up)").shrink(8).shard_size(1).boxed(),
            Family::new("defaults", 8, 60, gen_def, chk_def, "always").shrink(10).shard_size(1).boxed(),
        ],
        assumptions: vec![
            "The program is /repo/src/main.rs compiled in the harness with the same dependencies; in all but the family `sequences-full` only every 1000th Monte-Carlo update is carried out (guarded hook), which shortens the warm-up.",
            "File patterns without glob characters; an even number of spins; threads >= 1.",
        ],
    }
}

// ---------------------------------------------------------------- B02: time grids

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct GridCase {
    c: Conf,
    mode: u8,
    gamma: Option<f64>,
    seed: u64,
}
fn gen_grid(g: &mut Gen) -> GridCase {
    let mut c = gen_sim_conf(g, &SimOpts { nmax: 6, steps: 2500.0, jvar: true });
    let mode = g.pick(&[PLAIN, RESPONSE, EXT, LANGEVIN]);
    c.runs = g.pick(&[1, 1, 2]);
    if mode == EXT {
        // a block is empty with two spins
        c.hsize = c.hsize.max(4);
        c.ssize = c.ssize.max(3).min(c.hsize);
    }
    if mode == LANGEVIN {
        c.ssize = (c.ssize - c.ssize % 2).max(2);
    }
    if g.chance(0.2) {
        // start after zero
        c.trel = -c.dt * g.range(1, 60) as f64;
    }
    if c.strob {
        if mode == RESPONSE {
            c.t = (c.t / c.dt).round() * c.dt;
        } else {
            c.trel = (c.trel / c.dt).round() * c.dt;
        }
    }
    GridCase { c, mode, gamma: gamma_of(g), seed: g.raw() >> 1 }
}
fn chk_grid(k: &GridCase) -> Outcome {
    let d = Dir::new("grid");
    d.write("config.toml", &conf_text(&k.c))?;
    ok_run(&d, &mode_args(k.mode, &k.gamma, true), k.seed, 2000)?;
    let mut u = k.c.clone();
    if k.mode == LANGEVIN {
        u.hsize = u.ssize;
    }
    let mut n = 0;
    for r in 0..u.runs {
        let f = format!("{}{}.dat", u.file, u.offset as i64 + r as i64);
        let s = match d.read(&f) {
            Some(s) => s,
            None => return Err(Fail::Violation(format!("no {}", f))),
        };
        n += parse_log(&f, &s, &u, k.mode)?.times.len();
    }
    let g = grid(&u, k.mode);
    Ok(Info::nt(n > 0)
        .label(mode_name(k.mode))
        .label(if u.strob { "stroboscopic" } else { "every step" })
        .label_if(g.t0 < 0.0, "starts before zero")
        .label_if(g.t0 > 0.0, "starts after zero")
        .label_if(u.strob && u.tau / u.dt < 1.5, "period of one step")
        .label_if(g.hi == 0, "nothing to evolve"))
}
pub fn b02() -> Property {
    Property {
        id: "B02",
        families: vec![Family::new("grids", 600, 3000, gen_grid, chk_grid, "the logs have at least one line after the initial state").shrink(60).shard_size(4).boxed()],
        assumptions: vec![
            "Whether a step is made when the final time is a whole number of steps away is left open (rounding of the summed time decides).",
            "Stroboscopic runs: the period and the starting time are multiples of the time step.",
            "Only every 2000th Monte-Carlo update of the warm-up is carried out (guarded hook).",
        ],
    }
}

// ---------------------------------------------------------------- B08: replay

/// chain data of a disorder-free run
pub fn model(c: &Conf) -> ChainCase {
    let n = c.hsize as usize;
    let s = c.ssize as usize;
    ChainCase {
        n,
        s,
        dt: c.dt,
        t: 0.0,
        tau: c.tau,
        e: c.e,
        beta: c.beta,
        gamma: 0.0,
        lambda: c.lambda,
        hs: c.hs,
        drive: c.drive,
        junk: 0,
        spins: vec![[0.0, 0.0, 1.0]; n],
        j: vec![[1.0, 1.0, c.lambda]; n],
        h: (0..n).map(|i| if i < s { add(&c.hfield, &c.hs) } else { c.hfield }).collect(),
    }
}
/// evolve from time t0 by n steps; in the response mode the static field is off from time zero on
fn evolve(m: &ChainCase, spins: &[V3], t0: f64, n: i64, response: bool, zero: f64) -> Vec<V3> {
    let mut s = spins.to_vec();
    for k in 0..n {
        let t = t0 + k as f64 * m.dt;
        let b = if response && t >= zero { m.drive_fields_at(t + 0.5 * m.dt) } else { m.fields_at(t + 0.5 * m.dt) };
        s = model_step(&s, &m.j, &b, m.dt);
    }
    s
}
fn sub_energy(s: &[V3], m: &ChainCase, t: f64) -> f64 {
    let b = m.fields_at(t);
    let mut e = 0.0;
    for i in 0..m.s - 1 {
        e += dot(&s[i], &b[i]) - bond(&s[i], &m.j[i], &s[i + 1]);
    }
    e / (m.s - 1) as f64
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ReplayCase {
    c: Conf,
    mode: u8,
    tau: Option<f64>,
    beta: Option<f64>,
    seed: u64,
    thin: u32,
}
fn gen_replay(g: &mut Gen) -> ReplayCase {
    let mut c = gen_sim_conf(g, &SimOpts { nmax: 2, steps: 300.0, jvar: false });
    c.hsize = 2;
    c.ssize = 2;
    c.runs = g.pick(&[1, 2, 3]);
    let mode = g.pick(&[PLAIN, RESPONSE]);
    if c.strob && mode == RESPONSE {
        c.t = (c.t / c.dt).round() * c.dt;
    }
    let tau = if g.chance(0.3) { Some(if c.strob { c.dt * g.range(1, 9) as f64 } else { g.pos_num(0.1, 20.0) }) } else { None };
    let beta = if g.chance(0.3) { Some(any_beta(g)) } else { None };
    ReplayCase { c, mode, tau, beta, seed: g.raw() >> 1, thin: 2000 }
}
fn gen_replay_full(g: &mut Gen) -> ReplayCase {
    let mut k = gen_replay(g);
    k.c.runs = 1;
    k.thin = 1;
    k
}
fn over(a: &mut Vec<String>, tau: &Option<f64>, beta: &Option<f64>, form: u64) {
    if let Some(t) = tau {
        match form % 3 {
            0 => a.extend(args(&["-t", &format!("{}", t)])),
            1 => a.extend(args(&["--tau", &format!("{:?}", t)])),
            _ => a.push(format!("--tau={:e}", t)),
        }
    }
    if let Some(b) = beta {
        // a negative number has to be attached to its option
        match if *b < 0.0 { 2 } else { form / 3 % 3 } {
            0 => a.extend(args(&["-b", &format!("{}", b)])),
            1 => a.extend(args(&["--beta", &format!("{:?}", b)])),
            _ => a.push(format!("--beta={:e}", b)),
        }
    }
}
/// replays one log of a two-spin run; the largest deviation, or the violation
fn replay_two(name: &str, log: &RunLog, u: &Conf, mode: u8) -> Result<usize, Fail> {
    let m = model(u);
    let mut all: Vec<&Vec<f64>> = vec![&log.first];
    for r in &log.rows {
        all.push(&r[0]);
    }
    let sp = |r: &Vec<f64>| vec![[r[7], r[8], r[9]], [r[10], r[11], r[12]]];
    let mut moved = 0;
    for (i, r) in all.iter().enumerate() {
        let s = sp(r);
        for q in 0..2 {
            ensure!((len(&s[q]) - 1.0).abs() < 1e-9, "{}: spin {} at t = {} has length {}", name, q, r[0], len(&s[q]));
        }
        let mm = scale(&add(&s[0], &s[1]), 0.5);
        ensure!(dist(&mm, &[r[3], r[4], r[5]]) < 1e-12 && (r[6] - mm[2]).abs() < 1e-12, "{}: magnetisation {:?} at t = {}, the spins give {:?}", name, &r[3..7], r[0], mm);
        if mode == PLAIN || r[0] < -1e-9 {
            let e = ring_energy(&s, &m.j, &m.fields_at(r[0])) / 2.0;
            let es = sub_energy(&s, &m, r[0]);
            ensure!((e - r[1]).abs() < 1e-10 && (es - r[2]).abs() < 1e-10, "{}: energies {} {} at t = {}, the spins give {} {}", name, r[1], r[2], r[0], e, es);
        }
        if i + 1 < all.len() {
            let t1 = all[i + 1][0];
            let n = ((t1 - r[0]) / m.dt).round() as i64;
            let got = sp(all[i + 1]);
            let a = evolve(&m, &s, r[0], n, mode == RESPONSE, -1e-9);
            let (mut d, _) = max_dist(&a, &got);
            let tol = 1e-10 * (1.0 + n as f64);
            if d > tol && mode == RESPONSE {
                let b = evolve(&m, &s, r[0], n, true, 1e-9);
                d = d.min(max_dist(&b, &got).0);
            }
            ensure!(d <= tol, "{}: from t = {} to {} the spins go from {:?} to {:?}; {} step(s) of the dynamics give {:?} (distance {:e})", name, r[0], t1, s, got, n, a, d);
            if max_dist(&s, &got).0 > 1e-6 {
                moved += 1;
            }
        }
    }
    Ok(moved)
}
fn chk_replay(k: &ReplayCase) -> Outcome {
    let d = Dir::new("rep");
    d.write("config.toml", &conf_text(&k.c))?;
    let inv = Inv { mode: k.mode, also: vec![], gamma: None, tau: k.tau, beta: k.beta, runs: None, t: None, seed: k.seed };
    let mut u = used_conf(&k.c, &inv);
    if k.mode == LANGEVIN {
        u.hsize = u.ssize;
    }
    let mut a = mode_args(k.mode, &None, false);
    over(&mut a, &k.tau, &k.beta, k.seed);
    ok_run(&d, &a, k.seed, k.thin)?;
    let mut moved = 0;
    let mut firsts: Vec<Vec<f64>> = vec![];
    for r in 0..u.runs {
        let f = format!("{}{}.dat", u.file, u.offset as i64 + r as i64);
        let s = match d.read(&f) {
            Some(s) => s,
            None => return Err(Fail::Violation(format!("no {}", f))),
        };
        let log = parse_log(&f, &s, &u, k.mode)?;
        moved += replay_two(&f, &log, &u, k.mode)?;
        ensure!(!firsts.iter().any(|x| x[7..13] == log.first[7..13]), "two runs of one invocation start from the same state");
        firsts.push(log.first.clone());
    }
    same_config(&d.read("config.toml").unwrap_or_default(), &Conf { offset: u.offset + u.runs as u32, ..u.clone() }, if k.beta.is_some() { 1e-12 } else { 1e-6 })?;
    Ok(Info::nt(moved > 0)
        .label(mode_name(k.mode))
        .label(drive_name(u.drive))
        .label_if(k.tau.is_some(), "period from the command line")
        .label_if(u.strob, "stroboscopic"))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ReplayExtCase {
    c: Conf,
    tau: Option<f64>,
    seed: u64,
}
fn gen_replay_ext(g: &mut Gen) -> ReplayExtCase {
    let mut c = gen_sim_conf(g, &SimOpts { nmax: 4, steps: 60.0, jvar: false });
    let n = 2 * g.us(5, 12);
    c.hsize = n as i32;
    c.ssize = g.us(10, n) as i32;
    c.runs = g.pick(&[1, 1, 2]);
    c.strob = false;
    let tau = if g.chance(0.3) { Some(g.pos_num(0.1, 20.0)) } else { None };
    ReplayExtCase { c, tau, seed: g.raw() >> 1 }
}
/// the profile log shows enough of the chain to predict the middle of it
fn chk_replay_ext(k: &ReplayExtCase) -> Outcome {
    let d = Dir::new("rex");
    d.write("config.toml", &conf_text(&k.c))?;
    let mut u = k.c.clone();
    let mut a = mode_args(EXT, &None, k.seed % 2 == 0);
    over(&mut a, &k.tau, &None, k.seed);
    u.tau = k.tau.unwrap_or(u.tau);
    ok_run(&d, &a, k.seed, 2000)?;
    let m = model(&u);
    let top = (u.ssize as usize).min(u.hsize as usize - 1);
    let mut pred = 0;
    for r in 0..u.runs {
        let f = format!("{}{}.dat", u.file, u.offset as i64 + r as i64);
        let s = match d.read(&f) {
            Some(s) => s,
            None => return Err(Fail::Violation(format!("no {}", f))),
        };
        let log = parse_log(&f, &s, &u, EXT)?;
        for (i, b) in log.rows.iter().enumerate() {
            let mut s = vec![[0.0, 0.0, 1.0]; m.n];
            for r in b {
                s[r[1] as usize] = [r[3], r[4], r[5]];
                ensure!((len(&[r[3], r[4], r[5]]) - 1.0).abs() < 1e-9, "{}: spin {} at t = {} is not a unit vector", f, r[1], r[0]);
            }
            let t = b[0][0];
            let fl = m.fields_at(t);
            for q in 2..top - 1 {
                let e = dot(&s[q], &fl[q]) - 0.5 * (bond(&s[q - 1], &m.j[q - 1], &s[q]) + bond(&s[q], &m.j[q], &s[q + 1]));
                ensure!((e - b[q - 1][2]).abs() < 1e-10, "{}: energy of site {} at t = {} is {}, the spins give {}", f, q, t, b[q - 1][2], e);
            }
            if let Some(nb) = log.rows.get(i + 1) {
                let n = model_step(&s, &m.j, &m.fields_at(t + 0.5 * m.dt), m.dt);
                for q in 4..top - 3 {
                    let got = [nb[q - 1][3], nb[q - 1][4], nb[q - 1][5]];
                    ensure!(dist(&n[q], &got) < 1e-10, "{}: site {} goes from {:?} at t = {} to {:?}; one step gives {:?}", f, q, s[q], t, got, n[q]);
                    pred += 1;
                }
            }
        }
    }
    Ok(Info::nt(pred > 0).label(drive_name(u.drive)).label_if(u.ssize == u.hsize, "driven throughout"))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ThermRunCase {
    c: Conf,
    mode: u8,
    beta: Option<f64>,
    seed: u64,
}
fn gen_therm(g: &mut Gen) -> ThermRunCase {
    let mut beta = g.log(0.05, 8.0);
    if g.chance(0.3) {
        // negative temperatures: energy densities above zero
        beta = -beta;
    }
    let hz = g.num(1.0);
    let tilt = g.chance(0.5);
    let by_file = g.chance(0.3);
    let c = Conf {
        hsize: 2,
        ssize: 2,
        t: 0.0,
        dt: 0.1,
        runs: 80,
        trel: 0.0,
        threads: 4,
        tau: 3.0,
        lambda: g.pick(&[1.0, 1.0, 0.5, 1.5]),
        hfield: if tilt { [g.num(0.7), 0.0, 0.0] } else { [0.0, 0.0, hz] },
        hs: if g.chance(0.5) { [0.0, 0.0, g.num(0.7)] } else { [0.0; 3] },
        jvar: 0.0,
        hvar: 0.0,
        method: 2,
        ednsty: -langevin(beta),
        file: "log".into(),
        strob: false,
        offset: 0,
        beta: g.pos_num(0.01, 20.0),
        mc_points: 1,
        e: 0.5,
        drive: g.below(5) as u8,
        log: true,
    };
    ThermRunCase { c, mode: g.pick(&[PLAIN, RESPONSE, EXT]), beta: if by_file { None } else { Some(beta) }, seed: g.raw() >> 1 }
}
fn chk_therm(k: &ThermRunCase) -> Outcome {
    let d = Dir::new("thm");
    d.write("config.toml", &conf_text(&k.c))?;
    let mut a = mode_args(k.mode, &None, false);
    over(&mut a, &None, &k.beta, k.seed);
    ok_run(&d, &a, k.seed, 4000)?;
    let beta = k.beta.unwrap_or_else(|| therm::solve_beta(k.c.ednsty));
    let j = [1.0, 1.0, k.c.lambda];
    let h = add(&k.c.hfield, &k.c.hs);
    let ex = therm::two(&j, &h, beta, &therm::sphere(24, 24));
    let n = k.c.runs as f64;
    let (mut e, mut m) = (0.0, [0.0; 3]);
    for r in 0..k.c.runs {
        let f = format!("log{}.dat", r);
        let s = d.read(&f).unwrap_or_default();
        let l = complete_lines(&f, &s)?;
        ensure!(!l.is_empty(), "no initial state in {}", f);
        let v = numbers(&f, &l[0], 13)?;
        let (x, y) = ([v[7], v[8], v[9]], [v[10], v[11], v[12]]);
        e += (-2.0 * bond(&x, &j, &y) + dot(&x, &h) + dot(&y, &h)) / 2.0;
        m = add(&m, &scale(&add(&x, &y), 0.5));
    }
    e /= n;
    m = scale(&m, 1.0 / n);
    let z = (e - ex.e) / (ex.var_e / n).sqrt();
    ensure!(z.abs() < 6.5, "the initial states of {} runs at beta = {} have the mean energy {} per spin, exact {} ({} standard errors)", n, beta, e, ex.e, z);
    for q in 0..3 {
        let z = (m[q] - ex.m[q]) / (ex.var_m[q] / n).sqrt();
        ensure!(z.abs() < 6.5, "the initial states of {} runs at beta = {} have the mean magnetisation {:?}, exact {:?} ({} standard errors)", n, beta, m, ex.m, z);
    }
    Ok(Info::nt(true).label(mode_name(k.mode)).label_if(len(&h) > 0.0, "static field").label_if(k.beta.is_none(), "beta from the energy density").label_if(beta < 0.0, "negative temperature"))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct LangRunCase {
    c: Conf,
    seed: u64,
}
fn gen_lang_run(g: &mut Gen) -> LangRunCase {
    let mut c = gen_sim_conf(g, &SimOpts { nmax: 12, steps: 200.0, jvar: true });
    c.ssize = (c.ssize - c.ssize % 2).max(2);
    c.runs = g.pick(&[1, 2]);
    // the logged energy leaves out the field of the last spin
    c.drive = 0;
    c.hfield = [0.0; 3];
    c.hs = [0.0; 3];
    c.hvar = 0.0;
    LangRunCase { c, seed: g.raw() >> 1 }
}
/// an uncoupled bath leaves the energy of the open chain alone
fn chk_lang_run(k: &LangRunCase) -> Outcome {
    let d = Dir::new("lan");
    d.write("config.toml", &conf_text(&k.c))?;
    ok_run(&d, &args(&["-l", "0"]), k.seed, 2000)?;
    let mut u = k.c.clone();
    u.hsize = u.ssize;
    let mut n = 0;
    for r in 0..u.runs {
        let f = format!("{}{}.dat", u.file, u.offset as i64 + r as i64);
        let log = parse_log(&f, &d.read(&f).unwrap_or_default(), &u, LANGEVIN)?;
        let mut all = vec![log.first.clone()];
        all.extend(log.rows.iter().map(|x| x[0].clone()));
        for w in &all {
            ensure!(len(&[w[3], w[4], w[5]]) <= 1.0 + 1e-9, "{}: magnetisation {:?} at t = {}", f, &w[3..6], w[0]);
            ensure!((w[5] - w[6]).abs() < 1e-12, "{}: the two z magnetisations of a chain without surroundings differ: {} {}", f, w[5], w[6]);
        }
        for w in all.windows(2) {
            ensure!((w[1][1] - w[0][1]).abs() < 1e-9, "{}: the energy of the isolated chain goes from {} to {} between t = {} and {}", f, w[0][1], w[1][1], w[0][0], w[1][0]);
            n += 1;
        }
    }
    Ok(Info::nt(n > 0).label_if(u.jvar > 0.0, "random couplings"))
}
pub fn b08() -> Property {
    Property {
        id: "B08",
        families: vec![
            Family::new("two-spin", 160, 2500, gen_replay, chk_replay, "the spins move between logged times").shrink(60).shard_size(4).boxed(),
            Family::new("two-spin-full", 4, 60, gen_replay_full, chk_replay, "the spins move between logged times (full warm-up)").shrink(8).shard_size(1).boxed(),
            Family::new("profile", 50, 800, gen_replay_ext, chk_replay_ext, "at least one site of one step was predicted").shrink(60).shard_size(2).boxed(),
            Family::new("thermal", 8, 160, gen_therm, chk_therm, "always (80 runs per case)").shrink(6).shard_size(1).boxed(),
            Family::new("isolated-langevin", 24, 400, gen_lang_run, chk_lang_run, "energies at two or more times").shrink(40).shard_size(2).boxed(),
        ],
        assumptions: vec![
            "Couplings and fields without disorder, so that they are known; two spins, whose log shows the whole state, or the middle of a longer chain from the profile log.",
            "In all but the family `two-spin-full` only every 2000th Monte-Carlo update of the warm-up is carried out (guarded hook; every 4000th for the thermal family).",
        ],
    }
}

// ---------------------------------------------------------------- B07

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ScanCase {
    c: Conf,
    taus: Vec<f64>,
    steps: u32,
    beta: Option<f64>,
    form: u8,
    before: bool,
    seed: u64,
}
fn gen_scan(g: &mut Gen) -> ScanCase {
    let mut c = gen_sim_conf(g, &SimOpts { nmax: 2, steps: 60.0, jvar: false });
    c.hsize = 2;
    c.ssize = 2;
    c.strob = g.chance(0.5);
    let k = g.us(1, 4);
    let mut taus: Vec<f64> = vec![];
    for _ in 0..k {
        let t = match g.below(3) {
            0 => g.pick(&[1.0, 10.0, 0.5, 9.99, 12.5, 2.0, 20.0]),
            1 => (g.uni(0.1, 30.0) * 100.0).round() / 100.0,
            _ => g.log(0.05, 40.0),
        };
        if !taus.iter().any(|x| (x - t).abs() < 1e-9) {
            taus.push(t);
        }
    }
    // a period may be asked for more than once
    if g.chance(0.35) {
        let i = g.us(0, taus.len() - 1);
        let at = g.us(0, taus.len());
        let t = taus[i];
        taus.insert(at, t);
    }
    c.trel = g.pick(&[0.0, 0.0, 1.0, -0.5, 2.3]);
    ScanCase {
        c,
        taus,
        steps: g.pick(&[0, 1, 2, 3, 5, 10, 20]),
        beta: if g.chance(0.5) { Some(any_beta(g)) } else { None },
        form: g.below(3) as u8,
        before: g.chance(0.3),
        seed: g.raw() >> 1,
    }
}
/// one line of a period scan against the log of its run; whether rounding allowed to compare the state
fn scan_line(d: &Dir, k: &ScanCase, i: usize, tau: f64, r: &[f64]) -> Result<bool, Fail> {
    let mut u = k.c.clone();
    u.tau = tau;
    u.dt = if tau < 10.0 { tau / 100.0 } else { 0.1 };
    let end = (k.steps as f64 * tau).max(-u.trel);
    ensure!(r[1] >= end - 1e-6 * (1.0 + end) && r[1] <= end + u.dt * (1.0 + 1e-6) + 1e-9, "tau = {}: stopped at t = {}, {} periods end at {}", tau, r[1], k.steps, end);
    let f = format!("{}{}.dat", u.file, u.offset as usize + i);
    let s = d.read(&f).unwrap_or_default();
    let lg = complete_lines(&f, &s)?;
    ensure!(lg.len() == 1, "{} has {} lines", f, lg.len());
    let v = numbers(&f, &lg[0], 13)?;
    ensure!(close_time(v[0], -u.trel), "{} starts at {}, expected {}", f, v[0], -u.trel);
    let m = model(&u);
    let s0 = vec![[v[7], v[8], v[9]], [v[10], v[11], v[12]]];
    let n = ((r[1] - v[0]) / u.dt).round() as i64;
    let s1 = evolve(&m, &s0, v[0], n, false, 0.0);
    // how far rounding can have grown
    let mut sp = s0.clone();
    sp[0] = crate::gen::norm(&[sp[0][0] + 1e-10, sp[0][1] - 1e-10, sp[0][2] + 0.7e-10]);
    let grow = max_dist(&s1, &evolve(&m, &sp, v[0], n, false, 0.0)).0 / 1e-10;
    let tol = 1e-11 * (1.0 + n as f64) * (1.0 + grow);
    if tol > 1e-4 {
        return Ok(false);
    }
    let e = ring_energy(&s1, &m.j, &m.fields_at(r[1])) / 2.0;
    let es = sub_energy(&s1, &m, r[1]);
    let mm = scale(&add(&s1[0], &s1[1]), 0.5);
    ensure!(
        (e - r[2]).abs() < 10.0 * tol && (es - r[3]).abs() < 10.0 * tol && dist(&mm, &[r[4], r[5], r[6]]) < 10.0 * tol,
        "tau = {}: {} steps from the logged state give e = {}, e_sub = {}, m = {:?}; the line has {:?}", tau, n, e, es, mm, r
    );
    Ok(true)
}
/// every run finds a line of its own
fn assignable(fits: &[Vec<usize>], i: usize, used: &mut Vec<bool>) -> bool {
    if i == fits.len() {
        return true;
    }
    for q in &fits[i] {
        if !used[*q] {
            used[*q] = true;
            if assignable(fits, i + 1, used) {
                return true;
            }
            used[*q] = false;
        }
    }
    false
}
fn chk_scan(k: &ScanCase) -> Outcome {
    let d = Dir::new("evt");
    let conf = conf_text(&k.c);
    d.write("config.toml", &conf)?;
    let evt = format!("evt{}.dat", k.steps);
    if k.before {
        d.write(&evt, "old line\n")?;
    }
    let list = k.taus.iter().map(|t| format!("{}", t)).collect::<Vec<_>>().join(",");
    let mut a = match k.form {
        0 => args(&["-n", &list]),
        1 => args(&["--n-steps", &list]),
        _ => args(&[&format!("--n-steps={}", list)]),
    };
    a.extend(args(&["--steps", &format!("{}", k.steps)]));
    over(&mut a, &None, &k.beta, k.seed);
    ok_run(&d, &a, k.seed, 2000)?;
    ensure!(d.read("config.toml").as_deref() == Some(&conf[..]), "a period scan rewrote config.toml");
    let s = d.read(&evt).unwrap_or_default();
    let mut l = complete_lines(&evt, &s)?;
    if k.before {
        ensure!(!l.is_empty() && l[0] == "old line", "{} lost its earlier line", evt);
        l.remove(0);
    }
    ensure!(l.len() == k.taus.len(), "{} has {} lines for {} periods", evt, l.len(), k.taus.len());
    let rows: Vec<Vec<f64>> = l.iter().map(|x| numbers(&evt, x, 7)).collect::<Result<_, _>>()?;
    // The lines are in the order the runs ended in. Where a period is repeated, a line may fit several
    // runs (one whose state rounding keeps from being compared fits any of them): all of them have to
    // find a line of their own.
    let mut fits: Vec<Vec<usize>> = vec![];
    let mut checked = 0;
    for (i, tau) in k.taus.iter().enumerate() {
        let mut err = None;
        let mut v = vec![];
        let mut sure = false;
        for (q, r) in rows.iter().enumerate() {
            if (r[0] - tau).abs() > 1e-12 * tau {
                continue;
            }
            match scan_line(&d, k, i, *tau, r) {
                Ok(c) => {
                    v.push(q);
                    sure |= c;
                }
                Err(e) => err = Some(e),
            }
        }
        if v.is_empty() {
            return Err(err.unwrap_or_else(|| Fail::Violation(format!("no line for tau = {} in {}: {:?}", tau, evt, l))));
        }
        checked += sure as usize;
        fits.push(v);
    }
    ensure!(assignable(&fits, 0, &mut vec![false; rows.len()]), "the lines of {} cannot be told apart into one per run: {:?}, fitting {:?}", evt, l, fits);
    Ok(Info::nt(checked > 0).label(format!("{} period(s)", k.taus.len())).label_if((1..k.taus.len()).any(|i| k.taus[..i].contains(&k.taus[i])), "a period repeated").label_if(k.before, "file was there"))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ModeBetaCase {
    mode: u8,
    beta: f64,
    from_file: bool,
    junk: f64,
    threads: usize,
    seed: u64,
}
fn gen_mode_beta(g: &mut Gen) -> ModeBetaCase {
    ModeBetaCase {
        mode: g.below(6) as u8,
        beta: if g.chance(0.1) { 0.0 } else { g.log(0.05, 12.0) },
        from_file: g.chance(0.4),
        junk: g.pos_num(0.01, 30.0),
        threads: g.us(1, 4),
        seed: g.raw() >> 1,
    }
}
/// the inverse temperature a sampling mode really runs at, seen in its mean bond energy
fn chk_mode_beta(k: &ModeBetaCase) -> Outcome {
    let d = Dir::new("mbe");
    let mut c = crate::p_init::default_case();
    let n = if k.mode >= 4 { 4 } else { 2 };
    let pts = 300usize;
    c.hsize = n;
    c.ssize = 2;
    c.jvar = 0.0;
    c.drive = 0;
    c.threads = k.threads;
    c.mc_points = pts;
    c.t = 2.0;
    c.dt = 0.1;
    c.tau = 1e-3;
    c.beta = k.junk;
    // an energy density that belongs to another temperature, unless it is what counts
    let by_file = k.from_file && k.beta > 0.0;
    c.ednsty = if by_file { -langevin(k.beta) } else { -langevin(k.junk) };
    if k.mode == 5 {
        c.ssize = n;
    }
    let conf = conf_text(&c);
    d.write("config.toml", &conf)?;
    let p = format!("{}", pts);
    let (mut a, file, thin) = match k.mode {
        0 => (args(&["-m"]), "mc_live.dat".to_string(), 2500),
        1 => (args(&["-p"]), "mc_profile.dat".to_string(), 2500),
        2 => (args(&["-d", &p]), format!("dyn-hist-t-{}.dat", c.t), 1),
        3 => (args(&["--monte-carlo"]), "mc_live.dat".to_string(), 2500),
        4 => (args(&["--magnus-hist", &p]), "hist_mc_magnus.dat".to_string(), 20),
        _ => (args(&["--monte-carlo-magnus"]), "mc_live.dat".to_string(), 2500),
    };
    if !by_file {
        over(&mut a, &None, &Some(k.beta), k.seed);
    }
    ok_run(&d, &a, k.seed, thin)?;
    ensure!(d.read("config.toml").as_deref() == Some(&conf[..]), "{} rewrote config.toml", a.join(" "));
    let s = d.read(&file).unwrap_or_default();
    let cm: f64 = match k.mode {
        0 | 3 => {
            let t = table(&file, &s, 11)?;
            t.iter().map(|r| -r[1]).sum::<f64>() / t.len() as f64
        }
        1 => {
            let t = table(&file, &s, 5)?;
            t.iter().map(|r| -r[1]).sum::<f64>() / t.len() as f64
        }
        2 => {
            let t = table(&file, &s, 5)?;
            t.iter().map(|r| 2.0 * (r[1] * r[1] + r[2] * r[2] + r[3] * r[3]) - 1.0).sum::<f64>() / t.len() as f64
        }
        4 => {
            let t = table(&file, &s, 11)?;
            t.iter().map(|r| -r[4]).sum::<f64>() / t.len() as f64
        }
        _ => {
            let t = table(&file, &s, 11)?;
            t.iter().map(|r| -r[1]).sum::<f64>() / t.len() as f64
        }
    };
    // exact law of the bond cosine
    let (want, var) = match k.mode {
        0 | 1 | 3 => {
            let x = 2.0 * k.beta;
            (langevin(x), dlangevin(x))
        }
        // fresh chains follow the open-chain law
        2 => (langevin(k.beta), dlangevin(k.beta)),
        _ => {
            let sp = therm::sphere(20, 20);
            let b = |x: f64| therm::ring(4, &[1.0; 3], &[0.0; 3], x, &sp).bond;
            (b(k.beta), dlangevin(k.beta).max(0.3 * (1.0 - b(k.beta)).powi(2)))
        }
    };
    let z = (cm - want) / (var / pts as f64).sqrt();
    ensure!(z.abs() < 7.0, "{}: the mean bond cosine of {} samples is {}, at beta = {} it is {} ({} standard errors)", a.join(" "), pts, cm, k.beta, want, z);
    Ok(Info::nt(true).label(a[0].clone()).label(if by_file { "from the energy density" } else { "from the command line" }))
}
fn dlangevin(x: f64) -> f64 {
    if x < 1e-3 {
        1.0 / 3.0
    } else {
        1.0 / (x * x) - 1.0 / x.sinh().powi(2)
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct HelpCase {
    what: u8,
    c: Conf,
    seed: u64,
}
fn gen_help(g: &mut Gen) -> HelpCase {
    HelpCase { what: g.below(5) as u8, c: gen_sim_conf(g, &SimOpts { nmax: 4, steps: 10.0, jvar: false }), seed: g.raw() >> 1 }
}
const LONG: [&str; 23] = [
    "--tau", "--avg", "--beta", "--monte-carlo", "--monte-carlo-profile", "--dynamic-profile", "--monte-carlo-magnus", "--histogram", "--dynamic-histogram", "--trajectory", "--langevin", "--magnus-hist",
    "--config-desc", "--n-steps", "--adiabatic", "--adiab_full", "--rot-frame", "--ext", "--magnus-fit", "--steps", "--response", "--two-point", "--high-freq",
];
fn chk_help(k: &HelpCase) -> Outcome {
    let d = Dir::new("hlp");
    d.write("config.toml", &conf_text(&k.c))?;
    let log = format!("{}{}.dat", k.c.file, k.c.offset);
    d.write(&log, "#\n0 1 2\n")?;
    let before = d.snapshot();
    let a = args(&[["--help", "-h", "--version", "--config-desc", "--no-such-option"][k.what as usize]]);
    let r = run(&d.0, &a, k.seed, 1000)?;
    ensure!(d.snapshot() == before, "{} changed the files of the directory", a[0]);
    match k.what {
        0 | 1 => {
            ensure!(r.code == 0, "{} ended with status {}", a[0], r.code);
            for o in LONG.iter() {
                let there = r.out.split(|c: char| !(c.is_alphanumeric() || c == '-' || c == '_')).any(|w| w == *o);
                ensure!(there, "{} does not mention {}", a[0], o);
            }
        }
        2 => ensure!(r.code == 0 && r.out.chars().any(|c| c.is_ascii_digit()), "--version printed {:?}", r.out),
        3 => {
            ensure!(r.code == 0, "--config-desc ended with status {} ({})", r.code, r.tail());
            same_config(&r.out, &crate::p_init::default_case(), 1e-12)?;
        }
        _ => ensure!(r.code != 0, "an unknown option was accepted"),
    }
    Ok(Info::nt(true).label(a[0].clone()))
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct BadRunCase {
    what: u8,
    mode: u8,
    seed: u64,
}
fn gen_bad_run(g: &mut Gen) -> BadRunCase {
    BadRunCase { what: g.below(4) as u8, mode: g.below(4) as u8, seed: g.raw() >> 1 }
}
/// a configuration that cannot be read is refused, whatever the mode, and stays
fn chk_bad_run(k: &BadRunCase) -> Outcome {
    let d = Dir::new("bad");
    let text = ["hsize = \"many\"\n", "hsize = 8\nhsize = 8\n", "drive = \"sideways\"\n", "t = [1\n"][k.what as usize];
    d.write("config.toml", text)?;
    let before = d.snapshot();
    let a = match k.mode {
        0 => args(&["-a"]),
        1 => args(&["-m"]),
        2 => args(&["--response"]),
        _ => vec![],
    };
    let r = run(&d.0, &a, k.seed, 1000)?;
    ensure!(r.code != 0, "a malformed configuration was accepted by {:?}", a);
    ensure!(d.snapshot() == before, "a malformed configuration was not left alone");
    harness!(!r.err.is_empty(), "no message");
    Ok(Info::nt(true))
}
pub fn b07() -> Property {
    Property {
        id: "B07",
        families: vec![
            Family::new("overrides", 200, 1200, gen_over, chk_replay, "the spins move between logged times").shrink(60).shard_size(3).boxed(),
            Family::new("recorded", 400, 8000, gen_rec, chk_rec, "a period or an inverse temperature is given").shrink(60).shard_size(10).boxed(),
            Family::new("scan", 140, 1000, gen_scan, chk_scan, "at least one line was recomputed from the logged state").shrink(60).shard_size(3).boxed(),
            Family::new("modes-beta", 60, 400, gen_mode_beta, chk_mode_beta, "always (300 samples per case)").shrink(10).shard_size(2).boxed(),
            Family::new("high-frequency", 8, 100, crate::p_fit::gen_high_beta, crate::p_fit::chk_high, "always").shrink(10).shard_size(1).boxed(),
            Family::new("help", 20, 200, gen_help, chk_help, "always").shrink(20).shard_size(10).boxed(),
            Family::new("refused", 16, 100, gen_bad_run, chk_bad_run, "always").shrink(20).shard_size(10).boxed(),
        ],
        assumptions: vec![
            "Two-spin rings without disorder, whose log shows the whole state.",
            "Monte-Carlo updates are thinned by a guarded hook so that the modes can be run often.",
            "The beta of the sampling modes is judged from the mean of 300 samples (7 standard errors).",
        ],
    }
}
fn gen_over(g: &mut Gen) -> ReplayCase {
    let mut k = gen_replay(g);
    if k.tau.is_none() && (k.beta.is_none() || g.chance(0.5)) {
        k.tau = Some(if k.c.strob { k.c.dt * g.range(1, 9) as f64 } else { g.pos_num(0.1, 20.0) });
    }
    // a drive that shows the period
    k.c.drive = g.pick(&[1, 2, 3]);
    k
}
