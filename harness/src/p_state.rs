//! U01: operation histories on both chain kinds.
use crate::chain::*;
use crate::engine::*;
use crate::{ensure, harness};
use crate::gen::*;
use crate::p_mc::{Ch, KINDS};
use crate::util::*;
use sc::config::Config;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Op {
    /// 0 step, 1 field-free step, 2.. Monte-Carlo kinds, 20 reads, 21 log, 22 profile log,
    /// 30 set dt, 31 set tau, 32 set beta, 33 set t
    pub op: u8,
    pub reps: u32,
    pub seed: u64,
    pub x: f64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct HistCase {
    pub c: ChainCase,
    pub lang: bool,
    pub log: bool,
    pub ops: Vec<Op>,
}
fn gen_hist(g: &mut Gen, lang: bool, n: u32, deep: bool) -> HistCase {
    let o = Opts { nmin: 2, nmax: if deep { 10 } else { 30 }, smin: 2, negdt: !lang, ..Opts::default() };
    let mut c = ChainCase::gen(g, &o);
    let log = g.chance(0.3);
    let k = g.us(1, n as usize);
    let mut ops = vec![];
    for _ in 0..k {
        let op = match g.below(10) {
            0 | 1 | 2 => 0,
            3 => {
                if lang {
                    0
                } else {
                    1
                }
            }
            4 | 5 | 6 => {
                if lang {
                    2 + g.pick(&[5u8, 6])
                } else {
                    2 + g.pick(&[0u8, 0, 1, 2, 3, 4])
                }
            }
            7 => 20,
            8 => {
                if lang {
                    21
                } else {
                    g.pick(&[21u8, 22])
                }
            }
            _ => g.pick(&[30u8, 31, 32, 33]),
        };
        let reps = if op >= 20 {
            1
        } else if deep {
            g.log(10.0, 5000.0) as u32
        } else if g.chance(0.2) {
            g.us(1, 40) as u32
        } else {
            1
        };
        let x = match op {
            30 => g.pos_num(1e-4, 2.0),
            31 => g.pos_num(0.05, 200.0),
            32 => g.pos_num(1e-3, 1e4),
            _ => g.sym(300.0),
        };
        ops.push(Op { op, reps, seed: g.raw(), x });
    }
    if g.chance(0.1) {
        c.gamma = 0.0;
    }
    HistCase { c, lang, log, ops }
}
fn gen_ring(g: &mut Gen) -> HistCase {
    gen_hist(g, false, 25, false)
}
fn gen_ring_deep(g: &mut Gen) -> HistCase {
    gen_hist(g, false, 12, true)
}
fn gen_lang(g: &mut Gen) -> HistCase {
    gen_hist(g, true, 25, false)
}
fn gen_lang_deep(g: &mut Gen) -> HistCase {
    gen_hist(g, true, 10, true)
}

fn vars_mut(x: &mut Ch) -> &mut Config {
    match x {
        Ch::A(x) => &mut x.vars,
        Ch::B(x, _) => &mut x.vars,
    }
}
fn vars_str(x: &Ch) -> String {
    match x {
        Ch::A(x) => format!("{:?}", x.vars),
        Ch::B(x, _) => format!("{:?}", x.vars),
    }
}
fn set_t(x: &mut Ch, t: f64) {
    match x {
        Ch::A(x) => x.t = t,
        Ch::B(x, _) => x.t = t,
    }
}
fn fixed(x: &mut Ch) -> (Vec<V3>, Vec<V3>, f64) {
    match x {
        Ch::A(x) => (x.j_couple.clone(), x.static_h.clone(), 0.0),
        Ch::B(x, _) => (x.verif_couplings().clone(), x.static_h.clone(), x.gamma),
    }
}
/// every read the interface offers
fn reads(x: &Ch) -> Vec<f64> {
    let mut v = vec![];
    match x {
        Ch::A(x) => {
            v.extend([
                x.total_energy(),
                x.total_energy2(),
                x.system_energy(),
                x.mc_total_energy(),
                x.mc_system_energy(),
                x.mc_system_energy_rot(),
                x.mc_system_energy_maglab(),
                x.boundary_term(),
            ]);
            v.extend(x.m());
            v.extend(x.m_tot());
            v.extend(x.energy_spectrum());
        }
        Ch::B(x, _) => {
            v.extend([x.total_energy(), x.total_energy2(), x.system_energy(), x.boundary_term()]);
            v.extend(x.m());
            v.extend(x.m_tot());
        }
    }
    v
}
fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| if x.is_nan() { u64::MAX } else if *x == 0.0 { 0 } else { x.to_bits() }).collect()
}
fn apply(x: &mut Ch, op: u8) -> Vec<f64> {
    match op {
        0 => {
            match x {
                Ch::A(x) => x.update(),
                Ch::B(x, _) => x.update(),
            }
            vec![]
        }
        1 => {
            if let Ch::A(x) = x {
                x.update_no_field()
            }
            vec![]
        }
        k if k < 20 => {
            x.update(k - 2);
            vec![]
        }
        20 => reads(x),
        21 => {
            match x {
                Ch::A(x) => x.log(),
                Ch::B(x, _) => x.log(),
            }
            vec![]
        }
        _ => {
            if let Ch::A(x) = x {
                x.log_ext()
            }
            vec![]
        }
    }
}
fn op_name(op: u8) -> &'static str {
    match op {
        0 => "update",
        1 => "update_no_field",
        20 => "the energy and magnetisation reads",
        21 => "log",
        22 => "log_ext",
        k => KINDS.get((k - 2) as usize).copied().unwrap_or("?"),
    }
}
fn check_hist(h: &HistCase) -> Outcome {
    let c = &h.c;
    let kind = if h.lang { 5 } else { 0 };
    let mut x = Ch::new(c, kind);
    let mut fresh = Ch::new(c, kind);
    let path = format!("{}f", fresh_name("hist"));
    if h.log {
        if let Ch::A(x) = &mut x {
            x.file = std::fs::File::create(&path).ok();
        }
    }
    let mut decoy = Ch::new(c, kind);
    let r = run_hist(h, &mut x, &mut fresh, &mut decoy);
    if h.log {
        let _ = std::fs::remove_file(&path);
    }
    r
}
/// One operation on a new object.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct OneOp {
    c: ChainCase,
    lang: bool,
    op: u8,
    seed: u64,
}
impl OneOp {
    fn run(&self) -> (Vec<f64>, Vec<V3>, f64) {
        let mut y = Ch::new(&self.c, if self.lang { 5 } else { 0 });
        rand::verif::seed(self.seed);
        let w = apply(&mut y, self.op);
        let e = dirs(y.spins());
        let t = y.t();
        (w, e, t)
    }
    fn bits(&self) -> Vec<u64> {
        let (w, e, t) = self.run();
        let mut v = bits(&w);
        for s in &e {
            v.extend(bits(s));
        }
        v.extend(bits(&[t]));
        v
    }
}
/// `spinverif oneop`: the operation on standard input, its result as bits on standard output
pub fn oneop() {
    let mut s = String::new();
    let _ = std::io::Read::read_to_string(&mut std::io::stdin(), &mut s);
    let o: OneOp = serde_json::from_str(&s).expect("an operation");
    let v: Vec<String> = o.bits().iter().map(|x| x.to_string()).collect();
    println!("RESULT {}", v.join(" "));
}
/// the case whose new object is in the present state of x
fn now_case(c: &ChainCase, x: &mut Ch, old: &[V3], t0: f64) -> ChainCase {
    let mut cc = c.clone();
    cc.spins = old.to_vec();
    cc.t = t0;
    let v = vars_mut(x);
    cc.dt = v.dt;
    cc.tau = v.tau;
    cc.beta = v.beta;
    cc
}
/// the same history with some of its operations repeated in processes of their own
fn check_process(h: &HistCase) -> Outcome {
    use std::io::Write;
    let c = &h.c;
    let mut x = Ch::new(c, if h.lang { 5 } else { 0 });
    let mut compared = 0;
    let (mut steps, mut mcs) = (0, 0);
    let last: Vec<usize> = (0..h.ops.len()).filter(|k| h.ops[*k].op < 30).collect();
    for (k, o) in h.ops.iter().enumerate() {
        if o.op >= 30 {
            match o.op {
                30 => vars_mut(&mut x).dt = o.x,
                31 => vars_mut(&mut x).tau = o.x,
                32 => vars_mut(&mut x).beta = o.x,
                _ => set_t(&mut x, o.x),
            }
            continue;
        }
        steps += (o.op < 2) as usize;
        mcs += (o.op >= 2 && o.op < 20) as usize;
        for r in 0..o.reps {
            let seed = o.seed.wrapping_add(r as u64);
            let old = dirs(x.spins());
            let t0 = x.t();
            let one = OneOp { c: now_case(c, &mut x, &old, t0), lang: h.lang, op: o.op, seed };
            rand::verif::seed(seed);
            let w = apply(&mut x, o.op);
            let mut v = bits(&w);
            for s in dirs(x.spins()) {
                v.extend(bits(&s));
            }
            v.extend(bits(&[x.t()]));
            if r == 0 && (last.len() <= 3 || last[last.len() - 3..].contains(&k)) {
                let exe = std::env::current_exe().map_err(|e| Fail::Harness(e.to_string()))?;
                let mut p = std::process::Command::new(exe)
                    .arg("oneop")
                    .stdin(std::process::Stdio::piped())
                    .stdout(std::process::Stdio::piped())
                    .stderr(std::process::Stdio::null())
                    .spawn()
                    .map_err(|e| Fail::Harness(e.to_string()))?;
                let _ = p.stdin.take().unwrap().write_all(serde_json::to_string(&one).unwrap().as_bytes());
                let out = p.wait_with_output().map_err(|e| Fail::Harness(e.to_string()))?;
                let text = String::from_utf8_lossy(&out.stdout);
                let got: Vec<u64> = text
                    .split_whitespace()
                    .skip(1)
                    .filter_map(|x| x.parse().ok())
                    .collect();
                harness!(text.starts_with("RESULT ") || !out.status.success(), "the child process said {:?}", text);
                ensure!(got == v, "operation {} ({}) after this history gives other bits than as the first operation of a process", k, op_name(o.op));
                compared += 1;
            }
        }
    }
    Ok(Info::nt(compared > 0 && steps + mcs > 2).label_if(h.lang, "Langevin"))
}
fn gen_process(g: &mut Gen) -> HistCase {
    let lang = g.chance(0.3);
    gen_hist(g, lang, 14, false)
}
/// Another chain does the same from nearly the same state, so that whatever is remembered outside the
/// objects (by time, by state, by some of the parameters) is wrong for the one compared next.
fn mislead(h: &HistCase, x: &mut Ch, old: &[V3], t0: f64, op: u8, seed: u64, decoy: &mut Ch) {
    *vars_mut(decoy) = vars_mut(x).clone();
    decoy.set(old);
    set_t(decoy, t0);
    let z = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40;
    let v = vars_mut(decoy);
    match z % 8 {
        0 => v.tau *= 1.5,
        1 => v.e = 0.3 - v.e,
        2 => v.drive = drive_of((h.c.drive + 1 + (z / 8 % 4) as u8) % 5),
        3 => v.beta *= 0.5,
        4 => v.dt *= 2.0,
        5 => v.ssize = if v.ssize > 2 { v.ssize - 1 } else { (v.ssize + 1).min(h.c.n as i32) },
        6 => v.hs = vec![v.hs[1] + 0.5, v.hs[2], v.hs[0] - 1.0],
        _ => {
            let mut o = old.to_vec();
            o.reverse();
            decoy.set(&o);
        }
    }
    if let (Ch::A(d), true) = (&mut *decoy, z / 8 % 3 == 0) {
        let k = (z / 24) as usize % h.c.n;
        let (j, f) = (d.j_couple[k], d.static_h[k]);
        d.j_couple[k] = [j[1] + 0.25, j[2], j[0]];
        d.static_h[k] = [f[1], f[2] - 0.5, f[0]];
        rand::verif::seed(seed);
        apply(decoy, op);
        if let Ch::A(d) = decoy {
            d.j_couple[k] = j;
            d.static_h[k] = f;
        }
    } else {
        rand::verif::seed(seed);
        apply(decoy, op);
    }
}
fn run_hist(h: &HistCase, x: &mut Ch, fresh: &mut Ch, decoy: &mut Ch) -> Outcome {
    let c = &h.c;
    let fix = fixed(x);
    let (mut steps, mut mcs) = (0u64, 0u64);
    for (k, o) in h.ops.iter().enumerate() {
        if o.op >= 30 {
            let f = |v: &mut Config| match o.op {
                30 => v.dt = o.x,
                31 => v.tau = o.x,
                32 => v.beta = o.x,
                _ => {}
            };
            f(vars_mut(x));
            if o.op == 33 {
                set_t(x, o.x);
            }
            continue;
        }
        let vars0 = vars_str(x);
        let dt = vars_mut(x).dt;
        for r in 0..o.reps {
            let old = dirs(x.spins());
            let t0 = x.t();
            let seed = o.seed.wrapping_add(r as u64);
            rand::verif::seed(seed);
            let got = apply(x, o.op);
            let new = dirs(x.spins());
            let what = || format!("operation {} ({}, call {} of {})", k, op_name(o.op), r + 1, o.reps);
            ensure!(new.len() == c.n, "{}: {} spins instead of {}", what(), new.len(), c.n);
            for (i, s) in new.iter().enumerate() {
                ensure!(finite(s), "{}: spin {} becomes {:?}", what(), i, s);
                ensure!((len(s) - 1.0).abs() <= 1e-14, "{}: spin {} = {:?} has length 1 {:+e}", what(), i, s, len(s) - 1.0);
            }
            if o.op < 2 {
                steps += 1;
                ensure!((x.t() - (t0 + dt)).abs() <= 2.0 * EPS * (t0.abs() + dt.abs()), "{}: time {} -> {} (dt {})", what(), t0, x.t(), dt);
            } else {
                ensure!(x.t() == t0, "{} changes the time {} -> {}", what(), t0, x.t());
                let d = (0..c.n).filter(|i| bits(&old[*i]) != bits(&new[*i])).count();
                let most = if o.op < 20 { 1 } else { 0 };
                mcs += (o.op < 20) as u64;
                ensure!(d <= most, "{} changes {} spins", what(), d);
            }
            // what an object that never did anything else does from the same state
            let every = if o.reps > 50 { 97 } else { 1 };
            if r % every == 0 || r + 1 == o.reps {
                // once at another time, so that nothing of the compared call is remembered, once at the same
                mislead(h, x, &old, t0 + 0.37, o.op, seed, decoy);
                mislead(h, x, &old, t0, o.op, seed, decoy);
                *vars_mut(fresh) = vars_mut(x).clone();
                fresh.set(&old);
                set_t(fresh, t0);
                let young = o.reps <= 50 && k + 1 == h.ops.len() && o.seed % 4 == 0;
                rand::verif::seed(seed);
                let want = if !young {
                    apply(fresh, o.op)
                } else {
                    // a completely new object, in a thread of its own
                    let one = OneOp { c: now_case(c, x, &old, t0), lang: h.lang, op: o.op, seed };
                    let r = std::thread::scope(|s| s.spawn(|| one.run()).join());
                    let Ok((w, e, t)) = r else {
                        return Err(Fail::Violation(format!("{}: a new object in the same state panics", what())));
                    };
                    fresh.set(&e);
                    set_t(fresh, t);
                    w
                };
                ensure!(bits(&got) == bits(&want), "{}: values {:?} after this history, {:?} from a new object in the same state", what(), got, want);
                let w = dirs(fresh.spins());
                for i in 0..c.n {
                    ensure!(bits(&w[i]) == bits(&new[i]), "{}: spin {} is {:?} after this history, {:?} from a new object in the same state with the same random numbers", what(), i, new[i], w[i]);
                }
                ensure!(fresh.t() == x.t(), "{}: time {} after this history, {} from a new object", what(), x.t(), fresh.t());
            }
        }
        ensure!(vars_str(x) == vars0, "operation {} ({}) changes the parameters: {} -> {}", k, op_name(o.op), vars0, vars_str(x));
        let now = fixed(x);
        let same = |a: &Vec<V3>, b: &Vec<V3>| a.len() == b.len() && a.iter().zip(b).all(|(p, q)| bits(p) == bits(q));
        ensure!(same(&now.0, &fix.0), "operation {} ({}) changes the couplings", k, op_name(o.op));
        ensure!(same(&now.1, &fix.1), "operation {} ({}) changes the static fields", k, op_name(o.op));
        ensure!(now.2 == fix.2, "operation {} ({}) changes gamma", k, op_name(o.op));
    }
    Ok(Info::nt(steps > 0 && mcs > 0)
        .label_if(steps + mcs >= 1000, "1000 operations or more")
        .label_if(h.log, "logging")
        .label_if(c.n <= 4, "at most 4 spins"))
}
pub fn u01() -> Property {
    let rule = "the history has both time steps and Monte-Carlo updates";
    Property {
        id: "U01",
        families: vec![
            Family::new("ring", 80000, 3000000, gen_ring, check_hist, rule).boxed(),
            Family::new("ring-deep", 5000, 150000, gen_ring_deep, check_hist, rule).shrink(400).boxed(),
            Family::new("process", 1000, 20000, gen_process, check_process, "more than two operations, the last three compared").shrink(300).boxed(),
            Family::new("langevin", 24000, 400000, gen_lang, check_hist, rule).boxed(),
            Family::new("langevin-deep", 2000, 80000, gen_lang_deep, check_hist, rule).shrink(400).boxed(),
        ],
        assumptions: vec!["even rings of at least two spins and even open chains", "subsystems of at least two spins where reads need them"],
    }
}
