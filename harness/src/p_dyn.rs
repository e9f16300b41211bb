//! D01-D05, F01: deterministic dynamics and the drive.
use crate::chain::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::util::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct StepCase {
    c: ChainCase,
    no_field: bool,
    steps: u32,
}

fn moved(a: &[V3], b: &[V3]) -> bool {
    max_dist(a, b).0 > 1e-12
}

// ---------------------------------------------------------------- D01

fn gen_step(g: &mut Gen) -> StepCase {
    let o = Opts { negdt: true, units: true, ..Opts::default() };
    let no_field = g.chance(0.3);
    let steps = g.us(1, 6) as u32;
    let mut c = ChainCase::gen(g, &o);
    if g.chance(0.1) {
        c.dt *= g.log(1.0, 100.0);
    }
    StepCase { c, no_field, steps }
}
fn gen_step_big(g: &mut Gen) -> StepCase {
    let o = Opts { nmin: 42, nmax: 1200, ..Opts::default() };
    let no_field = g.chance(0.3);
    let steps = g.us(1, 3) as u32;
    StepCase { c: ChainCase::gen(g, &o), no_field, steps }
}
fn gen_step_long(g: &mut Gen) -> StepCase {
    let o = Opts { nmax: 8, dtmax: 0.5, units: true, ..Opts::default() };
    let no_field = g.chance(0.3);
    let steps = g.us(200, 3000) as u32;
    StepCase { c: ChainCase::gen(g, &o), no_field, steps }
}
fn check_step(s: &StepCase) -> Outcome {
    let c = &s.c;
    let mut x = c.build();
    let mut any = false;
    for k in 0..s.steps {
        let t = x.t;
        let old = dirs(&x.spins);
        let b = if s.no_field { c.drive_fields_at(t + c.dt / 2.0) } else { c.fields_at(t + c.dt / 2.0) };
        let want = model_step(&old, &c.j, &b, c.dt);
        if s.no_field {
            x.update_no_field()
        } else {
            x.update()
        }
        let got = dirs(&x.spins);
        let (d, i) = max_dist(&got, &want);
        let tol = c.step_tol(t);
        ensure!(
            d <= tol,
            "{} step {} from t = {} (n = {}, subsystem {}, dt = {}, drive {}): spin {} is {:?}, expected {:?} (off by {:e}, tolerance {:e})",
            if s.no_field { "field-free" } else { "plain" },
            k, t, c.n, c.s, c.dt, drive_name(c.drive), i, got.get(i), want.get(i), d, tol
        );
        ensure!((x.t - (t + c.dt)).abs() <= 2.0 * EPS * (t.abs() + c.dt.abs()), "time {} -> {} in a step of {}", t, x.t, c.dt);
        any |= moved(&old, &got);
    }
    Ok(Info::nt(any)
        .label(drive_name(c.drive))
        .label(if s.no_field { "field-free variant" } else { "plain variant" })
        .label_if(c.s < c.n && c.drive != 0, "drive on part of the ring")
        .label_if(c.n == 2, "two spins")
        .label_if(c.n > 100, "more than 100 spins"))
}
pub fn d01() -> Property {
    Property {
        id: "D01",
        families: vec![
            Family::new("step", 1200000, 20000000, gen_step, check_step, "at least one spin moves").boxed(),
            Family::new("step-large", 60000, 600000, gen_step_big, check_step, "at least one spin moves (rings of 42 to 1200 spins)").boxed(),
            Family::new("step-long", 9000, 100000, gen_step_long, check_step, "at least one spin moves (200 to 3000 consecutive steps)").boxed(),
        ],
        assumptions: vec!["rings of even length, as the even-odd decomposition needs", "rounding is bounded by the rotation angles and the drive phase, not by bit equality"],
    }
}

// ---------------------------------------------------------------- D02

fn gen_cons(g: &mut Gen) -> StepCase {
    let o = Opts { drives: &[0, 4], negdt: true, dtmax: 2.0, units: true, ..Opts::default() };
    let no_field = g.chance(0.25);
    let steps = if g.chance(0.1) { g.us(100, 2000) } else { g.us(1, 60) } as u32;
    let mut c = ChainCase::gen(g, &o);
    if g.chance(0.1) {
        c.dt *= g.log(1.0, 30.0);
    }
    if no_field {
        c.h = vec![[0.0; 3]; c.n];
    }
    StepCase { c, no_field, steps }
}
fn check_cons(s: &StepCase) -> Outcome {
    let c = &s.c;
    let mut x = c.build();
    let b = c.fields_at(c.t);
    let n = c.n as f64;
    let e0 = ring_energy(&c.spins, &c.j, &b);
    let (q0, p0) = (x.total_energy() * n, x.total_energy2() * n);
    let old = dirs(&x.spins);
    for k in 0..s.steps {
        if s.no_field {
            x.update_no_field()
        } else {
            x.update()
        }
        if k % 16 != 0 && k + 1 != s.steps {
            continue;
        }
        let e1 = ring_energy(&dirs(&x.spins), &c.j, &b);
        let tol = 1e-14 * n * c.scale() * (4.0 + k as f64) + 1e-13 * c.scale();
        ensure!((e1 - e0).abs() <= tol, "total energy {} -> {} after {} steps of {} without drive work (n = {}, tolerance {:e})", e0, e1, k + 1, c.dt, c.n, tol);
        let (q1, p1) = (x.total_energy() * n, x.total_energy2() * n);
        ensure!((q1 - q0).abs() <= tol && (p1 - p0).abs() <= tol, "reported total energy {} / {} -> {} / {} after {} steps of {}", q0, p0, q1, p1, k + 1, c.dt);
    }
    Ok(Info::nt(moved(&old, &dirs(&x.spins)))
        .label_if(c.drive == 4, "static drive")
        .label_if(s.steps >= 100, "100 steps or more")
        .label_if(c.dt.abs() > 1.0, "step above 1")
        .label_if(s.no_field, "field-free variant"))
}
fn gen_work(g: &mut Gen) -> StepCase {
    let o = Opts { drives: &[1, 2, 3], negdt: true, dtmax: 2.0, ..Opts::default() };
    let no_field = g.chance(0.25);
    let steps = g.us(1, 8) as u32;
    let mut c = ChainCase::gen(g, &o);
    if no_field {
        c.h = vec![[0.0; 3]; c.n];
    }
    StepCase { c, no_field, steps }
}
fn check_work(s: &StepCase) -> Outcome {
    let c = &s.c;
    let mut x = c.build();
    let n = c.n as f64;
    let mut nt = false;
    for _ in 0..s.steps {
        let t = x.t;
        let old = dirs(&x.spins);
        let e0 = ring_energy(&old, &c.j, &c.fields_at(t));
        let (q0, p0) = (x.total_energy() * n, x.total_energy2() * n);
        if s.no_field {
            x.update_no_field()
        } else {
            x.update()
        }
        let new = dirs(&x.spins);
        let t1 = x.t;
        let hm = c.drive_at(t + c.dt / 2.0);
        let m0 = sum(&old[..c.s]);
        let m1 = sum(&new[..c.s]);
        let work = dot(&sub(&c.drive_at(t1), &hm), &m1) - dot(&sub(&c.drive_at(t), &hm), &m0);
        let e1 = ring_energy(&new, &c.j, &c.fields_at(t1));
        let (q1, p1) = (x.total_energy() * n, x.total_energy2() * n);
        let phase = 16.0 * EPS * 2.0 * PI * (t.abs() + c.dt.abs()) / c.tau * (1.0 + c.e.abs()) * n;
        let tol = 3e-14 * n * (c.scale() + 1.0) + phase;
        ensure!((e1 - e0 - work).abs() <= tol, "energy changed by {} while the drive did work {} (t = {}, dt = {}, drive {})", e1 - e0, work, t, c.dt, drive_name(c.drive));
        ensure!((q1 - q0 - work).abs() <= tol && (p1 - p0 - work).abs() <= tol, "reported energies changed by {} and {} while the drive did work {} (t = {}, dt = {}, drive {})", q1 - q0, p1 - p0, work, t, c.dt, drive_name(c.drive));
        nt |= work.abs() > 1e-9;
    }
    Ok(Info::nt(nt).label(drive_name(c.drive)).label_if(c.s < c.n, "drive on part of the ring"))
}
pub fn d02() -> Property {
    Property {
        id: "D02",
        families: vec![
            Family::new("conserved", 150000, 8000000, gen_cons, check_cons, "the spins move").boxed(),
            Family::new("work", 800000, 20000000, gen_work, check_work, "the drive does work above 1e-9 in some step").boxed(),
        ],
        assumptions: vec!["rings of even length"],
    }
}

// ---------------------------------------------------------------- D03

fn gen_rev(g: &mut Gen) -> StepCase {
    let o = Opts { negdt: true, units: true, ..Opts::default() };
    let no_field = g.chance(0.3);
    let mut c = ChainCase::gen(g, &o);
    let unit = c.scale().min(1.0).max(1e-12);
    let j = c.jmax().max(0.05 * unit);
    // rounding grows like exp(2 J t): keep it below visibility
    let horizon = g.uni(0.1, 8.0) / (2.0 * j);
    let steps = g.us(1, 400) as u32;
    let dt = (horizon / steps as f64).min(3.0 / unit);
    c.dt = if c.dt < 0.0 { -dt } else { dt };
    StepCase { c, no_field, steps }
}
fn check_rev(s: &StepCase) -> Outcome {
    let c = &s.c;
    let mut x = c.build();
    let mut go = |x: &mut sc::spinchain::SpinChain| {
        for _ in 0..s.steps {
            if s.no_field {
                x.update_no_field()
            } else {
                x.update()
            }
        }
    };
    go(&mut x);
    let far = dirs(&x.spins);
    x.vars.dt = -x.vars.dt;
    go(&mut x);
    let total = c.dt.abs() * s.steps as f64;
    let growth = (2.0 * 2.0 * c.jmax() * total).exp();
    let tol = c.step_tol(c.t.abs() + total) * (s.steps as f64 + 1.0) * 2.0 * growth;
    let (d, i) = max_dist(&dirs(&x.spins), &c.spins);
    ensure!(d <= tol, "{} steps of {} and back: spin {} of {} is {:?} instead of {:?} (off by {:e}, tolerance {:e}, drive {})", s.steps, c.dt, i, c.n, x.spins[i].dir, c.spins[i], d, tol, drive_name(c.drive));
    ensure!((x.t - c.t).abs() <= 1e-12 * (1.0 + c.t.abs() + total), "time {} after {} steps of {} and back from {}", x.t, s.steps, c.dt, c.t);
    Ok(Info::nt(moved(&far, &c.spins) && tol < 1e-4)
        .label(drive_name(c.drive))
        .label_if(tol > 1e-6, "tolerance above 1e-6")
        .label_if(s.no_field, "field-free variant"))
}
pub fn d03() -> Property {
    Property {
        id: "D03",
        families: vec![Family::new("there-and-back", 400000, 6000000, gen_rev, check_rev, "the spins moved, and the rounding bound (exponential in the time) is below 1e-4").boxed()],
        assumptions: vec!["rings of even length", "rounding may grow at the Lyapunov bound exp(4 J t) over both directions"],
    }
}

// ---------------------------------------------------------------- D04

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct OdeCase {
    c: ChainCase,
    k: u32,
}
fn gen_ode(g: &mut Gen) -> OdeCase {
    let o = Opts { nmax: 10, ..Opts::default() };
    let mut c = ChainCase::gen(g, &o);
    c.tau = g.pos_num(1.5, 50.0);
    // couplings and fields of order one, otherwise there is nothing to converge to
    let sc = c.scale();
    if sc > 8.0 {
        let f = 8.0 / sc;
        c.j.iter_mut().for_each(|v| *v = scale(v, f));
        c.h.iter_mut().for_each(|v| *v = scale(v, f));
    }
    let rate = c.scale().max(2.0 * PI / c.tau).max(0.5);
    c.dt = g.uni(0.02, 0.08) / rate * 2.0;
    let t = g.uni(0.5, 3.0) / rate.max(1.0);
    let k = ((t / c.dt).ceil() as u32).max(2);
    if c.t.abs() > 50.0 {
        c.t = c.t % 50.0;
    }
    OdeCase { c, k }
}
/// Classical Runge-Kutta for the precession equation, written from the equation alone.
fn rk4(c: &ChainCase, total: f64, m: usize) -> Vec<V3> {
    let f = |t: f64, s: &Vec<V3>| -> Vec<V3> {
        let b = c.fields_at(t);
        (0..c.n).map(|i| cross(&s[i], &omega(s, &c.j, &b, i))).collect()
    };
    let h = total / m as f64;
    let mut s = c.spins.clone();
    let axpy = |s: &Vec<V3>, k: &Vec<V3>, a: f64| -> Vec<V3> { s.iter().zip(k).map(|(x, y)| add(x, &scale(y, a))).collect() };
    for i in 0..m {
        let t = c.t + i as f64 * h;
        let k1 = f(t, &s);
        let k2 = f(t + h / 2.0, &axpy(&s, &k1, h / 2.0));
        let k3 = f(t + h / 2.0, &axpy(&s, &k2, h / 2.0));
        let k4 = f(t + h, &axpy(&s, &k3, h));
        for q in 0..c.n {
            for d in 0..3 {
                s[q][d] += h / 6.0 * (k1[q][d] + 2.0 * k2[q][d] + 2.0 * k3[q][d] + k4[q][d]);
            }
        }
    }
    s
}
fn check_ode(o: &OdeCase) -> Outcome {
    let c = &o.c;
    let total = c.dt * o.k as f64;
    let mut refs = rk4(c, total, (o.k as usize * 8).max(200));
    let mut errs = vec![];
    let mut floor = 0.0;
    for lvl in 0..4u32 {
        let mut x = c.build();
        let div = 1u32 << lvl;
        x.vars.dt = c.dt / div as f64;
        for _ in 0..o.k * div {
            x.update();
        }
        let got = dirs(&x.spins);
        if lvl == 0 {
            let fine = rk4(c, total, (o.k as usize * 16).max(400));
            floor = max_dist(&fine, &refs).0 * 2.0 + 1e-11;
            refs = fine;
        }
        let mut e = 0.0f64;
        for i in 0..c.n {
            e += dist(&got[i], &refs[i]).powi(2);
        }
        errs.push(e.sqrt());
    }
    let rate = c.scale().max(2.0 * PI / c.tau);
    let kd = rate * c.dt;
    let slack = (c.n as f64).sqrt() * (2.0 * c.jmax() * total).exp() * kd.powi(4) * (0.05 + rate * total);
    let f = floor * (c.n as f64).sqrt();
    ensure!(
        errs[0] <= (c.n as f64).sqrt() * (kd * kd * (1.0 + rate * total) * (2.0 * c.jmax() * total).exp()) + f,
        "after time {} with step {} the trajectory is {:e} off the solution (n = {}, drive {})",
        total, c.dt, errs[0], c.n, drive_name(c.drive)
    );
    for k in 0..3 {
        let q = slack / 16f64.powi(k as i32);
        ensure!(
            errs[k + 1] <= errs[k] / 3.0 + q + f,
            "halving the step from {} did not divide the error by about four: errors {:?} (n = {}, drive {}, reference good to {:e})",
            c.dt / (1 << k) as f64, errs, c.n, drive_name(c.drive), f
        );
    }
    Ok(Info::nt(errs[0] > 20.0 * f).label(drive_name(c.drive)).label_if(errs[0] / errs[1] > 3.5 && errs[0] / errs[1] < 4.5, "ratio within 3.5 to 4.5"))
}
pub fn d04() -> Property {
    Property {
        id: "D04",
        families: vec![Family::new("refine", 150000, 3000000, gen_ode, check_ode, "the coarse error is at least 20 times the accuracy of the Runge-Kutta reference").boxed()],
        assumptions: vec!["rings of even length", "steps small against the fastest rate (below 0.16), so that the leading error term dominates"],
    }
}

// ---------------------------------------------------------------- D05

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SymCase {
    c: ChainCase,
    kind: u8,
    a: u64,
    angle: f64,
    axis: V3,
    steps: u32,
    no_field: bool,
}
fn gen_sym(g: &mut Gen) -> SymCase {
    let kind = g.below(6) as u8;
    let o = match kind {
        2 | 4 | 5 => Opts { drives: &[0, 4], ..Opts::default() },
        3 => Opts { drives: &[1, 0], ..Opts::default() },
        _ => Opts::default(),
    };
    let mut c = ChainCase::gen(g, &o);
    if kind < 2 {
        c.s = c.n;
    }
    if kind == 3 {
        c.j.iter_mut().for_each(|v| v[1] = v[0]);
    }
    if kind == 4 {
        c.j.iter_mut().for_each(|v| *v = [v[0], v[0], v[0]]);
    }
    let a = g.raw();
    let angle = g.sym(PI);
    let axis = g.dir();
    let steps = g.us(1, 5) as u32;
    let no_field = g.chance(0.25);
    SymCase { c, kind, a, angle, axis, steps, no_field }
}
fn check_sym(s: &SymCase) -> Outcome {
    let c = &s.c;
    let n = c.n;
    let mut d = c.clone();
    let mut back: Box<dyn Fn(&[V3]) -> Vec<V3>> = Box::new(|v| v.to_vec());
    let what;
    match s.kind {
        0 => {
            let sh = 2 * (s.a as usize % (n / 2).max(1));
            what = format!("translation by {}", sh);
            for i in 0..n {
                d.spins[(i + sh) % n] = c.spins[i];
                d.j[(i + sh) % n] = c.j[i];
                d.h[(i + sh) % n] = c.h[i];
            }
            back = Box::new(move |v| (0..v.len()).map(|i| v[(i + sh) % v.len()]).collect());
        }
        1 => {
            what = "reflection".to_string();
            for i in 0..n {
                d.spins[(n - i) % n] = c.spins[i];
                d.h[(n - i) % n] = c.h[i];
                d.j[(2 * n - i - 1) % n] = c.j[i];
            }
            back = Box::new(move |v| (0..v.len()).map(|i| v[(v.len() - i) % v.len()]).collect());
        }
        2 => {
            // signed permutation of the axes; improper ones reverse the sense of precession
            let perms = [[0usize, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]];
            let p = perms[(s.a % 6) as usize];
            let sg = (s.a / 6) % 8;
            let f: V3 = [if sg & 1 == 1 { -1.0 } else { 1.0 }, if sg & 2 == 2 { -1.0 } else { 1.0 }, if sg & 4 == 4 { -1.0 } else { 1.0 }];
            let par = if (s.a % 6) < 3 { 1.0 } else { -1.0 };
            let det = par * f[0] * f[1] * f[2];
            what = format!("axes {:?} with signs {:?}", p, f);
            let r = move |v: &V3| -> V3 { [f[0] * v[p[0]], f[1] * v[p[1]], f[2] * v[p[2]]] };
            for i in 0..n {
                d.spins[i] = r(&c.spins[i]);
                d.h[i] = r(&c.h[i]);
                d.j[i] = [c.j[i][p[0]], c.j[i][p[1]], c.j[i][p[2]]];
            }
            d.hs = r(&c.hs);
            d.dt = c.dt * det;
            back = Box::new(move |v| {
                v.iter()
                    .map(|w| {
                        let mut o = [0.0; 3];
                        for k in 0..3 {
                            o[p[k]] = f[k] * w[k];
                        }
                        o
                    })
                    .collect()
            });
        }
        5 => {
            // energies in another unit, and the time in the matching one
            let k = if s.a % 2 == 0 { 2f64.powi((s.a / 2 % 50) as i32 - 25) } else { (1e-9f64.ln() + (s.a / 2 % 100000) as f64 / 1e5 * (1e15f64).ln()).exp() };
            what = format!("energies times {} and times divided by it", k);
            d.rescale(k, 1.0 / k);
        }
        3 | _ => {
            let (axis, ang) = if s.kind == 3 { ([0.0, 0.0, 1.0], s.angle) } else { (s.axis, s.angle) };
            what = format!("rotation by {} about {:?}", ang, axis);
            let r = move |v: &V3, a: f64| -> V3 { rodrigues(v, &axis, -a) };
            for i in 0..n {
                d.spins[i] = r(&c.spins[i], ang);
                d.h[i] = r(&c.h[i], ang);
            }
            d.hs = r(&c.hs, ang);
            if s.kind == 3 {
                // the rotated circular drive is the drive at a later phase
                d.t = c.t + ang * c.tau / (2.0 * PI);
            }
            back = Box::new(move |v| v.iter().map(|w| r(w, -ang)).collect());
        }
    }
    let mut x = c.build();
    let mut y = d.build();
    let mut tol = 0.0;
    for _ in 0..s.steps {
        tol = (tol + 4.0 * c.step_tol(c.t.abs() + d.t.abs() + 10.0)) * (1.0 + 2.0 * c.jmax() * c.dt.abs()).powi(3);
        if s.no_field {
            x.update_no_field();
            y.update_no_field();
        } else {
            x.update();
            y.update();
        }
    }
    let a = dirs(&x.spins);
    let b = back(&dirs(&y.spins));
    let (q, i) = max_dist(&a, &b);
    ensure!(q <= tol, "{} does not commute with {} steps of {}: spin {} of {} is {:?} against {:?} (off by {:e}, tolerance {:e}, drive {})", what, s.steps, c.dt, i, n, a[i], b[i], q, tol, drive_name(c.drive));
    let kinds = ["translation", "reflection", "axis permutation", "z rotation with drive phase", "general rotation", "other units"];
    Ok(Info::nt(moved(&a, &c.spins) && tol < 1e-6).label(kinds[s.kind as usize]))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct LocCase {
    c: ChainCase,
    site: usize,
    what: u8,
    v: V3,
    no_field: bool,
}
fn gen_loc(g: &mut Gen) -> LocCase {
    let o = Opts { nmin: 10, ..Opts::default() };
    let c = ChainCase::gen(g, &o);
    let site = g.below(c.n as u64) as usize;
    LocCase { site, what: g.below(3) as u8, v: g.sphere(), no_field: g.chance(0.3), c }
}
fn check_loc(l: &LocCase) -> Outcome {
    let c = &l.c;
    let mut d = c.clone();
    match l.what {
        0 => d.spins[l.site] = l.v,
        1 => d.j[l.site] = l.v,
        _ => d.h[l.site] = l.v,
    }
    let mut x = c.build();
    let mut y = d.build();
    if l.no_field {
        x.update_no_field();
        y.update_no_field();
    } else {
        x.update();
        y.update();
    }
    let n = c.n as i64;
    let mut changed = false;
    for i in 0..c.n {
        // distance from the changed site, or from either end of the changed bond
        let dd = |k: i64| {
            let q = (i as i64 - k).rem_euclid(n);
            q.min(n - q)
        };
        let dist = if l.what == 1 { dd(l.site as i64).min(dd(l.site as i64 + 1)) } else { dd(l.site as i64) };
        let same = x.spins[i].dir == y.spins[i].dir;
        changed |= !same;
        ensure!(
            same || dist <= 3,
            "one step carried a change of {} {} to spin {} ({} sites away, n = {})",
            ["spin", "coupling", "field"][l.what as usize], l.site, i, dist, c.n
        );
    }
    Ok(Info::nt(changed).label(["spin changed", "coupling changed", "field changed"][l.what as usize]))
}
pub fn d05() -> Property {
    Property {
        id: "D05",
        families: vec![
            Family::new("symmetry", 1200000, 30000000, gen_sym, check_sym, "the spins move and the rounding bound is below 1e-6").boxed(),
            Family::new("locality", 900000, 15000000, gen_loc, check_loc, "the change reached at least one spin").boxed(),
        ],
        assumptions: vec!["rings of even length; odd translations exchange the two sublattices and are not a symmetry of the step"],
    }
}

// ---------------------------------------------------------------- F01

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct DriveCase {
    c: ChainCase,
    site: usize,
    langevin: bool,
    flat: bool,
}
fn gen_drive(g: &mut Gen) -> DriveCase {
    let o = Opts { smin: 2, even: false, nmin: 2, ..Opts::default() };
    let flat = g.chance(0.7);
    let langevin = g.chance(0.15);
    let mut c = ChainCase::gen(g, &o);
    if flat {
        c.j = vec![[0.0; 3]; c.n];
        c.h = vec![[0.0; 3]; c.n];
    }
    let site = match g.below(4) {
        0 => c.s - 1,
        1 => c.s.min(c.n - 1),
        2 => 0,
        _ => g.below(c.n as u64) as usize,
    };
    DriveCase { c, site, langevin, flat }
}
fn check_drive(d: &DriveCase) -> Outcome {
    let c = &d.c;
    let n = c.n as f64;
    let i = d.site;
    let phase = 8.0 * EPS * (2.0 * PI * c.t.abs() / c.tau) * (1.0 + c.e.abs());
    let tol = 4.0 * EPS * n * (c.scale() + 1.0) * 4.0 + 2.0 * phase + 1e-14;
    let want = c.drive_at(c.t);
    let pname = if d.langevin { fresh_name("f01") } else { String::new() };
    // field at one site, read from the energies of the six axis orientations of its spin
    let mut energies: Vec<[f64; 3]> = vec![];
    for k in 0..3 {
        for sg in [1.0, -1.0].iter() {
            let mut q = c.clone();
            q.spins[i] = [0.0; 3];
            q.spins[i][k] = *sg;
            energies.push(if d.langevin {
                let x = q.build_langevin(&pname);
                [x.total_energy(), x.total_energy2(), x.system_energy()]
            } else {
                let x = q.build();
                [x.total_energy(), x.total_energy2(), x.system_energy()]
            });
        }
    }
    if d.langevin {
        let _ = std::fs::remove_file(format!("{}0.dat", pname));
    }
    for k in 0..3 {
        let l = (i + c.n - 1) % c.n;
        let r = (i + 1) % c.n;
        let ex = c.j[l][k] * c.spins[l][k] + c.j[i][k] * c.spins[r][k];
        let (a, b) = (&energies[2 * k], &energies[2 * k + 1]);
        for w in 0..2 {
            let f = (a[w] - b[w]) * n / 2.0 + ex - c.h[i][k];
            let exp = if i < c.s { want[k] } else { 0.0 };
            ensure!(
                (f - exp).abs() <= tol,
                "drive component {} at site {} (subsystem {}, n = {}, drive {}, t = {}, tau = {}, e = {}) seen by {} is {}, expected {}",
                k, i, c.s, c.n, drive_name(c.drive), c.t, c.tau, c.e, ["total_energy", "total_energy2"][w], f, exp
            );
        }
        // the subsystem energy has the fields of the sites that start an inner bond
        let mut exs = 0.0;
        if i >= 1 && i < c.s {
            exs += c.j[i - 1][k] * c.spins[i - 1][k];
        }
        if i + 1 < c.s {
            exs += c.j[i][k] * c.spins[i + 1][k];
        }
        let has = i + 1 < c.s;
        let f = (a[2] - b[2]) * (c.s as f64 - 1.0) / 2.0 + exs - if has { c.h[i][k] } else { 0.0 };
        let exp = if has { want[k] } else { 0.0 };
        ensure!(
            (f - exp).abs() <= tol,
            "drive component {} at site {} (subsystem {}, n = {}, drive {}, t = {}, tau = {}) seen by system_energy is {}, expected {}",
            k, i, c.s, c.n, drive_name(c.drive), c.t, c.tau, f, exp
        );
    }
    Ok(Info::nt(c.drive != 0)
        .label(drive_name(c.drive))
        .label_if(c.t < 0.0, "negative time")
        .label_if(i >= c.s, "outside the subsystem")
        .label_if(d.langevin, "Langevin chain"))
}
/// The drive inside the dynamics: period and support, from one step of free spins.
fn gen_period(g: &mut Gen) -> StepCase {
    let o = Opts { drives: &[1, 2, 3, 4], ..Opts::default() };
    let mut c = ChainCase::gen(g, &o);
    if c.t.abs() > 100.0 {
        c.t = c.t % 100.0;
    }
    StepCase { c, no_field: g.chance(0.4), steps: g.us(1, 9) as u32 }
}
fn check_period(s: &StepCase) -> Outcome {
    let c = &s.c;
    let mut x = c.build();
    let mut y = c.build();
    let p = s.steps as f64 * c.tau * if s.c.junk & 1 == 1 { -1.0 } else { 1.0 };
    y.t += p;
    if s.no_field {
        x.update_no_field();
        y.update_no_field();
    } else {
        x.update();
        y.update();
    }
    let (q, i) = max_dist(&dirs(&x.spins), &dirs(&y.spins));
    let tol = c.step_tol(c.t.abs() + p.abs()) * 4.0;
    ensure!(q <= tol, "a step at t = {} and one {} periods later differ at spin {} by {:e} (drive {}, tau {})", c.t, s.steps, i, q, drive_name(c.drive), c.tau);
    // outside the subsystem and its neighbours nothing depends on the drive
    let mut off = c.clone();
    off.drive = 0;
    let mut z = off.build();
    if s.no_field {
        z.update_no_field()
    } else {
        z.update()
    }
    for i in 0..c.n {
        let near = (0..7i64).any(|k| {
            let w = (i as i64 + k - 3).rem_euclid(c.n as i64) as usize;
            w < c.s
        });
        if !near {
            ensure!(dist(&z.spins[i].dir, &x.spins[i].dir) <= 1e-15, "spin {} far from the driven subsystem (0..{}, n = {}) depends on the drive", i, c.s, c.n);
        }
    }
    Ok(Info::nt(moved(&dirs(&x.spins), &dirs(&z.spins))).label(drive_name(c.drive)))
}
pub fn f01() -> Property {
    Property {
        id: "F01",
        families: vec![
            Family::new("field-readout", 600000, 8000000, gen_drive, check_drive, "a drive is configured").boxed(),
            Family::new("period", 400000, 10000000, gen_period, check_period, "the drive changes the step").boxed(),
        ],
        assumptions: vec!["the elliptic drive is (cos, e sin, 0), as the program computes it and the README's option list says"],
    }
}
