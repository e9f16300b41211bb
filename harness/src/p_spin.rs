//! S01, S02: the single spin.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::util::*;
use sc::spin::Spin;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Xyz {
    v: V3,
}
fn gen_xyz(g: &mut Gen) -> Xyz {
    let d = g.dir();
    let m = match g.below(4) {
        0 => 1.0,
        1 => g.pos_num(0.1, 10.0),
        _ => g.log(1e-140, 1e140),
    };
    let mut v = scale(&d, m);
    if g.chance(0.3) {
        v = [g.slog(1e-8, 1e8), g.slog(1e-8, 1e8), g.slog(1e-8, 1e8)];
    }
    Xyz { v }
}
fn unit_ok(d: &V3, tol: f64) -> bool {
    finite(d) && (len(d) - 1.0).abs() <= tol
}
fn check_xyz(c: &Xyz) -> Outcome {
    let s = Spin::new_xyz(&c.v).dir;
    ensure!(unit_ok(&s, 4e-15), "new_xyz({:?}) = {:?} is not a unit vector", c.v, s);
    let u = norm(&c.v);
    ensure!(dist(&s, &u) <= 4e-15, "new_xyz({:?}) = {:?}, expected {:?}", c.v, s, u);
    Ok(Info::nt(true).label_if((len(&c.v) - 1.0).abs() > 1e-3, "not already unit"))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Angles {
    az: f64,
    pol: f64,
    prev: V3,
}
fn gen_angle(g: &mut Gen) -> f64 {
    match g.below(6) {
        0 => 0.0,
        1 => PI * 0.25 * g.range(-9, 9) as f64,
        2 => g.sym(PI),
        3 => g.sym(10.0),
        4 => g.num(4.0),
        _ => g.slog(1e-9, 1e5),
    }
}
fn gen_angles(g: &mut Gen) -> Angles {
    Angles { az: gen_angle(g), pol: gen_angle(g), prev: g.dir() }
}
fn check_angles(c: &Angles) -> Outcome {
    let want = [c.az.cos() * c.pol.sin(), c.az.sin() * c.pol.sin(), c.pol.cos()];
    let tol = 2e-15 + 4.0 * EPS * (c.az.abs() + c.pol.abs());
    let s = Spin::new_from_angles(c.az, c.pol).dir;
    ensure!(dist(&s, &want) <= tol, "new_from_angles({}, {}) = {:?}, expected {:?}", c.az, c.pol, s, want);
    let mut q = Spin { dir: c.prev };
    q.set_angles(c.az, c.pol);
    ensure!(dist(&q.dir, &want) <= tol, "set_angles({}, {}) on {:?} = {:?}, expected {:?}", c.az, c.pol, c.prev, q.dir, want);
    ensure!(unit_ok(&s, 4e-15) && unit_ok(&q.dir, 4e-15), "angles ({}, {}) give length {}", c.az, c.pol, len(&s));
    let x = s;
    let v = Spin::new_from_angles(c.az, c.pol).xyz();
    ensure!(v.len() == 3 && v[0] == x[0] && v[1] == x[1] && v[2] == x[2], "xyz() of {:?} is {:?}", x, v);
    Ok(Info::nt(c.az != 0.0 || c.pol != 0.0))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Unit {
    v: V3,
    /// 0 as given, 1 through new_xyz, 2 after a rotation
    via: u8,
    w: V3,
}
fn gen_unit(g: &mut Gen) -> Unit {
    Unit { v: g.dir(), via: g.below(3) as u8, w: g.dir() }
}
fn check_readback(c: &Unit) -> Outcome {
    let mut s = match c.via {
        1 => Spin::new_xyz(&c.v),
        _ => Spin { dir: c.v },
    };
    if c.via == 2 {
        s.rotate(&c.w, 0.7);
    }
    let d = s.dir;
    let (az, pol) = (s.theta(), s.phi());
    ensure!(az.is_finite() && pol.is_finite(), "angles of {:?} are ({}, {})", d, az, pol);
    let b = Spin::new_from_angles(az, pol).dir;
    let rho = (d[0] * d[0] + d[1] * d[1]).sqrt();
    // acos loses digits at the poles: the polar angle is only known to eps / sin
    let tol = 1e-13 + 8.0 * EPS / rho.max(1e-8);
    ensure!(dist(&b, &d) <= tol, "spin {:?} reads back as angles ({}, {}), which is {:?}", d, az, pol, b);
    let mut q = Spin::new();
    q.set_angles(az, pol);
    ensure!(dist(&q.dir, &d) <= tol, "spin {:?} set from its own angles ({}, {}) is {:?}", d, az, pol, q.dir);
    Ok(Info::nt(true)
        .label_if(rho < 1e-6, "pole")
        .label_if(d[0] == 0.0, "x = 0")
        .label_if(d[1] == 0.0, "y = 0")
        .label_if(d[0] < 0.0, "x < 0"))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Pair {
    a: V3,
    b: V3,
    angle: f64,
}
fn gen_pair(g: &mut Gen) -> Pair {
    let a = g.dir();
    let mut b = if g.chance(0.2) {
        let e = g.log(1e-5, 0.1);
        let d = g.sphere();
        let s = if g.chance(0.5) { -1.0 } else { 1.0 };
        norm(&[s * a[0] + e * d[0], s * a[1] + e * d[1], s * a[2] + e * d[2]])
    } else {
        g.dir()
    };
    if len(&cross(&a, &b)) < 3e-6 {
        b = [a[1], a[2], a[0]];
        if len(&cross(&a, &b)) < 0.1 {
            b = [a[1], -a[2], a[0]];
        }
    }
    let angle = match g.below(4) {
        0 => 0.0,
        1 => PI * 0.25 * g.range(-8, 8) as f64,
        _ => g.sym(PI),
    };
    let (ka, kb) = if g.chance(0.5) { (1.0, 1.0) } else { (g.log(1e-3, 1e3), g.log(1e-3, 1e3)) };
    Pair { a: scale(&a, ka), b: scale(&b, kb), angle }
}
fn check_gs(c: &Pair) -> Outcome {
    let u = norm(&c.a);
    let w = norm(&c.b);
    let x = cross(&u, &w);
    let sn = len(&x);
    if sn < 1e-6 {
        return Ok(Info::nt(false));
    }
    // w - (w.u)u = (u x w) x u
    let want = norm(&cross(&x, &u));
    let r = Spin::gs(&c.a, &c.b);
    let tol = 1e-14 + 8.0 * EPS / sn;
    ensure!(unit_ok(&r, 4e-15), "gs({:?}, {:?}) = {:?} is not a unit vector", c.a, c.b, r);
    ensure!(dot(&r, &u).abs() <= tol, "gs({:?}, {:?}) = {:?} is not orthogonal to the first", c.a, c.b, r);
    ensure!(dist(&r, &want) <= tol, "gs({:?}, {:?}) = {:?}, expected {:?}", c.a, c.b, r, want);
    Ok(Info::nt(true).label_if(sn < 1e-2, "nearly parallel").label_if((len(&c.a) - 1.0).abs() > 0.01, "first not unit"))
}
fn check_tilt(c: &Pair) -> Outcome {
    let old0 = norm(&c.a);
    let az = old0[1].atan2(old0[0]);
    let pol = old0[2].max(-1.0).min(1.0).acos();
    // the direction these angles stand for
    let old = [az.cos() * pol.sin(), az.sin() * pol.sin(), pol.cos()];
    let w = norm(&c.b);
    let x = cross(&old, &w);
    let sn = len(&x);
    if sn < 1e-6 {
        return Ok(Info::nt(false));
    }
    let perp = norm(&cross(&x, &old));
    let tip = cross(&perp, &old);
    let want = add(&scale(&old, c.angle.cos()), &scale(&tip, c.angle.sin()));
    let n = Spin::rot_perp(&[az, pol], &c.b, c.angle);
    ensure!(n[0].is_finite() && n[1].is_finite(), "rot_perp({:?}, {:?}, {}) = {:?}", [az, pol], c.b, c.angle, n);
    let d = [n[0].cos() * n[1].sin(), n[0].sin() * n[1].sin(), n[1].cos()];
    let rho = (want[0] * want[0] + want[1] * want[1]).sqrt();
    let tol = 1e-13 + 16.0 * EPS / sn + 8.0 * EPS / rho.max(1e-8);
    ensure!(
        dist(&d, &want) <= tol,
        "tilting {:?} about the part of {:?} orthogonal to it by {} gives {:?}, expected {:?}",
        old, c.b, c.angle, d, want
    );
    Ok(Info::nt(c.angle != 0.0)
        .label_if(want[0] < 0.0, "result x < 0")
        .label_if(rho < 1e-6, "result at a pole")
        .label_if(want[0].abs() < 1e-15, "result x = 0"))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct EqCase {
    a: V3,
    b: V3,
}
fn gen_eq(g: &mut Gen) -> EqCase {
    let a = g.dir();
    let b = match g.below(5) {
        0 => g.dir(),
        1 => a,
        2 => scale(&a, -1.0),
        // about the tolerance, mostly in one component
        3 => {
            let mut d = [0.0; 3];
            d[g.us(0, 2)] = g.slog(1e-5, 0.1);
            norm(&add(&a, &d))
        }
        _ => norm(&add(&a, &[g.slog(1e-6, 3e-3), g.slog(1e-6, 3e-3), g.slog(1e-6, 3e-3)])),
    };
    EqCase { a, b }
}
fn check_eq(k: &EqCase) -> Outcome {
    let mut x = Spin::new();
    ensure!(x.dir == [1.0, 0.0, 0.0] && Spin::default().dir == x.dir, "new() = {:?}, default() = {:?}", x.dir, Spin::default().dir);
    let mut y = Spin::new();
    x.dir = k.a;
    y.dir = k.b;
    let far = (0..3).map(|i| (k.a[i] - k.b[i]).abs()).fold(0.0, f64::max);
    let (e, f) = (x == y, y == x);
    ensure!(e == f && (x != y) != e, "{:?} == {:?} is {}, the other way round {}", k.a, k.b, e, f);
    if (far - 0.001).abs() > 1e-12 {
        ensure!(e == (far < 0.001), "{:?} == {:?} is {}, the components differ by up to {}", k.a, k.b, e, far);
    }
    let v = x.xyz();
    ensure!(v.len() == 3 && (0..3).all(|i| v[i] == k.a[i]), "xyz() of {:?} is {:?}", k.a, v);
    Ok(Info::nt(far > 0.0 && far < 0.1).label(if e { "equal" } else { "different" }))
}
pub fn s01() -> Property {
    Property {
        id: "S01",
        families: vec![
            Family::new("xyz", 1000000, 2000000, gen_xyz, check_xyz, "the triple has a finite non-zero squared length").boxed(),
            Family::new("angles", 1000000, 2000000, gen_angles, check_angles, "at least one angle is not zero").boxed(),
            Family::new("readback", 2000000, 60000000, gen_unit, check_readback, "every unit vector counts (poles, axes and planes are labelled)").boxed(),
            Family::new("equality", 400000, 4000000, gen_eq, check_eq, "the two differ by less than 0.1, but do differ").boxed(),
            Family::new("gram-schmidt", 1000000, 2000000, gen_pair, check_gs, "the two vectors are at least 1e-6 away from parallel").boxed(),
            Family::new("tilt", 2000000, 60000000, gen_pair, check_tilt, "the tilt angle is not zero and the pair not parallel").boxed(),
        ],
        assumptions: vec!["triples whose squared length over- or underflows are outside the domain", "within 1e-8 of a pole the polar angle carries only half the digits (arc cosine)"],
    }
}

// ---------------------------------------------------------------- S02

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Rot {
    s: V3,
    f: V3,
    t: f64,
    u: f64,
    reps: u32,
}
fn gen_rot(g: &mut Gen) -> Rot {
    let s = g.dir();
    let d = g.dir();
    let (f, t) = match g.below(8) {
        0 => ([0.0; 3], g.num(1.0)),
        1 => (g.vec3(2.0), 0.0),
        2 => {
            // extreme field strength, time so that the angle is ordinary
            let m = g.log(1e-150, 1e100);
            (scale(&d, m), g.sym(20.0) / m)
        }
        3 => {
            // parallel field
            let k = g.num(3.0);
            (scale(&s, k), g.num(5.0))
        }
        4 => {
            let m = g.log(1e-6, 1e3);
            (scale(&d, m), g.slog(1e-6, 1e3))
        }
        5 => {
            let m = g.pos_num(0.1, 3.0);
            (scale(&d, m), PI * 0.5 * g.range(-8, 8) as f64 / m)
        }
        _ => {
            let m = g.pos_num(0.01, 5.0);
            (scale(&d, m), g.num(2.0))
        }
    };
    let u = t * g.sym(2.0);
    let reps = g.us(1, 200) as u32;
    Rot { s, f, t, u, reps }
}
fn rot(s: &V3, f: &V3, t: f64) -> V3 {
    let mut q = Spin { dir: *s };
    q.rotate(f, t);
    q.dir
}
fn check_rot(c: &Rot) -> Outcome {
    let w = len(&c.f);
    let a = w * c.t;
    let tol = |ang: f64| 1e-14 + 4.0 * EPS * ang.abs();
    let want = precess(&c.s, &c.f, c.t);
    let r = rot(&c.s, &c.f, c.t);
    ensure!(
        dist(&r, &want) <= tol(a),
        "spin {:?} in field {:?} for time {}: {:?}, expected {:?}",
        c.s, c.f, c.t, r, want
    );
    ensure!(unit_ok(&r, 4e-15), "length {} after rotating {:?} in {:?} for {}", len(&r), c.s, c.f, c.t);
    if w == 0.0 || c.t == 0.0 {
        ensure!(dist(&r, &c.s) <= 4e-16, "zero field or time moved {:?} to {:?}", c.s, r);
    }
    if w > 0.0 {
        let fh = scale(&c.f, 1.0 / w);
        ensure!((dot(&fh, &r) - dot(&fh, &c.s)).abs() <= 1e-14, "component along the field changed: {:?} -> {:?} in {:?} for {}", c.s, r, c.f, c.t);
    }
    let back = rot(&r, &c.f, -c.t);
    ensure!(dist(&back, &c.s) <= 2.0 * tol(a), "rotating {:?} in {:?} for {} and back gives {:?}", c.s, c.f, c.t, back);
    let neg = rot(&c.s, &scale(&c.f, -1.0), -c.t);
    ensure!(dist(&neg, &r) <= tol(a), "reversing field and time changes the rotation of {:?} in {:?} for {}", c.s, c.f, c.t);
    let two = rot(&r, &c.f, c.u);
    let once = rot(&c.s, &c.f, c.t + c.u);
    let b = w * c.u;
    ensure!(
        dist(&two, &once) <= tol(2.0 * a.abs() + 2.0 * b.abs()),
        "times {} then {} differ from their sum for {:?} in {:?}: {:?} / {:?}",
        c.t, c.u, c.s, c.f, two, once
    );
    Ok(Info::nt(a != 0.0).label_if(w == 0.0, "zero field").label_if(c.t == 0.0, "zero time").label_if(a < 0.0, "negative").label_if(w > 1e10 || (w > 0.0 && w < 1e-10), "extreme field"))
}
fn check_reps(c: &Rot) -> Outcome {
    let w = len(&c.f);
    let a = w * c.t;
    if !(a.abs() * c.reps as f64 <= 1e5) {
        return Ok(Info::nt(false));
    }
    let mut s = c.s;
    for _ in 0..c.reps {
        s = rot(&s, &c.f, c.t);
    }
    let want = precess(&c.s, &c.f, c.t * c.reps as f64);
    let tol = (1e-14 + 8.0 * EPS * a.abs()) * (c.reps as f64 + 2.0);
    ensure!(dist(&s, &want) <= tol, "{} rotations of {:?} in {:?} for {} give {:?}, expected {:?}", c.reps, c.s, c.f, c.t, s, want);
    ensure!(unit_ok(&s, 4e-15), "length {} after {} rotations", len(&s), c.reps);
    Ok(Info::nt(a != 0.0 && c.reps > 1))
}
pub fn s02() -> Property {
    Property {
        id: "S02",
        families: vec![
            Family::new("rotate", 8000000, 100000000, gen_rot, check_rot, "the rotation angle is not zero").boxed(),
            Family::new("repeat", 1200000, 20000000, gen_rot, check_reps, "more than one rotation by a non-zero angle").boxed(),
        ],
        assumptions: vec!["fields whose squared length over- or underflows are outside the domain"],
    }
}
