//! B09: runs, threads, samples and invocations are independent realisations.
use crate::bin::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::p_bin::*;
use crate::p_init::*;
use crate::util::*;
use serde::{Deserialize, Serialize};


fn all_differ(what: &str, v: &[(String, Vec<f64>)]) -> Result<(), Fail> {
    let mut o: Vec<usize> = (0..v.len()).collect();
    o.sort_by(|a, b| v[*a].1.partial_cmp(&v[*b].1).unwrap_or(std::cmp::Ordering::Equal));
    for w in o.windows(2) {
        ensure!(v[w[0]].1 != v[w[1]].1, "{}: {} and {} have the same state {:?}", what, v[w[0]].0, v[w[1]].0, v[w[0]].1);
    }
    Ok(())
}
/// unit vectors that are independent and isotropic: no correlation at any small distance
fn uncorrelated(what: &str, v: &[V3]) -> Result<(), Fail> {
    for lag in 1..=6usize {
        if v.len() < lag + 8 {
            break;
        }
        let n = v.len() - lag;
        let z = (3.0 / n as f64).sqrt() * (0..n).map(|i| dot(&v[i], &v[i + lag])).sum::<f64>();
        ensure!(z.abs() < 7.0, "{}: directions {} apart are correlated, {:.1} standard errors ({} pairs)", what, lag, z, n);
    }
    Ok(())
}
/// least-squares fit of y by 9 columns; the share of the sum of squares that is left
fn left_over(x: &[Vec<f64>], y: &[f64]) -> f64 {
    // Gram-Schmidt on the columns
    let n = y.len();
    let k = x[0].len();
    let mut q: Vec<Vec<f64>> = vec![];
    for c in 0..k {
        let mut v: Vec<f64> = (0..n).map(|r| x[r][c]).collect();
        let l0 = v.iter().map(|a| a * a).sum::<f64>();
        for _ in 0..2 {
            for u in &q {
                let p: f64 = u.iter().zip(&v).map(|(a, b)| a * b).sum();
                for i in 0..n {
                    v[i] -= p * u[i];
                }
            }
        }
        let l = v.iter().map(|a| a * a).sum::<f64>();
        if l > 1e-12 * (1e-300 + l0) {
            q.push(v.iter().map(|a| a / l.sqrt()).collect());
        }
    }
    let mut r = y.to_vec();
    for _ in 0..2 {
        for u in &q {
            let p: f64 = u.iter().zip(&r).map(|(a, b)| a * b).sum();
            for i in 0..n {
                r[i] -= p * u[i];
            }
        }
    }
    r.iter().map(|a| a * a).sum::<f64>() / (1e-300 + y.iter().map(|a| a * a).sum::<f64>())
}
/// Energies of two-spin rings with known spins: the share due to disorder has to be that of couplings and
/// fields drawn anew for each of them.
fn disorder(what: &str, c: &Conf, e: &[f64], s: &[(V3, V3)], zs: &mut Vec<f64>) -> Result<(), Fail> {
    let m = model(c);
    let mut y = vec![];
    let mut x = vec![];
    for (e, (a, b)) in e.iter().zip(s) {
        let e0 = crate::chain::ring_energy(&[*a, *b], &m.j, &m.h);
        let v: f64 = 2.0 * c.jvar.powi(2) * (0..3).map(|k| (a[k] * b[k]).powi(2)).sum::<f64>() + 2.0 * c.hvar.powi(2);
        let d = 2.0 * e - e0;
        zs.push(d / v.sqrt());
        y.push(d);
        x.push(vec![a[0] * b[0], a[1] * b[1], a[2] * b[2], a[0], a[1], a[2], b[0], b[1], b[2]]);
    }
    if y.len() >= 16 {
        let l = left_over(&x, &y);
        ensure!(l > 1e-6, "{}: one set of couplings and fields explains the energies of all {} chains (share left over {:.1e})", what, y.len(), l);
    }
    Ok(())
}
fn spread(what: &str, zs: &[f64]) -> Result<(), Fail> {
    let n = zs.len() as f64;
    let q: f64 = zs.iter().map(|z| z * z).sum();
    let p = p_chi2(q, n);
    ensure!(p > 1e-10, "{}: the random parts of {} energies have the variance {:.3} of what jvar and hvar give (p = {:.1e})", what, zs.len(), q / n, p);
    // too small a variance: the other tail, by the Chernoff bound
    let r = q / n;
    if r < 1.0 {
        let lp = 0.5 * n * (1.0 - r + r.max(1e-300).ln());
        ensure!(lp > -23.0, "{}: the random parts of {} energies have only {:.3} of the variance jvar and hvar give (log p < {:.0})", what, zs.len(), r, lp);
    }
    let mean = zs.iter().sum::<f64>() / n.sqrt();
    ensure!(mean.abs() < 7.0, "{}: the random parts of {} energies have the mean {:.1} standard errors from zero", what, zs.len(), mean);
    // the same draws for chains that follow one another
    for lag in 1..=4usize {
        if zs.len() > lag + 20 {
            let k = zs.len() - lag;
            let a: f64 = (0..k).map(|i| zs[i] * zs[i + lag]).sum::<f64>() / (k as f64).sqrt();
            ensure!(a.abs() < 12.0, "{}: the random parts of energies {} apart are correlated ({:.1})", what, lag, a);
        }
    }
    Ok(())
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct IndepCase {
    c: Conf,
    mode: u8,
    /// no Monte-Carlo update is carried out: the chains are as they were made
    frozen: bool,
    beta: f64,
    seeds: Vec<u64>,
}
fn two_spins(g: &mut Gen, frozen: bool) -> Conf {
    let mut c = gen_sim_conf(g, &SimOpts { nmax: 4, steps: 2.0, jvar: true });
    c.hsize = 2;
    c.ssize = 2;
    c.drive = 0;
    c.strob = false;
    c.log = true;
    c.offset = c.offset.min(1000);
    c.jvar = 0.0;
    c.hvar = 0.0;
    if frozen {
        let k = g.below(3);
        if k != 1 {
            c.jvar = g.log(1e-4, 0.3);
        }
        if k != 0 {
            c.hvar = g.log(1e-4, 0.3);
        }
    } else {
        // an isotropic ensemble
        c.lambda = 1.0;
        c.hfield = [0.0; 3];
        c.hs = [0.0; 3];
    }
    c
}
fn seeds(g: &mut Gen, most: usize) -> Vec<u64> {
    let n = g.us(1, most);
    let s = g.raw() >> 2;
    (0..n as u64).map(|i| s + i).collect()
}

// ---------------------------------------------------------------- runs

fn gen_runs(g: &mut Gen) -> IndepCase {
    let frozen = g.chance(0.5);
    let mut c = two_spins(g, frozen);
    let mode = if frozen { g.below(3) as u8 } else { g.below(4) as u8 };
    c.t = g.range(0, 2) as f64 * c.dt;
    c.trel = 0.0;
    c.runs = g.us(16, 30) as i32;
    c.threads = g.us(1, 6);
    IndepCase { c, mode, frozen, beta: g.log(0.1, 4.0), seeds: seeds(g, 2) }
}
fn chk_runs(k: &IndepCase) -> Outcome {
    let d = Dir::new("ind");
    let mut c = k.c.clone();
    c.beta = k.beta;
    d.write("config.toml", &conf_text(&c))?;
    let mut states: Vec<(String, Vec<f64>)> = vec![];
    let mut zs = vec![];
    let runs = c.runs as usize;
    let mut off = c.offset as usize;
    for (q, seed) in k.seeds.iter().enumerate() {
        let mut a = mode_args(k.mode, &Some(0.5), false);
        a.extend(args(&["-b", &format!("{}", k.beta)]));
        ok_run(&d, &a, *seed, if k.frozen { u32::MAX } else { 4000 })?;
        let what = format!("invocation {} in the {} mode, {} runs on {} threads", q + 1, mode_name(k.mode), runs, c.threads);
        let mut e = vec![];
        let mut sp = vec![];
        let mut a0: Vec<V3> = vec![];
        let mut a1: Vec<V3> = vec![];
        for i in 0..runs {
            let f = format!("{}{}.dat", c.file, off + i);
            let r = parse_log(&f, &d.read(&f).unwrap_or_default(), &c, k.mode)?.first;
            states.push((format!("run {} of invocation {}", i + 1, q + 1), r[1..].to_vec()));
            if k.mode == LANGEVIN {
                a0.push(norm(&[r[3], r[4], r[5]]));
            } else {
                let (s, p) = ([r[7], r[8], r[9]], [r[10], r[11], r[12]]);
                e.push(r[1]);
                sp.push((s, p));
                a0.push(s);
                a1.push(p);
            }
        }
        off += runs;
        if k.frozen {
            disorder(&what, &c, &e, &sp, &mut zs)?;
        }
        uncorrelated(&format!("{}, first spins", what), &a0)?;
        if !a1.is_empty() {
            uncorrelated(&format!("{}, second spins", what), &a1)?;
        }
    }
    let what = format!("{} runs of the {} mode on {} threads", states.len(), mode_name(k.mode), c.threads);
    all_differ(&what, &states)?;
    if k.frozen {
        spread(&what, &zs)?;
    }
    Ok(Info::nt(true).label(mode_name(k.mode)).label(if k.frozen { "disorder as drawn" } else { "states after Monte Carlo" }).label(format!("{} invocation(s)", k.seeds.len())))
}

// ---------------------------------------------------------------- samples

fn gen_samples(g: &mut Gen) -> IndepCase {
    let mode = g.below(4) as u8;
    let frozen = mode < 2 && g.chance(0.5);
    let mut c = two_spins(g, frozen);
    c.t = 0.0;
    c.trel = 0.0;
    c.threads = if frozen { g.us(1, 30) } else { g.us(1, 8) };
    c.mc_points = if frozen { c.threads + g.us(0, 10) } else { g.us(16, 60) };
    if mode >= 2 && g.chance(0.5) {
        c.jvar = g.log(1e-4, 0.3);
    }
    let mut beta = g.log(0.1, 4.0);
    if mode == 1 || mode == 3 {
        // keep the corrections of the first-order Magnus energies small enough for moves to be accepted
        c.tau = g.uni(0.1, 3.0);
        beta = beta.min(1.0);
    }
    IndepCase { c, mode, frozen, beta, seeds: seeds(g, 2) }
}
fn chk_samples(k: &IndepCase) -> Outcome {
    let d = Dir::new("ins");
    let mut c = k.c.clone();
    c.beta = k.beta;
    d.write("config.toml", &conf_text(&c))?;
    let pts = format!("{}", c.mc_points);
    let (f, flags, cols): (String, Vec<String>, usize) = match k.mode {
        0 => ("mc_live.dat".into(), args(&["-m"]), 11),
        1 => ("mc_live.dat".into(), args(&["--monte-carlo-magnus"]), 11),
        2 => (format!("dyn-hist-t-{}.dat", c.t), args(&["-d", &pts]), 5),
        _ => ("hist_mc_magnus.dat".into(), args(&["--magnus-hist", &pts]), 11),
    };
    let mut states: Vec<(String, Vec<f64>)> = vec![];
    let mut zs = vec![];
    let mut at = 0;
    for (q, seed) in k.seeds.iter().enumerate() {
        let mut a = flags.clone();
        a.extend(args(&["-b", &format!("{}", k.beta)]));
        // the histogram mode takes 10000 updates per sample
        let thin = if k.frozen { u32::MAX } else if k.mode == 3 { 5 } else { 300 };
        ok_run(&d, &a, *seed, thin)?;
        let what = format!("invocation {} of {}, {} points on {} threads", q + 1, flags[0], c.mc_points, c.threads);
        let t = table(&f, &d.read(&f).unwrap_or_default(), cols)?;
        ensure!(t.len() == at + c.mc_points, "{}: {} lines instead of {}", what, t.len() - at.min(t.len()), c.mc_points);
        let new = &t[at..];
        at = t.len();
        let mut chains: Vec<Vec<f64>> = vec![];
        for r in new {
            // without the line numbers
            let v = if k.mode >= 2 { r[1..].to_vec() } else { r.clone() };
            if !(k.frozen && chains.contains(&v)) {
                chains.push(v);
            }
        }
        if k.frozen {
            let want = c.threads.min(c.mc_points);
            ensure!(chains.len() == want, "{}: {} different chains on {} threads", what, chains.len(), want);
            let e: Vec<f64> = chains.iter().map(|r| r[0]).collect();
            let s: Vec<(V3, V3)> = chains.iter().map(|r| ([r[5], r[6], r[7]], [r[8], r[9], r[10]])).collect();
            disorder(&what, &c, &e, &s, &mut zs)?;
        }
        let at = |o: usize| -> Vec<V3> { chains.iter().map(|r| norm(&[r[o], r[o + 1], r[o + 2]])).collect() };
        match k.mode {
            // the first-order Magnus ensembles are not isotropic
            1 | 3 => {
                if k.frozen {
                    uncorrelated(&format!("{}, first spins", what), &at(5))?
                }
            }
            0 => uncorrelated(&format!("{}, first spins", what), &at(5))?,
            _ => uncorrelated(&format!("{}, magnetisations", what), &at(0))?,
        }
        for (i, v) in chains.into_iter().enumerate() {
            states.push((format!("sample {} of invocation {}", i + 1, q + 1), v));
        }
    }
    let what = format!("{} samples of {} on {} threads", states.len(), flags[0], c.threads);
    all_differ(&what, &states)?;
    if k.frozen && zs.len() >= 8 {
        spread(&what, &zs)?;
    }
    Ok(Info::nt(states.len() > 1).label(flags[0].clone()).label(if k.frozen { "disorder as drawn" } else { "states after Monte Carlo" }).label(format!("{} invocation(s)", k.seeds.len())))
}

// ---------------------------------------------------------------- invocations

fn gen_again(g: &mut Gen) -> IndepCase {
    let mut k = IndepCase { c: two_spins(g, true), mode: g.below(4) as u8, frozen: true, beta: g.log(0.1, 4.0), seeds: vec![] };
    k.c.t = 0.0;
    k.c.trel = 0.0;
    k.c.runs = g.us(1, 2) as i32;
    k.c.threads = g.us(1, 2);
    k.c.mc_points = k.c.threads;
    let s = g.raw() >> 2;
    k.seeds = (0..g.us(17, 20) as u64).map(|i| s + i).collect();
    k
}
/// The same configuration over and over: chains of equal numbers, in the same log files.
fn chk_again(k: &IndepCase) -> Outcome {
    let d = Dir::new("ina");
    let mut c = k.c.clone();
    c.beta = k.beta;
    let live = k.mode == 3;
    let n = if live { c.threads } else { c.runs as usize };
    let mut states: Vec<(String, Vec<f64>)> = vec![];
    let mut e = vec![vec![]; n];
    let mut sp = vec![vec![]; n];
    for (q, seed) in k.seeds.iter().enumerate() {
        d.write("config.toml", &conf_text(&c))?;
        let mut a = if live { args(&["-m"]) } else { mode_args(k.mode, &None, false) };
        a.extend(args(&["-b", &format!("{}", k.beta)]));
        ok_run(&d, &a, *seed, u32::MAX)?;
        let lines: Vec<Vec<f64>> = if live {
            let t = table("mc_live.dat", &d.read("mc_live.dat").unwrap_or_default(), 11)?;
            ensure!(t.len() == n * (q + 1), "mc_live.dat has {} lines after {} times {} points", t.len(), q + 1, n);
            t[n * q..].iter().map(|r| [&[0.0, r[0]], &r[1..5], &[0.0], &r[5..11]].concat()).collect()
        } else {
            (0..n)
                .map(|i| {
                    let f = format!("{}{}.dat", c.file, c.offset as usize + i);
                    Ok(parse_log(&f, &d.read(&f).unwrap_or_default(), &c, k.mode)?.first)
                })
                .collect::<Result<_, Fail>>()?
        };
        for (i, r) in lines.iter().enumerate() {
            states.push((format!("chain {} of invocation {}", i + 1, q + 1), r[1..].to_vec()));
            e[i].push(r[1]);
            sp[i].push(([r[7], r[8], r[9]], [r[10], r[11], r[12]]));
        }
    }
    let what = format!("{} invocations of the {} mode with one configuration", k.seeds.len(), if live { "-m" } else { mode_name(k.mode) });
    all_differ(&what, &states)?;
    let mut zs = vec![];
    for i in 0..n {
        // two threads write in any order: taken together then
        if live && n > 1 {
            break;
        }
        disorder(&format!("{}, chain {}", what, i + 1), &c, &e[i], &sp[i], &mut zs)?;
        uncorrelated(&format!("{}, chain {}", what, i + 1), &sp[i].iter().map(|x| x.0).collect::<Vec<_>>())?;
    }
    if !zs.is_empty() {
        spread(&what, &zs)?;
    }
    Ok(Info::nt(true).label(if live { "-m" } else { mode_name(k.mode) }).label(format!("{} chain(s)", n)))
}

pub fn b09() -> Property {
    Property {
        id: "B09",
        families: vec![
            Family::new("runs", 48, 1200, gen_runs, chk_runs, "always (16 to 60 runs per case)").shrink(40).shard_size(3).boxed(),
            Family::new("invocations", 60, 800, gen_again, chk_again, "always (17 to 20 invocations per case)").shrink(40).shard_size(3).boxed(),
            Family::new("samples", 100, 1500, gen_samples, chk_samples, "at least two samples").shrink(40).shard_size(3).boxed(),
        ],
        assumptions: vec![
            "Two-spin rings, whose log lines show the whole state.",
            "Monte-Carlo updates are thinned or, to see couplings and fields as drawn, left out by a guarded hook.",
            "Each invocation is given a seed of its own where the program takes entropy from the system.",
            "Sharing is found where states coincide, correlate beyond 7 standard errors, or one set of couplings and fields explains 16 or more energies.",
        ],
    }
}
