//! B03, B04: the averaging modes on generated and on real logs.
use crate::bin::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::p_bin::*;
use crate::p_init::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct LogFile {
    name: String,
    first: String,
    rows: Vec<Vec<f64>>,
    /// line separator details
    style: u8,
    unfinished: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct AvgCase {
    prefix: String,
    files: Vec<LogFile>,
    others: Vec<u8>,
    stale: bool,
    t: f64,
    dt: f64,
    flag: u8,
    again: bool,
    seed: u64,
    two: bool,
}
fn value(g: &mut Gen) -> f64 {
    match g.below(8) {
        0 => 0.0,
        1 => g.range(-9, 9) as f64,
        2 => g.slog(1e-12, 1e-3),
        3 => g.slog(1e3, 1e12),
        4 => g.dict_float(),
        _ => g.sym(2.0),
    }
}
fn prefix(g: &mut Gen) -> String {
    loop {
        let p = match g.below(4) {
            0 => "log".to_string(),
            1 => g.pick(&["run_", "a.b", "x y", "données", "log1", "L-", "config", "log.dat", "out/log", "out/", "./log"]).to_string(),
            _ => {
                let k = g.us(1, 8);
                (0..k).map(|_| char::from_u32(g.range(97, 122) as u32).unwrap_or('c')).collect()
            }
        };
        if !"avg.dat".starts_with(&p) && !"two-point.dat".starts_with(&p) {
            return p;
        }
    }
}
fn gen_files(g: &mut Gen, two: bool) -> AvgCase {
    let prefix = prefix(g);
    let nf = match g.below(6) {
        0 => 0,
        1 => 1,
        2 => g.us(2, 12),
        _ => g.us(2, 5),
    };
    let cols = match g.below(6) {
        0 => 1,
        1 => 8,
        2 => 13,
        3 => 6,
        _ => g.us(1, 16),
    };
    let top = if g.chance(0.02) { g.us(1000, 2300) } else { g.us(0, 40) };
    let same = g.chance(0.3);
    // lines without numbers, the same in every file (as between the blocks of a profile log)
    let gaps: Vec<usize> = if !two && g.chance(0.2) { (0..g.us(1, 4)).map(|_| g.us(0, top)).collect() } else { vec![] };
    let numbered = g.chance(0.7);
    let mut files = vec![];
    for i in 0..nf {
        let rows = if same { top } else { g.us(0, top) };
        let zero = if rows > 0 { g.us(0, rows - 1) } else { 0 };
        let mut v = vec![];
        for r in 0..rows {
            if gaps.contains(&r) {
                v.push(vec![]);
                continue;
            }
            let mut x: Vec<f64> = (0..cols).map(|_| value(g)).collect();
            if two {
                let t = (r as f64 - zero as f64) * 0.25;
                x[0] = if r == zero { g.pick(&[0.0, 0.0, 1e-13, -3e-16, -0.0, 2e-9]) } else { t };
            }
            v.push(x);
        }
        let first = match g.below(5) {
            0 => String::new(),
            1 => "#Time Energy mx".to_string(),
            2 => (0..cols).map(|_| "1e9".to_string()).collect::<Vec<_>>().join(" "),
            3 => (0..cols).map(|_| "0".to_string()).collect::<Vec<_>>().join(" "),
            _ => (0..cols).map(|_| format!("{}", value(g))).collect::<Vec<_>>().join(" "),
        };
        let name = if numbered {
            format!("{}{}.dat", prefix, i + g.pick(&[0usize, 0, 100]) * (i + 1))
        } else {
            let k = g.below(1000);
            format!("{}{}{}-{}.dat", prefix, ["", "x", "extra.", "_"][(k % 4) as usize], k, i)
        };
        files.push(LogFile { name, first, rows: v, style: g.below(6) as u8, unfinished: g.chance(0.05) });
    }
    let mut seen: BTreeMap<String, ()> = BTreeMap::new();
    files.retain(|f| seen.insert(f.name.clone(), ()).is_none());
    let no = g.us(0, 5);
    let others = (0..no).map(|_| g.below(256) as u8).collect();
    AvgCase {
        prefix,
        files,
        others,
        stale: g.chance(0.3),
        t: g.pick(&[256.0, 0.0, 1.0, 10.0, -5.0]),
        dt: g.pick(&[0.02, 1.0, 0.1]),
        flag: g.below(3) as u8,
        again: g.chance(0.2),
        seed: g.raw() >> 1,
        two,
    }
}
fn gen_avg(g: &mut Gen) -> AvgCase {
    gen_files(g, false)
}
fn gen_two(g: &mut Gen) -> AvgCase {
    gen_files(g, true)
}
fn show(f: &LogFile) -> String {
    let mut s = String::new();
    s.push_str(&f.first);
    s.push('\n');
    for r in &f.rows {
        let v: Vec<String> = r
            .iter()
            .enumerate()
            .map(|(i, x)| match (f.style as usize + i) % 3 {
                0 => format!("{}", x),
                1 => format!("{:e}", x),
                _ => format!("{:?}", x),
            })
            .collect();
        match f.style {
            4 => s.push_str(&format!(" {} ", v.join("  "))),
            5 => s.push_str(&format!("{} ", v.join(" "))),
            _ => s.push_str(&v.join(" ")),
        }
        s.push('\n');
    }
    if f.unfinished && f.rows.last().map(|r| !r.is_empty()).unwrap_or(false) {
        s.pop();
    }
    s
}
/// per line: the mean of each column and what its rounding may amount to
fn expect(files: &[Vec<Vec<f64>>]) -> Vec<Vec<(f64, f64)>> {
    let n = files.iter().map(|f| f.len()).max().unwrap_or(0);
    let mut out = vec![];
    for i in 0..n {
        let have: Vec<&Vec<f64>> = files.iter().filter_map(|f| f.get(i)).collect();
        let c = have[0].len();
        let k = have.len() as f64;
        out.push(
            (0..c)
                .map(|q| {
                    // exact enough whatever the order
                    let mut v: Vec<f64> = have.iter().map(|r| r[q]).collect();
                    v.sort_by(|a, b| a.abs().partial_cmp(&b.abs()).unwrap_or(std::cmp::Ordering::Equal));
                    let s: f64 = v.iter().sum::<f64>() / k;
                    let a: f64 = v.iter().map(|x| x.abs()).sum::<f64>() / k;
                    (s, 1e-14 * (k + 4.0) * a)
                })
                .collect(),
        );
    }
    out
}
fn compare(name: &str, text: Option<String>, want: &[Vec<(f64, f64)>]) -> Result<(), Fail> {
    let text = match text {
        Some(t) => t,
        None => return Err(Fail::Violation(format!("no {}", name))),
    };
    let l = complete_lines(name, &text)?;
    ensure!(l.len() == want.len(), "{} has {} lines, the longest log has {} after its first", name, l.len(), want.len());
    for (i, (x, w)) in l.iter().zip(want).enumerate() {
        let v = numbers(&format!("{} line {}", name, i), x, w.len())?;
        for (q, (a, (b, tol))) in v.iter().zip(w).enumerate() {
            ensure!((a - b).abs() <= *tol, "{} line {} column {}: {} instead of {}", name, i, q, a, b);
        }
    }
    Ok(())
}
/// what the two-point mode averages, from the rows after the first line
fn correlate(rows: &[Vec<f64>]) -> Vec<Vec<f64>> {
    let z = match rows.iter().find(|r| r[0].abs() < 1e-6) {
        Some(z) => z.clone(),
        None => return vec![],
    };
    rows.iter().map(|r| r.iter().enumerate().map(|(q, x)| if q == 0 { *x } else { x * z[q] }).collect()).collect()
}
fn check_modes(d: &Dir, files: &[Vec<Vec<f64>>], flag: u8, two: bool, seed: u64, again: bool) -> Result<(), Fail> {
    let before = d.snapshot();
    let mut a = match (two, flag) {
        (false, 0) => args(&["-a"]),
        (false, _) => args(&["--avg"]),
        (true, 0) => args(&["--two-point", "-a"]),
        (true, _) => args(&["--two-point"]),
    };
    if flag == 2 {
        // these have nothing to say here
        a.extend(args(&["-t", "3.5", "-b", "1.25"]));
    }
    ok_run(d, &a, seed, 1000)?;
    if again {
        ok_run(d, &a, seed, 1000)?;
    }
    let mut outs = vec![];
    if !two || flag == 0 {
        compare("avg.dat", d.read("avg.dat"), &expect(files))?;
        outs.push("avg.dat");
    }
    if two {
        let c: Vec<Vec<Vec<f64>>> = files.iter().map(|f| correlate(f)).collect();
        compare("two-point.dat", d.read("two-point.dat"), &expect(&c))?;
        outs.push("two-point.dat");
    }
    let mut after = d.snapshot();
    let mut before = before;
    for o in outs {
        after.remove(o);
        before.remove(o);
    }
    if after != before {
        let n = after.iter().find(|(k, v)| before.get(*k) != Some(v)).map(|(k, _)| k.clone()).or_else(|| before.keys().find(|k| !after.contains_key(*k)).cloned());
        return Err(Fail::Violation(format!("{} changed the other file {:?}", a.join(" "), n.unwrap_or_default())));
    }
    Ok(())
}
fn chk_avg(k: &AvgCase) -> Outcome {
    let d = Dir::new("avg");
    let mut c = default_case();
    c.file = k.prefix.clone();
    c.t = k.t;
    c.dt = k.dt;
    d.write("config.toml", &conf_text(&c))?;
    let _ = std::fs::create_dir_all(d.path("out"));
    let _ = std::fs::create_dir_all(d.path("deeper"));
    for f in &k.files {
        d.write(&f.name, &show(f))?;
    }
    let base = k.prefix.rsplit('/').next().unwrap_or("").to_string();
    for o in &k.others {
        let name = match o % 7 {
            0 => format!("{}1.txt", k.prefix),
            1 => format!("z{}0.dat", base),
            2 => format!("{}0.dat.bak", k.prefix),
            3 => format!("deeper/{}0.dat", base),
            4 => "mc.data".to_string(),
            5 => format!("{}5.DAT", k.prefix),
            _ => format!("{}dat", k.prefix),
        };
        // not one of the logs, however odd the pattern
        let p = k.prefix.trim_start_matches("./");
        if !(name.trim_start_matches("./").starts_with(p) && name.ends_with(".dat")) {
            d.write(&name, "1 1 1\n1e6 1e6 1e6\n2e6 1 1\n")?;
        }
    }
    if k.stale {
        d.write("avg.dat", "old\nold\n")?;
        d.write("two-point.dat", "old\nold\n")?;
    }
    let files: Vec<Vec<Vec<f64>>> = k.files.iter().map(|f| f.rows.clone()).collect();
    check_modes(&d, &files, k.flag, k.two, k.seed, k.again)?;
    let lens: Vec<usize> = files.iter().map(|f| f.len()).collect();
    let uneven = lens.iter().any(|x| *x != lens[0]);
    Ok(Info::nt(lens.iter().filter(|x| **x > 0).count() >= 2)
        .label(match files.len() {
            0 => "no log",
            1 => "one log",
            _ => "several logs",
        })
        .label_if(uneven, "unequal lengths")
        .label_if(k.stale, "an old result in the way")
        .label_if(lens.iter().any(|x| *x >= 1000), "long"))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct PipeCase {
    c: Conf,
    mode: u8,
    twice: bool,
    gamma: Option<f64>,
    flag: u8,
    seed: u64,
    two: bool,
}
fn gen_pipe(g: &mut Gen, two: bool) -> PipeCase {
    let mut c = gen_sim_conf(g, &SimOpts { nmax: 8, steps: 40.0, jvar: true });
    c.file = prefix(g);
    while c.file.contains('/') {
        c.file = prefix(g);
    }
    c.ssize = (c.ssize - c.ssize % 2).max(2);
    c.runs = g.us(1, 4) as i32;
    let mode = if two { g.pick(&[PLAIN, RESPONSE]) } else { g.pick(&[PLAIN, RESPONSE, EXT, LANGEVIN]) };
    if two {
        // time zero has to be among the logged times, after the first line
        let m = g.range(1, 5) as f64;
        c.strob = false;
        c.trel = m * c.dt;
        c.t = g.range(1, 30) as f64 * c.dt;
    }
    if c.strob && mode == RESPONSE {
        c.t = (c.t / c.dt).round() * c.dt;
    }
    PipeCase { c, mode, twice: g.chance(0.4), gamma: gamma_of(g), flag: g.below(3) as u8, seed: g.raw() >> 1, two }
}
fn gen_pipe_avg(g: &mut Gen) -> PipeCase {
    gen_pipe(g, false)
}
fn gen_pipe_two(g: &mut Gen) -> PipeCase {
    gen_pipe(g, true)
}
/// the program's own logs, averaged
fn chk_pipe(k: &PipeCase) -> Outcome {
    let d = Dir::new("pip");
    d.write("config.toml", &conf_text(&k.c))?;
    let a = mode_args(k.mode, &k.gamma, k.seed % 2 == 0);
    let mut n = k.c.runs as usize;
    ok_run(&d, &a, k.seed, 2000)?;
    if k.twice {
        ok_run(&d, &a, k.seed ^ 5, 2000)?;
        n *= 2;
    }
    let mut files = vec![];
    for i in 0..n {
        let f = format!("{}{}.dat", k.c.file, k.c.offset as usize + i);
        let s = match d.read(&f) {
            Some(s) => s,
            None => return Err(Fail::Violation(format!("no {}", f))),
        };
        let rows: Vec<Vec<f64>> = s.lines().skip(1).map(|l| l.split_whitespace().filter_map(|x| x.parse::<f64>().ok()).collect()).collect();
        files.push(rows);
    }
    check_modes(&d, &files, if k.flag == 0 && k.two && k.mode == EXT { 1 } else { k.flag }, k.two, k.seed, false)?;
    Ok(Info::nt(n > 1 && files[0].len() > 1).label(mode_name(k.mode)).label_if(k.twice, "two invocations"))
}
pub fn b03() -> Property {
    Property {
        id: "B03",
        families: vec![
            Family::new("generated", 8000, 60000, gen_avg, chk_avg, "at least two logs have a line to average").shrink(400).shard_size(40).boxed(),
            Family::new("pipeline", 40, 800, gen_pipe_avg, chk_pipe, "at least two logs of at least two averaged lines, written by the program").shrink(60).shard_size(3).boxed(),
        ],
        assumptions: vec!["Patterns without glob characters that avg.dat itself does not match; numbers separated by spaces; as many columns in line i of every log."],
    }
}
pub fn b04() -> Property {
    Property {
        id: "B04",
        families: vec![
            Family::new("generated", 8000, 60000, gen_two, chk_avg, "at least two logs have a line to average").shrink(400).shard_size(40).boxed(),
            Family::new("pipeline", 40, 800, gen_pipe_two, chk_pipe, "at least two logs of at least two averaged lines, written by the program").shrink(60).shard_size(3).boxed(),
        ],
        assumptions: vec![
            "Patterns without glob characters that the results themselves do not match; numbers separated by spaces; as many columns in line i of every log.",
            "Exactly one line of each log, after the first, is at time zero (to 1e-8; the other times are not below 1e-3).",
        ],
    }
}
