//! Running the command line program in scratch directories, and reading what it leaves there.
use crate::chain::*;
use crate::engine::*;
use crate::gen::*;
use crate::p_init::*;
use std::collections::BTreeMap;
use std::fs;
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

pub struct Ran {
    pub code: i32,
    pub out: String,
    pub err: String,
}
impl Ran {
    pub fn tail(&self) -> String {
        let l: Vec<&str> = self.err.lines().rev().take(4).collect();
        l.into_iter().rev().collect::<Vec<_>>().join(" / ")
    }
}

pub fn scbin() -> std::path::PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("scbin")
}

/// set once a run did not come back: later (shrinking) runs are not tried
static HUNG: AtomicBool = AtomicBool::new(false);
const IDLE_S: f64 = 30.0;
const WALL_S: f64 = 240.0;

fn cpu_ticks(pid: u32) -> u64 {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let r = s.rsplit(')').next().unwrap_or("").to_string();
    let f: Vec<&str> = r.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}

pub enum Until<'a> {
    Exit,
    /// end the program as soon as this holds
    Holds(&'a dyn Fn() -> bool),
}

pub fn run(dir: &str, args: &[String], seed: u64, thin: u32) -> Result<Ran, Fail> {
    run_until(dir, args, seed, thin, Until::Exit)
}

pub fn run_until(dir: &str, args: &[String], seed: u64, thin: u32, until: Until) -> Result<Ran, Fail> {
    if HUNG.load(Ordering::Relaxed) {
        return Err(Fail::Harness("an earlier run of the program did not end".into()));
    }
    let of = format!("{}.out", dir.trim_end_matches('/'));
    let ef = format!("{}.err", dir.trim_end_matches('/'));
    let o = fs::File::create(&of).map_err(|e| Fail::Harness(format!("{}: {}", of, e)))?;
    let e = fs::File::create(&ef).map_err(|e| Fail::Harness(format!("{}: {}", ef, e)))?;
    let mut ch = Command::new(scbin())
        .args(args)
        .current_dir(dir)
        .env("SC_VERIF_SEED", seed.to_string())
        .env("SC_VERIF_THIN", thin.max(1).to_string())
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(o)
        .stderr(e)
        .spawn()
        .map_err(|e| Fail::Harness(format!("cannot run the program: {}", e)))?;
    let t0 = Instant::now();
    let mut last = (Instant::now(), 0u64);
    let mut code = None;
    let mut naps = 0u32;
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                code = Some(st.code().unwrap_or(-1));
                break;
            }
            Ok(None) => {}
            Err(e) => return Err(Fail::Harness(format!("wait: {}", e))),
        }
        if let Until::Holds(f) = &until {
            if f() {
                break;
            }
        }
        let c = cpu_ticks(ch.id());
        if c > last.1 {
            last = (Instant::now(), c);
        }
        if last.0.elapsed().as_secs_f64() > IDLE_S || t0.elapsed().as_secs_f64() > WALL_S {
            let _ = ch.kill();
            let _ = ch.wait();
            let idle = last.0.elapsed().as_secs_f64() > IDLE_S;
            HUNG.store(true, Ordering::Relaxed);
            return Err(Fail::Violation(format!(
                "the program did not end ({})",
                if idle { "blocked, using no processor time" } else { "still running after 240 s" }
            )));
        }
        naps += 1;
        std::thread::sleep(Duration::from_millis(if naps < 20 { 1 } else { 4 }));
    }
    if code.is_none() {
        let _ = ch.kill();
        let _ = ch.wait();
    }
    let rd = |p: &str| {
        let mut v = vec![];
        let _ = fs::File::open(p).and_then(|mut f| f.read_to_end(&mut v));
        let _ = fs::remove_file(p);
        String::from_utf8_lossy(&v).to_string()
    };
    Ok(Ran { code: code.unwrap_or(0), out: rd(&of), err: rd(&ef) })
}

pub fn args(v: &[&str]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}

/// A directory that goes away with the value.
pub struct Dir(pub String);
impl Dir {
    pub fn new(tag: &str) -> Dir {
        Dir(fresh_dir(tag))
    }
    pub fn path(&self, f: &str) -> String {
        format!("{}/{}", self.0, f)
    }
    pub fn write(&self, f: &str, s: &str) -> Result<(), Fail> {
        fs::write(self.path(f), s).map_err(|e| Fail::Harness(format!("{}: {}", f, e)))
    }
    pub fn read(&self, f: &str) -> Option<String> {
        fs::read(self.path(f)).ok().map(|v| String::from_utf8_lossy(&v).to_string())
    }
    /// every file below, by relative path
    pub fn snapshot(&self) -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        let mut todo = vec![String::new()];
        while let Some(d) = todo.pop() {
            if let Ok(r) = fs::read_dir(self.path(&d)) {
                for x in r.filter_map(|x| x.ok()) {
                    let n = x.file_name().to_string_lossy().to_string();
                    let rel = if d.is_empty() { n } else { format!("{}/{}", d, n) };
                    if x.path().is_dir() {
                        todo.push(rel);
                    } else {
                        m.insert(rel, fs::read(x.path()).unwrap_or_default());
                    }
                }
            }
        }
        m
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        if self.0.starts_with(scratch()) {
            let _ = fs::remove_dir_all(&self.0);
        }
    }
}

/// Complete lines of a text; an unfinished last line is a violation.
pub fn complete_lines(name: &str, s: &str) -> Result<Vec<String>, Fail> {
    if !s.is_empty() && !s.ends_with('\n') {
        return Err(Fail::Violation(format!("{}: the last line is not finished", name)));
    }
    Ok(s.lines().map(|x| x.to_string()).collect())
}
pub fn numbers(name: &str, line: &str, cols: usize) -> Result<Vec<f64>, Fail> {
    let v: Vec<f64> = line.split_whitespace().map(|x| x.parse::<f64>().unwrap_or(f64::NAN)).collect();
    if v.len() != cols || v.iter().any(|x| !x.is_finite()) {
        return Err(Fail::Violation(format!("{}: the line {:?} does not consist of {} finite numbers", name, line, cols)));
    }
    Ok(v)
}
pub fn table(name: &str, s: &str, cols: usize) -> Result<Vec<Vec<f64>>, Fail> {
    complete_lines(name, s)?.iter().map(|l| numbers(name, l, cols)).collect()
}

pub fn conf_text(c: &Conf) -> String {
    let mut s = String::new();
    for k in KEYS.iter() {
        s.push_str(&format!("{} = {}\n", k, value_of(c, k, 0)));
    }
    s
}
/// The stored configuration, read without the code under test.
pub fn stored(s: &str) -> Result<BTreeMap<String, toml::Value>, Fail> {
    let v: toml::Value = s
        .parse::<toml::Value>()
        .map_err(|e| Fail::Violation(format!("config.toml is not TOML: {}", e)))?;
    match v {
        toml::Value::Table(t) => Ok(t.into_iter().collect()),
        _ => Err(Fail::Violation("config.toml is not a table".into())),
    }
}
fn float(v: Option<&toml::Value>) -> f64 {
    match v {
        Some(toml::Value::Float(x)) => *x,
        Some(toml::Value::Integer(x)) => *x as f64,
        _ => f64::NAN,
    }
}
/// The stored configuration equals `c` (reals to 1e-12, beta to 1e-5 for the solved value).
pub fn same_config(s: &str, c: &Conf, beta_tol: f64) -> Result<(), Fail> {
    let m = stored(s)?;
    for k in KEYS.iter() {
        let want: toml::Value = format!("x = {}", value_of(c, k, 0))
            .parse::<toml::Value>()
            .ok()
            .and_then(|v| v.get("x").cloned())
            .ok_or_else(|| Fail::Harness(format!("cannot write {}", k)))?;
        let got = m.get(*k);
        let ok = match (&want, got) {
            (toml::Value::Float(a), Some(_)) => {
                let b = float(got);
                let tol = if *k == "beta" { beta_tol } else { 1e-12 };
                (a - b).abs() <= tol * (1e-300 + a.abs())
            }
            (toml::Value::Array(a), Some(toml::Value::Array(b))) => {
                a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (float(Some(x)) - float(Some(y))).abs() <= 1e-12 * (1e-300 + float(Some(x)).abs()))
            }
            (a, Some(b)) => a == b,
            _ => false,
        };
        if !ok {
            return Err(Fail::Violation(format!("config.toml has {} = {:?} after the run, the run used {}", k, got.map(|x| x.to_string()), value_of(c, k, 0))));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- simulation runs

pub const PLAIN: u8 = 0;
pub const EXT: u8 = 1;
pub const RESPONSE: u8 = 2;
pub const LANGEVIN: u8 = 3;
pub fn mode_name(m: u8) -> &'static str {
    ["plain", "profile", "response", "langevin"][m as usize]
}

/// the time grid a run has to log
pub struct Grid {
    pub t0: f64,
    /// number of steps: least and most (they differ where the end is a whole number of steps away)
    pub lo: i64,
    pub hi: i64,
}
pub fn grid(c: &Conf, mode: u8) -> Grid {
    let t0 = if mode == RESPONSE { -c.t } else { -c.trel };
    let x = (c.t - t0) / c.dt;
    if x <= 0.0 {
        return Grid { t0, lo: 0, hi: 0 };
    }
    Grid { t0, lo: ((x - 1e-6).ceil() as i64).max(0), hi: (x + 1e-6).ceil() as i64 }
}
/// the times expected in the log after the first line, the last of them optional if `.1`
pub fn expected_times(c: &Conf, mode: u8) -> (Vec<f64>, bool) {
    let g = grid(c, mode);
    let mut v = vec![];
    let mut opt = false;
    let i0 = (g.t0 / c.dt).round() as i64;
    let m = ((c.tau / c.dt).round() as i64).max(1);
    for k in 1..=g.hi {
        if !c.strob || (i0 + k).rem_euclid(m) == 0 {
            v.push(g.t0 + k as f64 * c.dt);
            if k > g.lo {
                opt = true;
            }
        }
    }
    (v, opt)
}
pub fn close_time(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + b.abs())
}

/// A run's log: the first line and then one block per logged time.
pub struct RunLog {
    pub first: Vec<f64>,
    pub times: Vec<f64>,
    /// plain modes: one row per time; profile mode: the rows of the block
    pub rows: Vec<Vec<Vec<f64>>>,
}
pub fn parse_log(name: &str, s: &str, c: &Conf, mode: u8) -> Result<RunLog, Fail> {
    let l = complete_lines(name, s)?;
    let cols = if mode == LANGEVIN { 8 } else { 13 };
    let skip = if mode == LANGEVIN {
        if l.is_empty() || l[0].parse::<f64>().is_ok() || !l[0].starts_with('#') {
            return Err(Fail::Violation(format!("{}: no header line", name)));
        }
        1
    } else {
        0
    };
    if l.len() <= skip {
        return Err(Fail::Violation(format!("{}: the initial state is missing", name)));
    }
    let first = numbers(name, &l[skip], cols)?;
    let (want, opt) = expected_times(c, mode);
    let mut rows: Vec<Vec<Vec<f64>>> = vec![];
    let mut times = vec![];
    if mode == EXT {
        let mut blk: Vec<Vec<f64>> = vec![];
        for x in &l[skip + 1..] {
            if x.trim().is_empty() {
                rows.push(std::mem::take(&mut blk));
            } else {
                blk.push(numbers(name, x, 6)?);
            }
        }
        if !blk.is_empty() {
            return Err(Fail::Violation(format!("{}: the last block has no end", name)));
        }
        let top = (c.ssize as i64).min(c.hsize as i64 - 1).max(1);
        for (i, b) in rows.iter().enumerate() {
            let idx: Vec<i64> = b.iter().map(|r| r[1] as i64).collect();
            if idx != (1..top).collect::<Vec<_>>() {
                return Err(Fail::Violation(format!("{}: block {} lists the sites {:?}, expected 1 to {}", name, i, idx, top - 1)));
            }
            if let Some(r) = b.iter().find(|r| r[0] != b[0][0]) {
                return Err(Fail::Violation(format!("{}: block {} has the times {} and {}", name, i, b[0][0], r[0])));
            }
            times.push(if b.is_empty() { want.get(i).cloned().unwrap_or(0.0) } else { b[0][0] });
        }
    } else {
        for x in &l[skip + 1..] {
            let r = numbers(name, x, cols)?;
            times.push(r[0]);
            rows.push(vec![r]);
        }
    }
    let g = grid(c, mode);
    if !close_time(first[0], g.t0) {
        return Err(Fail::Violation(format!("{}: the first line has time {}, expected {}", name, first[0], g.t0)));
    }
    for (i, t) in times.iter().enumerate() {
        match want.get(i) {
            Some(w) if close_time(*t, *w) => {}
            w => return Err(Fail::Violation(format!("{}: time {} logged at place {} after the first line, expected {:?}", name, t, i + 1, w))),
        }
    }
    if times.len() + (opt as usize) < want.len() {
        return Err(Fail::Violation(format!("{}: {} times logged after the first line, expected {} (next would be {})", name, times.len(), want.len(), want[times.len()])));
    }
    Ok(RunLog { first, times, rows })
}

/// A configuration for short runs of the program.
pub struct SimOpts {
    pub nmax: usize,
    pub steps: f64,
    pub jvar: bool,
}
pub fn gen_sim_conf(g: &mut Gen, o: &SimOpts) -> Conf {
    let n = g.size(2, o.nmax, true);
    let s = g.sub(2, n);
    let dt = match g.below(4) {
        0 => g.pick(&[0.02, 0.05, 0.1, 0.25, 0.5, 0.125]),
        1 => 1.0 / g.range(2, 60) as f64,
        _ => g.log(0.004, 0.5),
    };
    let strob = g.chance(0.4);
    let m = g.range(1, 12);
    let tau = if strob || g.chance(0.5) { m as f64 * dt } else { g.pos_num(0.05, 60.0) };
    // steps before time zero and after
    let a = match g.below(4) {
        0 | 1 => 0,
        2 => m * g.range(0, 4),
        _ => g.range(-20, (o.steps / 2.0) as i64),
    };
    let b = match g.below(5) {
        0 => m * g.range(0, 6),
        1 => 0,
        _ => g.range(0, o.steps as i64),
    };
    let frac = if !strob && g.chance(0.5) { g.unit() } else { 0.0 };
    let trel = (a as f64 + if !strob && g.chance(0.2) { g.unit() } else { 0.0 }) * dt;
    let t = (b as f64 + frac) * dt;
    Conf {
        hsize: n as i32,
        ssize: s as i32,
        t,
        dt,
        runs: g.pick(&[1, 2, 1, 2, 3, 5, 0]),
        trel,
        threads: g.us(1, 5),
        tau,
        lambda: g.pick(&[1.0, 1.0, 0.5, 0.0, 1.3, -0.7]),
        hfield: g.vec3(0.6),
        hs: g.vec3(0.6),
        jvar: if o.jvar && g.chance(0.5) { g.log(1e-4, 0.3) } else { 0.0 },
        hvar: if o.jvar && g.chance(0.3) { g.log(1e-4, 0.3) } else { 0.0 },
        method: g.pick(&[2, 2, 1, 4]),
        ednsty: -g.uni(0.02, 0.95),
        file: match g.below(3) {
            0 => "log".to_string(),
            1 => g.pick(&["run_", "a.b", "x y", "données", "log1", "L-", "config", "log.dat"]).to_string(),
            _ => {
                let k = g.us(1, 8);
                (0..k).map(|_| char::from_u32(g.range(97, 122) as u32).unwrap_or('c')).collect()
            }
        },
        strob,
        offset: g.pick(&[0, 0, 1, 7, 10, 99, 1000000]),
        beta: g.pos_num(0.01, 50.0),
        mc_points: g.us(1, 2000),
        e: g.num(1.0),
        drive: g.below(5) as u8,
        log: true,
    }
}
pub fn gamma_of(g: &mut Gen) -> Option<f64> {
    match g.below(3) {
        0 => None,
        1 => Some(0.0),
        _ => Some(g.pos_num(0.01, 1.5)),
    }
}
pub fn mode_args(mode: u8, gamma: &Option<f64>, long: bool) -> Vec<String> {
    match mode {
        EXT => args(&[if long { "--ext" } else { "-e" }]),
        RESPONSE => args(&["--response"]),
        LANGEVIN => {
            let mut v = args(&[if long { "--langevin" } else { "-l" }]);
            if let Some(x) = gamma {
                v.push(format!("{}", x));
            }
            v
        }
        _ => vec![],
    }
}
