//! Small vector algebra, statistics and macros.
use crate::gen::V3;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !($c) {
            return Err($crate::engine::Fail::Violation(format!($($a)*)));
        }
    };
}
#[macro_export]
macro_rules! harness {
    ($c:expr, $($a:tt)*) => {
        if !($c) {
            return Err($crate::engine::Fail::Harness(format!($($a)*)));
        }
    };
}

pub const EPS: f64 = f64::EPSILON;
pub const PI: f64 = std::f64::consts::PI;

pub fn dot(a: &V3, b: &V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: &V3, b: &V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn add(a: &V3, b: &V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: &V3, b: &V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn scale(a: &V3, k: f64) -> V3 {
    [a[0] * k, a[1] * k, a[2] * k]
}
pub fn mul(a: &V3, b: &V3) -> V3 {
    [a[0] * b[0], a[1] * b[1], a[2] * b[2]]
}
pub fn len(a: &V3) -> f64 {
    let m = a.iter().fold(0.0f64, |x, y| x.max(y.abs()));
    if m == 0.0 || !m.is_finite() {
        return m;
    }
    let b = [a[0] / m, a[1] / m, a[2] / m];
    m * dot(&b, &b).sqrt()
}
pub fn dist(a: &V3, b: &V3) -> f64 {
    let d = sub(a, b);
    let l = len(&d);
    if d.iter().any(|x| x.is_nan()) {
        f64::INFINITY
    } else {
        l
    }
}
pub fn finite(a: &V3) -> bool {
    a.iter().all(|x| x.is_finite())
}
/// rotation of s about the unit vector f, in the sense dS/dt = S x f, by angle a
pub fn rodrigues(s: &V3, f: &V3, a: f64) -> V3 {
    let (sa, ca) = a.sin_cos();
    let p = dot(s, f);
    let x = cross(f, s);
    [
        s[0] * ca + f[0] * p * (1.0 - ca) - x[0] * sa,
        s[1] * ca + f[1] * p * (1.0 - ca) - x[1] * sa,
        s[2] * ca + f[2] * p * (1.0 - ca) - x[2] * sa,
    ]
}
pub fn precess(s: &V3, om: &V3, t: f64) -> V3 {
    let w = len(om);
    if w == 0.0 {
        return *s;
    }
    rodrigues(s, &scale(om, 1.0 / w), w * t)
}

// ---------------------------------------------------------------- statistics

/// upper tail of the standard normal (two-sided p of |z|)
pub fn p_norm2(z: f64) -> f64 {
    erfc(z.abs() / 2f64.sqrt())
}
pub fn erfc(x: f64) -> f64 {
    // Numerical Recipes erfc, relative error < 1.2e-7
    let z = x.abs();
    let t = 1.0 / (1.0 + 0.5 * z);
    let r = t
        * (-z * z - 1.26551223
            + t * (1.00002368
                + t * (0.37409196
                    + t * (0.09678418
                        + t * (-0.18628806
                            + t * (0.27886807
                                + t * (-1.13520398
                                    + t * (1.48851587
                                        + t * (-0.82215223 + t * 0.17087277)))))))))
            .exp();
    if x >= 0.0 {
        r
    } else {
        2.0 - r
    }
}
pub fn cdf_norm(x: f64) -> f64 {
    0.5 * erfc(-x / 2f64.sqrt())
}
pub fn ln_gamma(x: f64) -> f64 {
    let c = [
        76.18009172947146,
        -86.50532032941677,
        24.01409824083091,
        -1.231739572450155,
        0.1208650973866179e-2,
        -0.5395239384953e-5,
    ];
    let mut y = x;
    let t = x + 5.5 - (x + 0.5) * (x + 5.5).ln();
    let mut s = 1.000000000190015;
    for v in c.iter() {
        y += 1.0;
        s += v / y;
    }
    -t + (2.5066282746310005 * s / x).ln()
}
/// upper tail of chi-squared with k degrees of freedom
pub fn p_chi2(x: f64, k: f64) -> f64 {
    if x <= 0.0 {
        return 1.0;
    }
    let (a, x) = (k / 2.0, x / 2.0);
    let lg = ln_gamma(a);
    if x < a + 1.0 {
        let mut s = 1.0 / a;
        let mut d = s;
        let mut n = a;
        for _ in 0..10000 {
            n += 1.0;
            d *= x / n;
            s += d;
            if d.abs() < s.abs() * 1e-15 {
                break;
            }
        }
        1.0 - s * (-x + a * x.ln() - lg).exp()
    } else {
        let mut b = x + 1.0 - a;
        let mut c = 1e300;
        let mut d = 1.0 / b;
        let mut h = d;
        for i in 1..10000 {
            let an = -(i as f64) * (i as f64 - a);
            b += 2.0;
            d = an * d + b;
            if d.abs() < 1e-300 {
                d = 1e-300
            }
            c = b + an / c;
            if c.abs() < 1e-300 {
                c = 1e-300
            }
            d = 1.0 / d;
            let e = d * c;
            h *= e;
            if (e - 1.0).abs() < 1e-15 {
                break;
            }
        }
        (-x + a * x.ln() - lg).exp() * h
    }
}
pub fn chi2_uniform(counts: &[u64]) -> f64 {
    let n: u64 = counts.iter().sum();
    let e = n as f64 / counts.len() as f64;
    let x: f64 = counts.iter().map(|c| (*c as f64 - e).powi(2) / e).sum();
    p_chi2(x, (counts.len() - 1) as f64)
}
/// Kolmogorov-Smirnov p-value against the uniform distribution on [0,1]
pub fn p_ks_uniform(v: &mut Vec<f64>) -> f64 {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
    let n = v.len() as f64;
    let mut d = 0.0f64;
    for (i, x) in v.iter().enumerate() {
        d = d.max((i as f64 + 1.0) / n - x).max(x - i as f64 / n);
    }
    let l = (n.sqrt() + 0.12 + 0.11 / n.sqrt()) * d;
    let mut s = 0.0;
    let mut sg = 1.0;
    for k in 1..200 {
        let t = (-2.0 * (k as f64 * l).powi(2)).exp();
        s += sg * t;
        sg = -sg;
        if t < 1e-18 {
            break;
        }
    }
    if l < 0.2 {
        1.0
    } else {
        (2.0 * s).max(0.0).min(1.0)
    }
}
/// Wilson-free binomial two-sided z
pub fn z_binom(k: u64, n: u64, p: f64) -> f64 {
    let n = n as f64;
    (k as f64 - n * p) / (n * p * (1.0 - p)).max(1e-300).sqrt()
}
/// coth x - 1/x
pub fn langevin(x: f64) -> f64 {
    if x.abs() < 0.01 {
        let x2 = x * x;
        x / 3.0 - x * x2 / 45.0 + 2.0 * x * x2 * x2 / 945.0
    } else {
        1.0 / x.tanh() - 1.0 / x
    }
}
