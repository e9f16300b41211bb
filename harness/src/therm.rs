//! Exact canonical averages of small rings by transfer matrices over a quadrature of the sphere.
//! H = -sum_i S_i J S_{i+1} + sum_i h_i . S_i, weight exp(-beta H).
use crate::gen::V3;
use crate::util::*;

pub struct Sphere {
    pub dirs: Vec<V3>,
    pub w: Vec<f64>,
}
/// Gauss-Legendre nodes and weights on [-1, 1]
pub fn gauss(n: usize) -> (Vec<f64>, Vec<f64>) {
    let mut x = vec![0.0; n];
    let mut w = vec![0.0; n];
    for i in 0..n {
        let mut z = (PI * (i as f64 + 0.75) / (n as f64 + 0.5)).cos();
        let mut dp = 1.0;
        for _ in 0..100 {
            let (mut p0, mut p1) = (1.0, z);
            for k in 2..=n {
                let p2 = ((2 * k - 1) as f64 * z * p1 - (k - 1) as f64 * p0) / k as f64;
                p0 = p1;
                p1 = p2;
            }
            dp = n as f64 * (z * p1 - p0) / (z * z - 1.0);
            let dz = p1 / dp;
            z -= dz;
            if dz.abs() < 1e-15 {
                break;
            }
        }
        x[i] = z;
        w[i] = 2.0 / ((1.0 - z * z) * dp * dp);
    }
    (x, w)
}
/// `axis` is where a strong field points; the quadrature has its poles there
pub fn sphere(nz: usize, np: usize) -> Sphere {
    let (x, wx) = gauss(nz);
    let mut dirs = vec![];
    let mut w = vec![];
    for i in 0..nz {
        let r = (1.0 - x[i] * x[i]).max(0.0).sqrt();
        for k in 0..np {
            let a = 2.0 * PI * (k as f64 + 0.5 * (i % 2) as f64) / np as f64;
            dirs.push([r * a.cos(), r * a.sin(), x[i]]);
            w.push(wx[i] / 2.0 / np as f64);
        }
    }
    Sphere { dirs, w }
}
pub type Mat = Vec<f64>;
fn matmul(a: &Mat, b: &Mat, n: usize) -> Mat {
    let mut c = vec![0.0; n * n];
    for i in 0..n {
        let row = &mut c[i * n..(i + 1) * n];
        for k in 0..n {
            let x = a[i * n + k];
            if x != 0.0 {
                let bk = &b[k * n..(k + 1) * n];
                for j in 0..n {
                    row[j] += x * bk[j];
                }
            }
        }
    }
    c
}
fn normalise(a: &mut Mat) {
    let m = a.iter().fold(0.0f64, |x, y| x.max(y.abs()));
    if m > 0.0 {
        for x in a.iter_mut() {
            *x /= m;
        }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Avg {
    /// per site
    pub bond: f64,
    pub m: V3,
}
/// Homogeneous ring of n sites: mean of S J S per bond and of the spin per site.
pub fn ring(n: usize, j: &V3, h: &V3, beta: f64, sp: &Sphere) -> Avg {
    let q = sp.dirs.len();
    // symmetric transfer matrix
    let bond = |a: &V3, b: &V3| a[0] * j[0] * b[0] + a[1] * j[1] * b[1] + a[2] * j[2] * b[2];
    let f: Vec<f64> = sp.dirs.iter().map(|d| -beta * dot(d, h)).collect();
    let mut ex = vec![0.0; q * q];
    let mut mx = f64::NEG_INFINITY;
    for a in 0..q {
        for b in 0..q {
            let x = beta * bond(&sp.dirs[a], &sp.dirs[b]) + 0.5 * (f[a] + f[b]);
            ex[a * q + b] = x;
            mx = mx.max(x);
        }
    }
    let mut k = vec![0.0; q * q];
    for a in 0..q {
        for b in 0..q {
            k[a * q + b] = (ex[a * q + b] - mx).exp() * (sp.w[a] * sp.w[b]).sqrt();
        }
    }
    normalise(&mut k);
    // k^(n-1)
    let mut p: Option<Mat> = None;
    let mut base = k.clone();
    let mut e = n - 1;
    while e > 0 {
        if e & 1 == 1 {
            p = Some(match p {
                None => base.clone(),
                Some(x) => {
                    let mut y = matmul(&x, &base, q);
                    normalise(&mut y);
                    y
                }
            });
        }
        e >>= 1;
        if e > 0 {
            base = matmul(&base, &base, q);
            normalise(&mut base);
        }
    }
    let p = match p {
        Some(p) => p,
        None => {
            let mut i = vec![0.0; q * q];
            for a in 0..q {
                i[a * q + a] = 1.0;
            }
            i
        }
    };
    let (mut z, mut s, mut m) = (0.0, 0.0, [0.0; 3]);
    for a in 0..q {
        for b in 0..q {
            let w = k[a * q + b] * p[b * q + a];
            z += w;
            s += w * bond(&sp.dirs[a], &sp.dirs[b]);
            m[0] += w * sp.dirs[a][0];
            m[1] += w * sp.dirs[a][1];
            m[2] += w * sp.dirs[a][2];
        }
    }
    Avg { bond: s / z, m: scale(&m, 1.0 / z) }
}
/// ln Z of a ring with a field per site.
pub fn ln_z(j: &V3, h: &[V3], beta: f64, sp: &Sphere) -> f64 {
    let q = sp.dirs.len();
    let bond = |a: &V3, b: &V3| a[0] * j[0] * b[0] + a[1] * j[1] * b[1] + a[2] * j[2] * b[2];
    let jm = j.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    let mut ln = 0.0;
    let mut p: Option<Mat> = None;
    // product with the running matrix, kept of order one
    let times = |x: Option<Mat>, k: &Mat, ln: &mut f64| -> Option<Mat> {
        Some(match x {
            None => k.clone(),
            Some(x) => {
                let mut y = matmul(&x, k, q);
                let m = y.iter().fold(0.0f64, |a, b| a.max(b.abs()));
                for v in y.iter_mut() {
                    *v /= m;
                }
                *ln += m.ln();
                y
            }
        })
    };
    let mut i = 0;
    while i < h.len() {
        let hi = &h[i];
        let mut cnt = 1;
        while i + cnt < h.len() && h[i + cnt] == *hi {
            cnt += 1;
        }
        i += cnt;
        let hm = len(hi);
        let mut k = vec![0.0; q * q];
        for a in 0..q {
            for b in 0..q {
                k[a * q + b] = (beta * (bond(&sp.dirs[a], &sp.dirs[b]) - jm) - beta * (dot(&sp.dirs[a], hi) + hm)).exp() * sp.w[a];
            }
        }
        ln += cnt as f64 * beta * (jm + hm);
        // a run of equal sites by repeated squaring
        let mut lnk = 0.0;
        let mut c = cnt;
        loop {
            if c & 1 == 1 {
                p = times(p, &k, &mut ln);
                ln += lnk;
            }
            c >>= 1;
            if c == 0 {
                break;
            }
            let mut l2 = 2.0 * lnk;
            k = times(Some(k.clone()), &k, &mut l2).unwrap();
            lnk = l2;
        }
    }
    let p = p.unwrap();
    ln + (0..q).map(|a| p[a * q + a]).sum::<f64>().ln()
}
/// Total energy per site of a ring with a field per site.
pub fn energy(j: &V3, h: &[V3], beta: f64, sp: &Sphere) -> f64 {
    let d = 1e-3 * beta.max(0.02);
    let a = ln_z(j, h, beta + d, sp);
    let b = ln_z(j, h, beta - d, sp);
    -(a - b) / (2.0 * d) / h.len() as f64
}
/// exact thermal averages of a two-spin ring: mean and variance of H/2, mean magnetisation per spin
pub struct Two {
    pub e: f64,
    pub var_e: f64,
    pub m: V3,
    pub var_m: V3,
}
pub fn two(j: &V3, h: &V3, beta: f64, sp: &Sphere) -> Two {
    let q = sp.dirs.len();
    let en = |a: usize, b: usize| {
        let (x, y) = (&sp.dirs[a], &sp.dirs[b]);
        -2.0 * (x[0] * j[0] * y[0] + x[1] * j[1] * y[1] + x[2] * j[2] * y[2]) + dot(x, h) + dot(y, h)
    };
    let mut lo = f64::INFINITY;
    for a in 0..q {
        for b in 0..q {
            lo = lo.min(en(a, b));
        }
    }
    let (mut z, mut s, mut s2, mut m, mut m2) = (0.0, 0.0, 0.0, [0.0; 3], [0.0; 3]);
    for a in 0..q {
        for b in 0..q {
            let e = en(a, b);
            let w = (-beta * (e - lo)).exp() * sp.w[a] * sp.w[b];
            z += w;
            s += w * e / 2.0;
            s2 += w * e * e / 4.0;
            for k in 0..3 {
                let x = 0.5 * (sp.dirs[a][k] + sp.dirs[b][k]);
                m[k] += w * x;
                m2[k] += w * x * x;
            }
        }
    }
    let e = s / z;
    let m = scale(&m, 1.0 / z);
    Two { e, var_e: s2 / z - e * e, m, var_m: [m2[0] / z - m[0] * m[0], m2[1] / z - m[1] * m[1], m2[2] / z - m[2] * m[2]] }
}
pub fn solve_beta(e: f64) -> f64 {
    let (mut lo, mut hi) = (0.0f64, 2.0f64);
    while -langevin(hi) > e {
        hi *= 2.0;
    }
    for _ in 0..200 {
        let b = 0.5 * (lo + hi);
        if -langevin(b) > e {
            lo = b;
        } else {
            hi = b;
        }
    }
    0.5 * (lo + hi)
}
