From 94671d8f2c2c7b6b62e1333e53aeb9aca967b787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 01/22] hook: let a verification build reach the Langevin
 couplings (cfg sc_verif)

---
 src/spinchain_langevin.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 365acf0..08bad00 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -862,6 +862,17 @@ impl SpinChainLangevin {
     }
 }
 
+/// Access for an external verification harness, compiled only with `--cfg sc_verif`
+#[allow(unexpected_cfgs)]
+mod verif_hook {
+    #[cfg(sc_verif)]
+    impl super::SpinChainLangevin {
+        pub fn verif_couplings(&mut self) -> &mut Vec<[f64; 3]> {
+            &mut self.j_couple
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     macro_rules! assert_almost_eq {
-- 
2.43.0


From 9cd10cbc6d383842693cf25b9ed9e02d943f17ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 02/22] fix: a zero field leaves a spin unchanged instead of
 making it NaN

---
 src/spin.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spin.rs b/src/spin.rs
index 571cad2..ead64eb 100644
--- a/src/spin.rs
+++ b/src/spin.rs
@@ -171,6 +171,10 @@ impl Spin {
     #[inline]
     pub fn rotate(&mut self, field: &[f64; 3], dt: f64) {
         let fs: f64 = field.iter().map(|x| x * x).sum::<f64>().sqrt();
+        // Without a field there is no axis to rotate about
+        if fs == 0.0 {
+            return;
+        }
         let f: [f64; 3] = [field[0] / fs, field[1] / fs, field[2] / fs];
         let dts: f64 = fs * dt;
         let dc: f64 = dts.cos();
-- 
2.43.0


From c3ec3ecac2b11084e901f535b32f0af438c52b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 03/22] fix: azimuth of spins with x = 0 (wrong quadrant, NaN
 at the poles)

---
 src/spin.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/spin.rs b/src/spin.rs
index ead64eb..5041fef 100644
--- a/src/spin.rs
+++ b/src/spin.rs
@@ -1,5 +1,3 @@
-use std::f64::consts::PI;
-
 ///Struct for storing a 3-dimensional normalised spin
 
 #[derive(Debug, Clone)]
@@ -133,11 +131,7 @@ impl Spin {
     }
 
     pub fn theta(&self) -> f64 {
-        (self.dir[1] / self.dir[0]).atan()
-            + match self.dir[0] {
-                x if x > 0.0 => 0.0,
-                _ => PI,
-            }
+        self.dir[1].atan2(self.dir[0])
     }
 
     pub fn phi(&self) -> f64 {
-- 
2.43.0


From f347fd26fb89f2b9083c459bc1468351400da356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 04/22] fix: solve_beta inverts the energy to full accuracy and
 always ends

---
 src/spinchain.rs          | 29 ++++++++++++++++++++++-------
 src/spinchain_langevin.rs | 29 ++++++++++++++++++++++-------
 2 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 39a3f59..fb6d83f 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -104,15 +104,30 @@ impl SpinChain {
         }
     }
 
+    /// Solves 1/beta - coth(beta) = e for beta by bisection
     pub fn solve_beta(e: f64) -> f64 {
-        let mut beta: f64 = 20.0;
-        let mut beta2: f64 = 10.0;
-
-        while (beta - beta2).abs() > 0.01 {
-            beta2 = beta;
-            beta = 1.0 / (e + 1.0 / beta.tanh());
+        if e > 0.0 {
+            return -Self::solve_beta(-e);
+        }
+        if e <= -1.0 {
+            return f64::INFINITY;
+        }
+        // 1 - 1/beta < coth(beta) - 1/beta < beta/3 brackets the solution
+        let mut lo: f64 = -3.0 * e;
+        let mut hi: f64 = 1.0 / (1.0 + e);
+        for _ in 0..100 {
+            let beta: f64 = 0.5 * (lo + hi);
+            if beta < 1e-3 {
+                // Leading terms for small beta, where the difference below cancels
+                return lo;
+            }
+            if 1.0 / beta - 1.0 / beta.tanh() > e {
+                lo = beta;
+            } else {
+                hi = beta;
+            }
         }
-        beta
+        0.5 * (lo + hi)
     }
 
     /// Creates a new spin chain by reading the configuration variables from a toml file
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 08bad00..bffde63 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -95,15 +95,30 @@ impl SpinChainLangevin {
         }
     }
 
+    /// Solves 1/beta - coth(beta) = e for beta by bisection
     pub fn solve_beta(e: f64) -> f64 {
-        let mut beta: f64 = 20.0;
-        let mut beta2: f64 = 10.0;
-
-        while (beta - beta2).abs() > 0.01 {
-            beta2 = beta;
-            beta = 1.0 / (e + 1.0 / beta.tanh());
+        if e > 0.0 {
+            return -Self::solve_beta(-e);
+        }
+        if e <= -1.0 {
+            return f64::INFINITY;
+        }
+        // 1 - 1/beta < coth(beta) - 1/beta < beta/3 brackets the solution
+        let mut lo: f64 = -3.0 * e;
+        let mut hi: f64 = 1.0 / (1.0 + e);
+        for _ in 0..100 {
+            let beta: f64 = 0.5 * (lo + hi);
+            if beta < 1e-3 {
+                // Leading terms for small beta, where the difference below cancels
+                return lo;
+            }
+            if 1.0 / beta - 1.0 / beta.tanh() > e {
+                lo = beta;
+            } else {
+                hi = beta;
+            }
         }
-        beta
+        0.5 * (lo + hi)
     }
 
     /// Creates a new spin chain by reading the configuration variables from a toml file
-- 
2.43.0


From 0775d10a09e25ed69bc6c5a962e3f320c49b1c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 05/22] fix: initial spins are defined and thermal for every
 beta (0, large, negative)

---
 src/spinchain.rs          | 14 ++++++++++----
 src/spinchain_langevin.rs | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index fb6d83f..1b91eb5 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -144,8 +144,6 @@ impl SpinChain {
         //Draw from distribution with particular energy density
         //        let spins: Vec<Spin> = (0..conf.hsize).map(|x| Spin::new()).collect();
         let beta_eff: f64 = conf.beta;
-        let b_e: f64 = beta_eff.exp();
-        let b_ei: f64 = 1.0 / (b_e);
 
         let pi = std::f64::consts::PI;
         let mut theta: f64 = 0.01;
@@ -167,8 +165,16 @@ impl SpinChain {
 
                 // Inverse transform sample \theta from the distribution P(\theta) =  \sin \theta e^{\beta\cos\theta}
 
-                let rot_angle: f64 =
-                    ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff).acos();
+                // (written so that no exponential overflows or cancels for any \beta)
+                let u: f64 = unif.sample(&mut r);
+                let cos_angle: f64 = if beta_eff > 0.0 {
+                    1.0 + (u * (-2.0 * beta_eff).exp_m1()).ln_1p() / beta_eff
+                } else if beta_eff < 0.0 {
+                    -1.0 + ((1.0 - u) * (2.0 * beta_eff).exp_m1()).ln_1p() / beta_eff
+                } else {
+                    1.0 - 2.0 * u
+                };
+                let rot_angle: f64 = cos_angle.clamp(-1.0, 1.0).acos();
 
                 // Rotate by \theta about random direction
                 let n: [f64; 2] = Spin::rot_perp(&[theta, phi], &rot_dir, rot_angle);
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index bffde63..8453116 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -135,8 +135,6 @@ impl SpinChainLangevin {
         //Draw from distribution with particular energy density
         //        let spins: Vec<Spin> = (0..conf.hsize).map(|x| Spin::new()).collect();
         let beta_eff: f64 = conf.beta;
-        let b_e: f64 = beta_eff.exp();
-        let b_ei: f64 = 1.0 / (b_e);
 
         let pi = std::f64::consts::PI;
         let mut theta: f64 = 0.01;
@@ -158,8 +156,16 @@ impl SpinChainLangevin {
 
                 // Inverse transform sample \theta from the distribution P(\theta) =  \sin \theta e^{\beta\cos\theta}
 
-                let rot_angle: f64 =
-                    ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff).acos();
+                // (written so that no exponential overflows or cancels for any \beta)
+                let u: f64 = unif.sample(&mut r);
+                let cos_angle: f64 = if beta_eff > 0.0 {
+                    1.0 + (u * (-2.0 * beta_eff).exp_m1()).ln_1p() / beta_eff
+                } else if beta_eff < 0.0 {
+                    -1.0 + ((1.0 - u) * (2.0 * beta_eff).exp_m1()).ln_1p() / beta_eff
+                } else {
+                    1.0 - 2.0 * u
+                };
+                let rot_angle: f64 = cos_angle.clamp(-1.0, 1.0).acos();
 
                 // Rotate by \theta about random direction
                 let n: [f64; 2] = Spin::rot_perp(&[theta, phi], &rot_dir, rot_angle);
-- 
2.43.0


From ad500f5a509324087e64db081cdb4c3362c1c5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 06/22] fix: count time steps by rounding, so stroboscopic
 samples fall on whole periods

---
 src/obs.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index f5c3cdc..4acfc76 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -491,8 +491,8 @@ pub fn trajectory_mean_e(conf: &mut Config) -> f64 {
     for i in 0..((conf.runs) as usize) {
         let txc = mpsc::Sender::clone(&tx);
         let pb = m.add(ProgressBar::new((1000.0 * conf.tau) as u64));
-        let steps: usize = (1000.0 * conf.tau / conf.dt) as usize;
-        let steps_in_cycle: usize = (conf.tau / conf.dt) as usize;
+        let steps: usize = (1000.0 * conf.tau / conf.dt).round() as usize;
+        let steps_in_cycle: usize = ((conf.tau / conf.dt).round() as usize).max(1);
         pb.set_style(sty.clone());
 
         let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
@@ -566,7 +566,7 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
     //    sc.metropolis_update();
     //}
 
-    let init_steps = (offset * conf.tau / conf.dt) as usize;
+    let init_steps = (offset * conf.tau / conf.dt).round() as usize;
     let steps = (final_t / conf.dt) as usize;
     println!(
         "Generating dynamics histogram for {} steps i.e. t={}",
@@ -574,7 +574,7 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
         (steps as f64) * conf.dt
     );
     let mut step_count: u64 = 0;
-    let cycle_steps: u64 = (conf.tau / conf.dt) as u64;
+    let cycle_steps: u64 = ((conf.tau / conf.dt).round() as u64).max(1);
 
     println!("Sample num: {}", sample_num);
     for _ in 0..init_steps {
@@ -619,7 +619,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         )
         .progress_chars("#>-");
 
-    let steps = (conf.t / conf.dt) as usize;
+    let steps = (conf.t / conf.dt).round() as usize;
     println!(
         "Generating dynamics histogram for {} steps i.e. t={}",
         steps,
@@ -905,8 +905,8 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            //Round is necessary!
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as u64;
+            //Round is necessary! Times before zero need a sign
+            let tau_steps: i64 = ((spin_chain.vars.tau / spin_chain.vars.dt).round() as i64).max(1);
 
             spin_chain.log();
 
@@ -914,7 +914,7 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    if ((spin_chain.t / spin_chain.vars.dt).round() as i64).rem_euclid(tau_steps) == 0 {
                         spin_chain.log();
                     }
                 } else {
@@ -971,7 +971,8 @@ pub fn run_sim_response(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            //Round is necessary! Times before zero need a sign
+            let tau_steps: i64 = ((spin_chain.vars.tau / spin_chain.vars.dt).round() as i64).max(1);
 
             spin_chain.log();
             spin_chain.t = -spin_chain.vars.t;
@@ -984,8 +985,7 @@ pub fn run_sim_response(conf: &mut Config) {
                 }
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t.abs() / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0
-                    {
+                    if ((spin_chain.t / spin_chain.vars.dt).round() as i64).rem_euclid(tau_steps) == 0 {
                         spin_chain.log();
                     }
                 } else {
@@ -1042,7 +1042,8 @@ pub fn run_sim(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            //Round is necessary! Times before zero need a sign
+            let tau_steps: i64 = ((spin_chain.vars.tau / spin_chain.vars.dt).round() as i64).max(1);
 
             spin_chain.log();
 
@@ -1050,7 +1051,7 @@ pub fn run_sim(conf: &mut Config) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    if ((spin_chain.t / spin_chain.vars.dt).round() as i64).rem_euclid(tau_steps) == 0 {
                         spin_chain.log();
                     }
                 } else {
@@ -1290,7 +1291,8 @@ pub fn run_ext(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            //Round is necessary! Times before zero need a sign
+            let tau_steps: i64 = ((spin_chain.vars.tau / spin_chain.vars.dt).round() as i64).max(1);
 
             spin_chain.log();
 
@@ -1298,7 +1300,7 @@ pub fn run_ext(conf: &mut Config) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    if ((spin_chain.t / spin_chain.vars.dt).round() as i64).rem_euclid(tau_steps) == 0 {
                         spin_chain.log_ext();
                     }
                 } else {
-- 
2.43.0


From a7f0c0351203c08ec0de9278d7764d44abf63cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 07/22] fix: the response run logs its initial state at its
 starting time

---
 src/obs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obs.rs b/src/obs.rs
index 4acfc76..131a611 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -974,8 +974,8 @@ pub fn run_sim_response(conf: &mut Config) {
             //Round is necessary! Times before zero need a sign
             let tau_steps: i64 = ((spin_chain.vars.tau / spin_chain.vars.dt).round() as i64).max(1);
 
-            spin_chain.log();
             spin_chain.t = -spin_chain.vars.t;
+            spin_chain.log();
 
             while spin_chain.t < spin_chain.vars.t {
                 if spin_chain.t < 0.0 {
-- 
2.43.0


From c63946184562880d685060eb1f89af4018de05d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 08/22] fix: wait for the writer thread, so that no sample is
 lost at exit

---
 src/obs.rs     | 24 ++++++++++++++++++++----
 src/writers.rs |  7 +++++--
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 131a611..c4ff0d0 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -611,7 +611,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         .unwrap();
 
     let (tx, rx) = mpsc::channel();
-    write_in_bg(dyn_hist, rx);
+    let writing_thread = write_in_bg(dyn_hist, rx);
     let m = MultiProgress::new();
     let sty = ProgressStyle::default_bar()
         .template(
@@ -668,6 +668,10 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         });
     }
     m.join().unwrap();
+
+    //Close channel and wait for the last lines to be written
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 ///Generate ```sample_num``` samples via Monte Carlo and dynamical evolution to check that the
@@ -813,7 +817,7 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
         .open(evt_string)
         .unwrap();
 
-    write_in_bg(evt_file, rx);
+    let writing_thread = write_in_bg(evt_file, rx);
 
     println!("Energy density: {}", conf.ednsty);
     println!("Effective temperature: {}", conf.beta);
@@ -873,6 +877,10 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
     }
 
     m.join().unwrap();
+
+    //Close channel and wait for the last lines to be written
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 pub fn run_langevin(conf: &mut Config, gamma: f64) {
@@ -1526,7 +1534,7 @@ pub fn run_mc_magnus(conf: &mut Config) {
     let (tx, rx) = mpsc::channel();
 
     let points: usize = conf.mc_points;
-    write_in_bg(file, rx);
+    let writing_thread = write_in_bg(file, rx);
 
     // Create storage for the points
     /*
@@ -1600,6 +1608,10 @@ pub fn run_mc_magnus(conf: &mut Config) {
         });
     }
     m.join().unwrap();
+
+    //Close channel and wait for the last lines to be written
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 pub fn run_mc_profile(conf: &mut Config) {
@@ -1717,7 +1729,7 @@ pub fn run_mc(conf: &mut Config) {
     let (tx, rx) = mpsc::channel();
 
     let points: usize = conf.mc_points;
-    write_in_bg(file, rx);
+    let writing_thread = write_in_bg(file, rx);
 
     // Create storage for the points
     /*
@@ -1791,4 +1803,8 @@ pub fn run_mc(conf: &mut Config) {
         });
     }
     m.join().unwrap();
+
+    //Close channel and wait for the last lines to be written
+    drop(tx);
+    writing_thread.join().unwrap();
 }
diff --git a/src/writers.rs b/src/writers.rs
index 23386a0..688cb4c 100644
--- a/src/writers.rs
+++ b/src/writers.rs
@@ -1,11 +1,14 @@
 use super::*;
 
-pub fn write_in_bg(file: File, rx: std::sync::mpsc::Receiver<String>) {
+pub fn write_in_bg(
+    file: File,
+    rx: std::sync::mpsc::Receiver<String>,
+) -> thread::JoinHandle<()> {
     thread::spawn(move || {
         for received in rx {
             writeln!(&file, "{}", &received).unwrap();
         }
-    });
+    })
 }
 
 pub fn profile_in_bg(
-- 
2.43.0


From ebce789923b08a5c354e7b751f9c3d888123b234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 09/22] fix: -n accepts the documented comma-separated list of
 periods

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 66cfb01..8b41048 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -77,7 +77,12 @@ struct Args {
     config_desc: bool,
 
     ///Generate single-shot time-evolution at different drive periods tau
-    #[clap(long = "n-steps", short, value_name = "TAU1,TAU2,...")]
+    #[clap(
+        long = "n-steps",
+        short,
+        value_name = "TAU1,TAU2,...",
+        value_delimiter = ','
+    )]
     n_steps_taus: Option<Vec<f64>>,
 
     ///Find adiabatic ensemble H-\\omega S^z
-- 
2.43.0


From 72f7681449f011f52e5eb3dcd62d4f51c6b9db16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 10/22] fix: -E accepts a negative energy density like the
 other fits

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 8b41048..78acf7b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -107,7 +107,12 @@ struct Args {
     ext: bool,
 
     /// Fit temperature of Monte-Carlo ensemble with energy density E in lab frame, leading Magnus
-    #[clap(short = 'E', long = "magnus-fit", value_name = "E")]
+    #[clap(
+        short = 'E',
+        long = "magnus-fit",
+        value_name = "E",
+        allow_hyphen_values = true
+    )]
     maglab: Option<f64>, //E
 
     //Set step limit when doing n-steps
-- 
2.43.0


From 34edbc34fe0bdd4faf94e2faaf942d245c18f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 11/22] fix: -b and the configured energy density set beta in
 every mode, -e and -n included

---
 src/main.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 78acf7b..c4a314f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -164,6 +164,13 @@ fn main() {
             default = false;
         }
     }
+    if let Some(beta) = args.beta {
+        //        println!("Overriding to: {}", b);
+        conf.beta = beta;
+    } else {
+        conf.beta = SpinChain::solve_beta(conf.ednsty);
+    }
+
     if args.ext {
         println!("Generating ext");
         let mut conf = conf.clone();
@@ -388,13 +395,6 @@ fn main() {
         default = false;
     }
 
-    if let Some(beta) = args.beta {
-        //        println!("Overriding to: {}", b);
-        conf.beta = beta;
-    } else {
-        conf.beta = SpinChain::solve_beta(conf.ednsty);
-    }
-
     if let Some(points) = args.hist {
         let points = points.unwrap_or(8000_usize);
 
-- 
2.43.0


From 671e3d7023fc79f84b2bf269e092f48322b3cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 12/22] fix: --config-desc prints the documented description
 instead of nothing

---
 src/config-desc.toml | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/config-desc.toml b/src/config-desc.toml
index e69de29..6b9c2ea 100644
--- a/src/config-desc.toml
+++ b/src/config-desc.toml
@@ -0,0 +1,24 @@
+# Default config and description of options
+hsize = 512    # size of the system
+ssize = 8      # size of subsystem (driven part)
+t = 256        # final time of simulation
+dt = 0.02      # time-step for simulation
+runs = 2       # number runs to perform
+threads = 2    # number of parallel threads
+trel = 0       # minus initial time
+tau = 10       # period of drive
+lambda = 1     # value of J_z coupling
+hfield = [0.0, 0.0, 0.0] # constant h field on entire system
+hs = [0.0, 0.0, 0.0]     # constant h field on subsystem
+jvar = 0.001   # variance in J couplings (x, y, z independent)
+hvar = 0       # variance in field
+method = 2     # method for numerical integration (2=2nd order Suzuki-Trotter)
+ednsty = -0.66 # energy-density of initial state
+file = "log"   # pattern for log files i.e. log0.dat, log1.dat
+strob = false  # stroboscopic evaluation
+offset = 0     # first file i.e. log0.dat
+beta = 2.88    # beta (determined from ednsty)
+mc_points = 1000 # number of Monte-Carlo samples
+e = 0.9    # eccentricity (scale of y-drive if drive="xyelliptic")
+drive = "xyplane" # type of driving, can be "xyplane", "uniaxial", "xyelliptic", "staticfield", "none"
+log = true     # write log files
-- 
2.43.0


From db4dbf413e37c8fc93fb52b78e7e7afe4cb16105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 13/22] fix: analysis modes no longer truncate the log files of
 earlier runs

---
 src/obs.rs | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index c4ff0d0..a5c1eda 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1,7 +1,15 @@
 use super::*;
 
+///Configuration for a chain which only serves an analysis, and must not truncate the log of a run
+fn unlogged(conf: &Config) -> Config {
+    Config {
+        log: false,
+        ..conf.clone()
+    }
+}
+
 pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -20,7 +28,7 @@ pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
 }
 
 pub fn estim_e_maglab(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -39,7 +47,7 @@ pub fn estim_e_maglab(conf: &mut Config, beta: f64) -> f64 {
 }
 
 pub fn estim_e_rot(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -57,7 +65,7 @@ pub fn estim_e_rot(conf: &mut Config, beta: f64) -> f64 {
     e_samples.iter().fold(0.0, |acc, x| acc + x) / (samples as f64)
 }
 pub fn estim_e2(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
     //    println!("Field: {:?}", sc.static_h);
 
     //let omega: f64 = 2.0 * PI / conf.tau;
@@ -78,7 +86,7 @@ pub fn estim_e2(conf: &mut Config, beta: f64) -> f64 {
 }
 pub fn estim_eh(conf: &mut Config, beta: f64) -> f64 {
     // let omega: f64 = 2.0 * PI / conf.tau;
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
     //    println!("Field: {:?}", sc.static_h);
 
     //let omega: f64 = 2.0 * PI / conf.tau;
@@ -281,7 +289,7 @@ pub fn get_obs_maglab(conf: &mut Config) -> [f64; 4] {
     //
     conf.ssize = conf.hsize;
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -315,7 +323,7 @@ pub fn get_obs_rot(conf: &mut Config) -> [f64; 4] {
     //
     conf.ssize = conf.hsize;
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -348,7 +356,7 @@ pub fn get_obsh(conf: &mut Config) -> [f64; 4] {
     conf.ssize = conf.hsize;
     //    println!("Target? {}", estim_e(conf,2.88));
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -379,7 +387,7 @@ pub fn get_obs(conf: &mut Config) -> [f64; 4] {
     conf.ssize = conf.hsize;
     //    println!("Target? {}", estim_e(conf,2.88));
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -412,7 +420,7 @@ pub fn get_obs(conf: &mut Config) -> [f64; 4] {
 pub fn gen_hist_magnus(conf: &mut Config, sample_num: usize) {
     conf.drive = DriveType::none;
     conf.file = "x".to_string();
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
     let s: f64 = sc.vars.ssize as f64;
 
     let mc_hist = OpenOptions::new()
@@ -495,7 +503,7 @@ pub fn trajectory_mean_e(conf: &mut Config) -> f64 {
         let steps_in_cycle: usize = ((conf.tau / conf.dt).round() as usize).max(1);
         pb.set_style(sty.clone());
 
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+        let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
         pool.execute(move || {
             pb.set_message(format!("run {}", i));
@@ -551,7 +559,7 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
     //Then sample every 10 cycles?
     let offset: f64 = 30.0;
     let final_t: f64 = (sample_num as f64 + offset) * conf.tau;
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     let pb = ProgressBar::new(final_t as u64);
     let sty = ProgressStyle::default_bar()
@@ -641,7 +649,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         let pb = m.add(ProgressBar::new(conf.t as u64));
         pb.set_style(sty.clone());
 
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+        let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
         //        sc.file = f.try_clone().unwrap();
 
         pool.execute(move || {
@@ -680,7 +688,7 @@ pub fn gen_hist(conf: &mut Config, sample_num: usize) {
     conf.drive = DriveType::none;
     conf.file = "x".to_string();
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     let mc_hist = OpenOptions::new()
         .create(true)
@@ -1562,7 +1570,7 @@ pub fn run_mc_magnus(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = SpinChain::new(unlogged(conf), i);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
@@ -1655,7 +1663,7 @@ pub fn run_mc_profile(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = SpinChain::new(unlogged(conf), i);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
@@ -1757,7 +1765,7 @@ pub fn run_mc(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = SpinChain::new(unlogged(conf), i);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
-- 
2.43.0


From abe2ae1c29af8a798351d2e759af2d208d3c1897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 14/22] fix: first-order Magnus update weighs the documented
 term and uses the new spin's S^z

---
 src/spinchain.rs          | 6 +++---
 src/spinchain_langevin.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 1b91eb5..9b9824a 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1021,7 +1021,7 @@ impl SpinChain {
         // Because j-1->j->j+1, flipping j effects *three* terms in the energy
         // But only if the field is non-zero at site j
         if index < self.vars.ssize as usize {
-            ei -= PI / self.vars.tau
+            ei -= self.vars.tau / (4.0 * PI)
                 * (s_j.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
@@ -1057,8 +1057,8 @@ impl SpinChain {
         }
 
         if index < self.vars.ssize as usize {
-            de -= PI / self.vars.tau
-                * (s_j.dir[2]
+            de -= self.vars.tau / (4.0 * PI)
+                * (new_spin.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
                             - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 8453116..b54ed66 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -356,7 +356,7 @@ impl SpinChainLangevin {
         // Because j-1->j->j+1, flipping j effects *three* terms in the energy
         // But only if the field is non-zero at site j
         if index < self.vars.ssize as usize {
-            ei -= PI / self.vars.tau
+            ei -= self.vars.tau / (4.0 * PI)
                 * (s_j.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
@@ -392,8 +392,8 @@ impl SpinChainLangevin {
         }
 
         if index < self.vars.ssize as usize {
-            de -= PI / self.vars.tau
-                * (s_j.dir[2]
+            de -= self.vars.tau / (4.0 * PI)
+                * (new_spin.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
                             - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]
-- 
2.43.0


From aabf5b39f15ef4212fae8ca210ea7e3f532ffaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 15/22] fix: first-order Magnus update counts exactly the terms
 of driven sites, at the edges too

---
 src/spinchain.rs          | 87 ++++++++++++++++++---------------------
 src/spinchain_langevin.rs | 87 ++++++++++++++++++---------------------
 2 files changed, 78 insertions(+), 96 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 9b9824a..c050bf8 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1019,30 +1019,28 @@ impl SpinChain {
 
         //-(1)/(2 \omega) (  S^z + 2y . (J_j S_{j+1} + J_{j-1} S_{j-1}) x S_j )
         // Because j-1->j->j+1, flipping j effects *three* terms in the energy
-        // But only if the field is non-zero at site j
-        if index < self.vars.ssize as usize {
-            ei -= self.vars.tau / (4.0 * PI)
-                * (s_j.dir[2]
-                    + 2.0
-                        * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
-                                        - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
-        }
+        // But each only if the field is non-zero at its own site
+        let ss: usize = self.vars.ssize as usize;
+        let jm1: usize = (index + s - 1) % s;
+        let jp1: usize = (index + 1) % s;
+        let mut mag_ei: f64 = 0.0;
+        if index < ss {
+            mag_ei += s_j.dir[2]
+                + 2.0
+                    * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
+                        - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]);
+        }
+        if jm1 < ss {
+            mag_ei += 2.0
+                * ((j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                    - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0]) * s_jm1.dir[2]);
+        }
+        if jp1 < ss {
+            mag_ei += 2.0
+                * ((j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
+                    - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0]) * s_jp1.dir[2]);
+        }
+        ei -= self.vars.tau / (4.0 * PI) * mag_ei;
 
         // Select random angles
         let theta: f64 = 2.0 * PI * unif.sample(&mut rng);
@@ -1056,31 +1054,24 @@ impl SpinChain {
                 s_jm1.dir[k] * j_jm1[k] * new_spin.dir[k] + new_spin.dir[k] * j_j[k] * s_jp1.dir[k];
         }
 
-        if index < self.vars.ssize as usize {
-            de -= self.vars.tau / (4.0 * PI)
-                * (new_spin.dir[2]
-                    + 2.0
-                        * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2])
-                                        * s_jm1.dir[0]
-                                        - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2])
-                                        * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
+        let mut mag_de: f64 = 0.0;
+        if index < ss {
+            mag_de += new_spin.dir[2]
+                + 2.0
+                    * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
+                        - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]);
+        }
+        if jm1 < ss {
+            mag_de += 2.0
+                * ((j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                    - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0]) * s_jm1.dir[2]);
+        }
+        if jp1 < ss {
+            mag_de += 2.0
+                * ((j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2]) * s_jp1.dir[0]
+                    - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0]) * s_jp1.dir[2]);
         }
+        de -= self.vars.tau / (4.0 * PI) * mag_de;
         // Evaluate energy difference
         // Metropolis-Hastings acceptance/rejection:
         //  Accept if \Delta E < 0, or w/ prob e^{-\beta \Delta E} otherwise
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index b54ed66..f992b00 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -354,30 +354,28 @@ impl SpinChainLangevin {
 
         //-(1)/(2 \omega) (  S^z + 2y . (J_j S_{j+1} + J_{j-1} S_{j-1}) x S_j )
         // Because j-1->j->j+1, flipping j effects *three* terms in the energy
-        // But only if the field is non-zero at site j
-        if index < self.vars.ssize as usize {
-            ei -= self.vars.tau / (4.0 * PI)
-                * (s_j.dir[2]
-                    + 2.0
-                        * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
-                                        - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
-        }
+        // But each only if the field is non-zero at its own site
+        let ss: usize = self.vars.ssize as usize;
+        let jm1: usize = (index + s - 1) % s;
+        let jp1: usize = (index + 1) % s;
+        let mut mag_ei: f64 = 0.0;
+        if index < ss {
+            mag_ei += s_j.dir[2]
+                + 2.0
+                    * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
+                        - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]);
+        }
+        if jm1 < ss {
+            mag_ei += 2.0
+                * ((j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                    - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0]) * s_jm1.dir[2]);
+        }
+        if jp1 < ss {
+            mag_ei += 2.0
+                * ((j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
+                    - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0]) * s_jp1.dir[2]);
+        }
+        ei -= self.vars.tau / (4.0 * PI) * mag_ei;
 
         // Select random angles
         let theta: f64 = 2.0 * PI * unif.sample(&mut rng);
@@ -391,31 +389,24 @@ impl SpinChainLangevin {
                 s_jm1.dir[k] * j_jm1[k] * new_spin.dir[k] + new_spin.dir[k] * j_j[k] * s_jp1.dir[k];
         }
 
-        if index < self.vars.ssize as usize {
-            de -= self.vars.tau / (4.0 * PI)
-                * (new_spin.dir[2]
-                    + 2.0
-                        * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2])
-                                        * s_jm1.dir[0]
-                                        - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2])
-                                        * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
+        let mut mag_de: f64 = 0.0;
+        if index < ss {
+            mag_de += new_spin.dir[2]
+                + 2.0
+                    * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
+                        - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]);
+        }
+        if jm1 < ss {
+            mag_de += 2.0
+                * ((j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                    - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0]) * s_jm1.dir[2]);
+        }
+        if jp1 < ss {
+            mag_de += 2.0
+                * ((j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2]) * s_jp1.dir[0]
+                    - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0]) * s_jp1.dir[2]);
         }
+        de -= self.vars.tau / (4.0 * PI) * mag_de;
         // Evaluate energy difference
 
         // Accept/reject
-- 
2.43.0


From 994342832a1d7557906cb7b5d55f1cb92b328cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 16/22] fix: second-order Magnus update squares the field at
 site j+1 with the right neighbour

---
 src/spinchain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index c050bf8..cde7012 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -631,7 +631,7 @@ impl SpinChain {
                     + s_jp1.dir[2] * (j_j[2] * s_j.dir[2] + j_jp1[2] * s_jp2.dir[2]));
             ei2 -= s_jp1.dir[0]
                 * ((j_j[0] * s_j.dir[0] + j_jp1[0] * s_jp2.dir[0])
-                    * (j_jm2[0] * s_jm2.dir[0] + j_jp1[0] * s_jp2.dir[0])
+                    * (j_j[0] * s_j.dir[0] + j_jp1[0] * s_jp2.dir[0])
                     + (j_j[1] * s_j.dir[1] + j_jp1[1] * s_jp2.dir[1])
                         * (j_j[1] * s_j.dir[1] + j_jp1[1] * s_jp2.dir[1])
                     + (j_j[2] * s_j.dir[2] + j_jp1[2] * s_jp2.dir[2])
@@ -812,7 +812,7 @@ impl SpinChain {
                     + s_jp1.dir[2] * (j_j[2] * new_spin.dir[2] + j_jp1[2] * s_jp2.dir[2]));
             de2 -= s_jp1.dir[0]
                 * ((j_j[0] * new_spin.dir[0] + j_jp1[0] * s_jp2.dir[0])
-                    * (j_jm2[0] * s_jm2.dir[0] + j_jp1[0] * s_jp2.dir[0])
+                    * (j_j[0] * new_spin.dir[0] + j_jp1[0] * s_jp2.dir[0])
                     + (j_j[1] * new_spin.dir[1] + j_jp1[1] * s_jp2.dir[1])
                         * (j_j[1] * new_spin.dir[1] + j_jp1[1] * s_jp2.dir[1])
                     + (j_j[2] * new_spin.dir[2] + j_jp1[2] * s_jp2.dir[2])
-- 
2.43.0


From 0080b7857968bcb4672f345ea6673c94d993fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 17/22] fix: rotating-frame energy counts each bond and triple
 of the correction once, as its update does

---
 src/spinchain.rs | 30 +-----------------------------
 1 file changed, 1 insertion(+), 29 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index cde7012..4fe1f55 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1609,59 +1609,31 @@ impl SpinChain {
         }
 
         let mut mg: f64 = 0.0;
-        // Now for correction term
+        // Now for correction term: each bond (to the right) and each triple (about its centre) once
         for index in 0..h {
             let s_c: &Spin = &self.spins[index];
             let s_l: &Spin = match index {
                 _ if index == 0 => &self.spins[h - 1],
                 _ => &self.spins[index - 1],
             };
-            let s_ll: &Spin = match index {
-                _ if index == 0 => &self.spins[h - 2],
-                _ if index == 1 => &self.spins[h - 1],
-                _ => &self.spins[index - 2],
-            };
 
             let s_r: &Spin = match index {
                 _ if index == h - 1 => &self.spins[0],
                 _ => &self.spins[index + 1],
             };
 
-            let s_rr: &Spin = match index {
-                _ if index == h - 2 => &self.spins[0],
-                _ if index == h - 1 => &self.spins[1],
-                _ => &self.spins[index + 2],
-            };
-
             let j_l: &[f64; 3] = match index {
                 _ if index == 0 => &self.j_couple[h - 1],
                 _ => &self.j_couple[index - 1],
             };
-            let j_ll: &[f64; 3] = match index {
-                _ if index == 0 => &self.j_couple[h - 2],
-                _ if index == 1 => &self.j_couple[h - 1],
-                _ => &self.j_couple[index - 2],
-            };
 
             let j_r: &[f64; 3] = &self.j_couple[index];
-            let j_rr: &[f64; 3] = match index {
-                _ if index == h - 1 => &self.j_couple[0],
-                _ => &self.j_couple[index + 1],
-            };
 
             mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_c, s_c, s_r);
             mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_r, s_r, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_l, s_l, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_c, s_c, s_l);
             mg += (j_l[1] - j_l[0])
                 * (j_r[1] - j_r[0])
                 * (SpinChain::zxi_trip(s_r, s_l, s_c) + SpinChain::zxi_trip(s_l, s_r, s_c));
-            mg += (j_ll[1] - j_ll[0])
-                * (j_l[1] - j_l[0])
-                * (SpinChain::zxi_trip(s_c, s_ll, s_l) + SpinChain::zxi_trip(s_ll, s_c, s_l));
-            mg += (j_r[1] - j_r[0])
-                * (j_rr[1] - j_rr[0])
-                * (SpinChain::zxi_trip(s_rr, s_c, s_r) + SpinChain::zxi_trip(s_c, s_rr, s_r));
         }
 
         e -= mg / (16.0 * om);
-- 
2.43.0


From 2588e34a6b95f495ea62e2cd294ae5ea60afbeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 18/22] fix: refuse a configuration file that is not UTF-8
 instead of overwriting it with defaults

---
 src/spinchain.rs          | 4 ++++
 src/spinchain_langevin.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 4fe1f55..32464d5 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -93,6 +93,10 @@ impl SpinChain {
                     //Config::default()
                 }
             },
+            // The file is there but is not text: invalid as well
+            Err(e) if e.kind() == std::io::ErrorKind::InvalidData => {
+                panic!("Invalid configuration: {:?}", e);
+            }
             Err(e) => {
                 eprintln!(
                     "Problem reading {}, written default configuration to config.toml and using this",
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index f992b00..8ed7711 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -84,6 +84,10 @@ impl SpinChainLangevin {
                     //Config::default()
                 }
             },
+            // The file is there but is not text: invalid as well
+            Err(e) if e.kind() == std::io::ErrorKind::InvalidData => {
+                panic!("Invalid configuration: {:?}", e);
+            }
             Err(e) => {
                 eprintln!(
                     "Problem reading {}, written default configuration to config.toml and using this",
-- 
2.43.0


From c04eb459fab8fdccdcc09e464f9c57881d665017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 19/22] hook: thin Monte-Carlo updates under cfg sc_verif and
 an environment variable

---
 src/lib.rs                |  3 +++
 src/spinchain.rs          | 20 ++++++++++++++++++++
 src/spinchain_langevin.rs |  8 ++++++++
 src/verif.rs              | 33 +++++++++++++++++++++++++++++++++
 4 files changed, 64 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index b18b4dd..90dd092 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,3 +2,6 @@ pub mod config;
 pub mod spin;
 pub mod spinchain;
 pub mod spinchain_langevin;
+
+#[cfg(sc_verif)]
+pub mod verif;
diff --git a/src/spinchain.rs b/src/spinchain.rs
index 32464d5..6a31ae6 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -242,6 +242,10 @@ impl SpinChain {
         }
     }
     pub fn metropolis_update_maglab(&mut self) {
+        #[cfg(sc_verif)]
+        if crate::verif::skip_update() {
+            return;
+        }
         let mut rng = rand::thread_rng();
         let unif = Uniform::from(0.0..1.0);
 
@@ -310,6 +314,10 @@ impl SpinChain {
     /// Does a Metropolis update for a single spin with inverse temperature beta
     /// This is in the rotating frame with leading Magnus correction
     pub fn metropolis_update_rot_magnus(&mut self) {
+        #[cfg(sc_verif)]
+        if crate::verif::skip_update() {
+            return;
+        }
         let mut rng = rand::thread_rng();
         let unif = Uniform::from(0.0..1.0);
 
@@ -461,6 +469,10 @@ impl SpinChain {
 
     /// Does a Metropolis update for a single spin with inverse temperature beta
     pub fn metropolis_update(&mut self) {
+        #[cfg(sc_verif)]
+        if crate::verif::skip_update() {
+            return;
+        }
         let mut rng = rand::thread_rng();
         let unif = Uniform::from(0.0..1.0);
 
@@ -529,6 +541,10 @@ impl SpinChain {
     //-1/(2 omega) * \sum_{j=1}^\ell S^z_j 2 * y .
 
     pub fn metropolis_update_mag_full(&mut self) {
+        #[cfg(sc_verif)]
+        if crate::verif::skip_update() {
+            return;
+        }
         let mut rng = rand::thread_rng();
         let unif = Uniform::from(0.0..1.0);
 
@@ -962,6 +978,10 @@ impl SpinChain {
     }
 
     pub fn metropolis_update_magnus(&mut self) {
+        #[cfg(sc_verif)]
+        if crate::verif::skip_update() {
+            return;
+        }
         let mut rng = rand::thread_rng();
         let unif = Uniform::from(0.0..1.0);
 
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 8ed7711..bb3a3d2 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -231,6 +231,10 @@ impl SpinChainLangevin {
 
     /// Does a Metropolis update for a single spin with inverse temperature beta
     pub fn metropolis_update(&mut self) {
+        #[cfg(sc_verif)]
+        if crate::verif::skip_update() {
+            return;
+        }
         let mut rng = rand::thread_rng();
         let unif = Uniform::from(0.0..1.0);
 
@@ -297,6 +301,10 @@ impl SpinChainLangevin {
     //-1/(2 omega) * \sum_{j=1}^\ell S^z_j 2 * y .
 
     pub fn metropolis_update_magnus(&mut self) {
+        #[cfg(sc_verif)]
+        if crate::verif::skip_update() {
+            return;
+        }
         let mut rng = rand::thread_rng();
         let unif = Uniform::from(0.0..1.0);
 
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..b234672
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,33 @@
+//! Access for an external verification harness, compiled only with `--cfg sc_verif`
+use std::cell::Cell;
+use std::sync::OnceLock;
+
+static THIN: OnceLock<u64> = OnceLock::new();
+
+thread_local! {
+    static CALLS: Cell<u64> = const { Cell::new(0) };
+}
+
+///With the environment variable `SC_VERIF_THIN=k`, lets only every k-th Monte-Carlo update of each
+///thread through, so that the command line modes can be run often
+pub fn skip_update() -> bool {
+    let thin: u64 = *THIN.get_or_init(|| {
+        std::env::var("SC_VERIF_THIN")
+            .ok()
+            .and_then(|x| x.parse().ok())
+            .unwrap_or(1)
+    });
+    if thin <= 1 {
+        return false;
+    }
+    CALLS.with(|c| {
+        let n = c.get();
+        if n + 1 >= thin {
+            c.set(0);
+            false
+        } else {
+            c.set(n + 1);
+            true
+        }
+    })
+}
-- 
2.43.0


From fb2f7e4c1c7edd7bd08daf3db6ee2f0ac2327b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:56 +0000
Subject: [PATCH 20/22] fix: a trajectory writes exactly the requested number
 of samples, one per period

---
 src/obs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index a5c1eda..6f30230 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -588,9 +588,9 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
     for _ in 0..init_steps {
         sc.update();
         pb.set_position(sc.t as u64);
-        step_count += 1;
     }
-    while sc.t < final_t {
+    //Count the steps: the sum of the time steps and t0 do not decide how many samples there are
+    while step_count < sample_num as u64 * cycle_steps {
         sc.update();
         step_count += 1;
 
-- 
2.43.0


From 935a3e7c2d6e0d863ae2714ba04adcfb5247c4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:09 +0000
Subject: [PATCH 21/22] fix: Monte-Carlo updates sample the Boltzmann weight at
 negative temperatures too

---
 src/spinchain.rs          | 10 +++++-----
 src/spinchain_langevin.rs |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 6a31ae6..b01342b 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -306,7 +306,7 @@ impl SpinChain {
 
         // Accept/reject
         // Accept if <0, or w/ prob e^{-\beta \Delta E} otherwise
-        if de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
+        if self.vars.beta * de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
             self.spins[index].dir = new_spin.dir;
         }
     }
@@ -456,7 +456,7 @@ impl SpinChain {
 
         // Accept/reject
         // Accept if <0, or w/ prob e^{-\beta \Delta E} otherwise
-        if de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
+        if self.vars.beta * de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
             self.spins[index].dir = new_spin.dir;
         }
     }
@@ -525,7 +525,7 @@ impl SpinChain {
 
         // Accept/reject
         // Accept if <0, or w/ prob e^{-\beta \Delta E} otherwise
-        if de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
+        if self.vars.beta * de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
             self.spins[index].dir = new_spin.dir;
         }
     }
@@ -972,7 +972,7 @@ impl SpinChain {
 
         // Accept/reject
         // Accept if <0, or w/ prob e^{-\beta \Delta E} otherwise
-        if de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
+        if self.vars.beta * de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
             self.spins[index].dir = new_spin.dir;
         }
     }
@@ -1099,7 +1099,7 @@ impl SpinChain {
         // Evaluate energy difference
         // Metropolis-Hastings acceptance/rejection:
         //  Accept if \Delta E < 0, or w/ prob e^{-\beta \Delta E} otherwise
-        if de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
+        if self.vars.beta * de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
             self.spins[index].dir = new_spin.dir;
         }
     }
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index bb3a3d2..94b0ab6 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -285,7 +285,7 @@ impl SpinChainLangevin {
 
         // Accept/reject
         // Accept if <0, or w/ prob e^{-\beta \Delta E} otherwise
-        if de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
+        if self.vars.beta * de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
             self.spins[index].dir = new_spin.dir;
         }
     }
@@ -423,7 +423,7 @@ impl SpinChainLangevin {
 
         // Accept/reject
         // Accept if <0, or w/ prob e^{-\beta \Delta E} otherwise
-        if de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
+        if self.vars.beta * de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
             self.spins[index].dir = new_spin.dir;
         }
     }
-- 
2.43.0


From f00078a2aaf3ebf1685e5c1cd5bd8e37e9c2e202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:15 +0000
Subject: [PATCH 22/22] fix: a run after --ext on the same command line gets
 log numbers of its own

---
 src/main.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index c4a314f..f5bd265 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -173,7 +173,6 @@ fn main() {
 
     if args.ext {
         println!("Generating ext");
-        let mut conf = conf.clone();
         run_ext(&mut conf);
         default = false;
     }
-- 
2.43.0

