#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SP, SC, SL, OBS, MAIN, WR, CF = ("src/spin.rs", "src/spinchain.rs", "src/spinchain_langevin.rs",
                                 "src/obs.rs", "src/main.rs", "src/writers.rs", "src/config.rs")

p("S01", "Spins are unit vectors; angles, Gram-Schmidt and tilts are exact",
  "A spin built from any non-zero Cartesian triple is the unit vector along it, and one built or reset from an azimuth and a polar angle is the matching unit vector; two spins compare equal exactly when each component differs by less than 0.001; reading the two angles of any unit spin and rebuilding from them gives the same vector, the poles and the coordinate axes included. Gram-Schmidt of two non-parallel vectors returns the unit vector of their plane that is orthogonal to the first and on the side of the second. Tilting a direction about the orthogonal part of a second one turns it by exactly the requested angle in the plane orthogonal to that axis, whichever way the pair lies on the sphere.",
  ["inputs"], "all triples whose squared length is a normal number, all angles, all unit vectors including axes and poles, all non-parallel pairs, all tilt angles",
  "Six hand-picked spins are tested; none on an axis with zero x component, none through the angle read-back or the tilt.",
  [SP], [("Spin::new_xyz / new_from_angles / set_angles", SP), ("Spin::theta / phi", SP), ("Spin::gs / rot_perp", SP)],
  [("Spin.dir", "the three Cartesian components", SP)], ["return values"])
p("S02", "Spin precession is an exact rotation about the field",
  "Rotating a spin in a field for a time turns it about the field direction by the angle |field| times time (in the sense dS/dt = S x field), for every field, spin and time, positive or negative. Rotations about one field compose additively in time, undo each other for opposite times, keep the component along the field and the length, and a zero field or zero time leaves the spin where it was.",
  ["inputs", "histories"], "all unit spins, all finite fields (zero, tiny, huge, along and against the spin), all times of either sign, repeated rotations",
  "Tests rotate one spin about two axes with dt=0.01 and compare to 1e-3.",
  [SP], [("Spin::rotate", SP)], [("Spin.dir", "the three Cartesian components", SP)], ["spin after rotate"])
p("U01", "Every history keeps unit finite spins and touches only what it should",
  "Whatever sequence of time steps, Monte-Carlo updates, energy and magnetisation reads and log calls is applied to a chain, all spins stay finite unit vectors; time steps change only spins and time, Monte-Carlo updates change at most one spin and not the time, and reads and logging change nothing. Couplings, static fields and parameters are never changed by any of them, and results depend only on the present state (no hidden memory of earlier calls).",
  ["histories", "configurations"], "all operation sequences (up to tens of thousands of steps), even chain lengths from 2 up, all drives and parameters",
  "Tests run at most one operation kind on the default configuration and never look at the norms or at the untouched fields.",
  [SC, SP], [("SpinChain::update / update_no_field", SC), ("metropolis_update*", SC), ("Spin::rotate renormalises", SP)],
  [("SpinChain.spins/j_couple/static_h/t/vars", "public state", SC)], ["public fields after each call"])
p("D01", "A time step is the even-odd-even Suzuki-Trotter step of the ring",
  "One step rotates all even sites for half the time step, then all odd sites for the full time step, then the even sites again for half, each about its local field: coupling-weighted left and right ring neighbours minus the local magnetic field. The magnetic field is the static field plus, on the driven subsystem only, the drive taken at the middle of the step (the field-free variant uses the drive alone and no static field), and time advances by exactly one step.",
  ["inputs", "configurations", "histories"], "all even chain lengths, subsystem sizes from 0 to the whole ring, couplings, fields, drives, periods, times and time steps of either sign",
  "The only dynamics test switches the couplings off and watches one spin in one field to 1e-3.",
  [SC, SP], [("SpinChain::update / update_no_field", SC), ("even_omega / odd_omega / rotate_even / rotate_odd", SC), ("h_ext", SC)],
  [("spins, t", "state advanced by a step", SC)], ["spins and t after update"])
p("D02", "Energy is conserved without drive, and changes only by the drive's work",
  "With no drive (or a static one) the total energy of the ring stays constant to rounding over any number of steps, for every time step, coupling disorder and static field. With a drive, the energy changed by a step is exactly the work done by the change of the drive field on the subsystem magnetisation at the start and the end of the step.",
  ["histories", "configurations", "inputs"], "all even rings, any disorder, any static fields, all drives, any dt, histories of thousands of steps",
  "No test computes an energy before and after a step.",
  [SC], [("symplectic even/odd splitting in update", SC), ("total_energy / total_energy2", SC)],
  None, ["total_energy, total_energy2 before and after update"])
p("D03", "Time evolution is reversible",
  "Evolving for any number of steps and then the same number with the negated time step brings every spin and the time back to where they started, to rounding, also under a time-dependent drive and for the field-free variant.",
  ["histories", "configurations"], "all even rings, all drives, all dt, histories up to thousands of steps (rounding growth allowed for)",
  "No test runs backwards in time.",
  [SC], [("drive sampled at mid-step, symmetric splitting", SC)], None, ["spins, t"])
p("D04", "The dynamics solve the precession equation to second order",
  "Over a fixed time the trajectory converges to the solution of dS_j/dt = S_j x (J_{j-1} S_{j-1} + J_j S_{j+1} - B_j(t)) on the ring, and halving the time step divides the error by four, for any couplings, static fields and drive.",
  ["inputs", "configurations"], "even rings, bounded couplings and fields, all drives, drive periods long against dt",
  "No test compares a coupled or driven trajectory with the equation of motion.",
  [SC], [("second-order Suzuki-Trotter with mid-step drive", SC)], None, ["spins after T/dt steps"])
p("D05", "Dynamics respect ring translation, reflection, rotation and locality",
  "Relabelling a uniformly driven ring by an even translation or a reflection, permuting or rotating the coordinate axes of all vectors and couplings together, or multiplying all couplings and fields while dividing all times by the same factor, commutes with time evolution. One step propagates a change of one spin, coupling or field only to nearby sites across the ring closure too, leaving all others bit-for-bit alone.",
  ["inputs", "histories"], "all even rings, all shifts and reflections, all sites for a local change, all drives compatible with the symmetry",
  "Tests use identical spins without couplings, so that site order, wrap-around and neighbours do not matter.",
  [SC], [("even_omega / odd_omega periodic closure", SC)], None, ["spins after update"])
p("F01", "The drive has the configured shape, period and support",
  "The drive acting at time t is (cos, sin, 0), (cos, 0, 0) or (cos, e sin, 0) of 2 pi t / tau for the circular, uniaxial and elliptic drives, the constant subsystem field for the static drive, and zero for none; it acts on exactly the first ssize spins, at negative times as well. Both the total energy and the subsystem energy use the drive at the current time.",
  ["inputs", "configurations"], "all drive kinds, tau of any size and sign, e, times of either sign, ssize from 0 to hsize, in both chain kinds",
  "Every test sets the drive to none or evaluates nothing that depends on it.",
  [SC, SL, CF], [("h_ext", SC), ("h_ext", SL), ("DriveType", CF)], None,
  ["energies as functions of t", "update"])
p("E01", "Energies are the Hamiltonian's, per site, on the periodic ring",
  "The total energy (both ways of computing it) is minus the sum over all ring bonds of S_j J_j S_{j+1} plus the sum of S_j times its field (static, plus drive on the subsystem), divided by the ring length; the Monte-Carlo total energy is the same without drive. The subsystem energy sums its ssize-1 inner bonds and the fields of the sites starting them, drive included, divided by ssize-1; the Monte-Carlo subsystem energy sums all ssize static-field terms, the inner bonds and its stated closing bond, divided by ssize.",
  ["inputs", "configurations"], "all spins, couplings, fields, hsize >= 2, 2 <= ssize <= hsize, drives and times",
  "Tests check the field term of one spin and an average energy to 2 percent.",
  [SC], [("total_energy, total_energy2, mc_total_energy, system_energy, mc_system_energy", SC)], None, ["return values"])
p("E02", "Magnetisations, spectrum and boundary term are exact sums",
  "The subsystem magnetisation is the vector sum of the first ssize spins and the total one that of all spins. The spectrum of an even ring lists, from wavenumber -pi upwards, the squared moduli of the discrete Fourier transforms of the three components summed, so that it is non-negative, sums to the ring length times the summed squared spin lengths, and does not change when the ring is translated. The boundary term of a ring is 2/beta times the sum of Omega.S, minus the sum of |S|^2 |Omega|^2 - (Omega.S)^2, over the first and last spin S of the subsystem, Omega being the exchange field of its inner neighbour minus its own static field.",
  ["inputs"], "all spin configurations, all even hsize, all ssize",
  "Neither quantity is touched by a test.",
  [SC, SL], [("m, m_tot, energy_spectrum, boundary_term", SC), ("m, m_tot", SL)], None, ["return values"])
p("E03", "Rotating-frame and lab-frame effective energies follow their formula",
  "The rotating-frame effective energy per site is the exchange energy with the two in-plane couplings averaged, plus S^x on the subsystem, minus omega S^z everywhere; the lab-frame one is the bare exchange energy minus S^z/(2 omega) everywhere; both with omega = 2 pi / tau and, where in-plane couplings differ, minus a three-spin correction over 16 omega, which in the rotating frame counts every bond and every triple of neighbours once. The rotating-frame energy changes under a single-spin move by exactly the energy difference the matching Monte-Carlo update uses, and so does the lab-frame one for equal in-plane couplings.",
  ["inputs", "configurations"], "all spins, couplings (isotropic in plane or not), tau, ssize, hsize >= 3",
  "Neither function is called by a test.",
  [SC], [("mc_system_energy_rot, mc_system_energy_maglab", SC)], None, ["return values"])
p("M01", "Metropolis accepts a move with exactly the Boltzmann probability",
  "A Monte-Carlo update proposes a new direction for one spin and accepts it with probability min(1, exp(-beta dE)), dE being the change of the ring's total energy with static fields and without drive; on rejection nothing changes. This holds for every site (ring ends and subsystem edge included), state, coupling, field and beta, negative inverse temperatures (those of positive energy densities) included.",
  ["inputs", "schedules", "configurations"], "all states, sites, proposals, couplings, static fields, beta of either sign, hsize >= 2, every outcome of the random draws",
  "One test checks the mean energy of a clean field-free ring at beta = 1000 only, which downhill moves alone would pass.",
  [SC], [("metropolis_update", SC)], None, ["spins after metropolis_update under a controlled random source"])
p("M02", "Monte-Carlo proposals are uniform over sites and over the sphere",
  "Every Monte-Carlo update kind picks the site uniformly over the whole ring and proposes a direction uniformly on the unit sphere, independently of the site and of the current state.",
  ["inputs", "schedules"], "all ring lengths, all update kinds, long random histories at beta = 0",
  "The tests would pass with a sampler that proposes only near the pole or never visits some sites.",
  [SC, SL], [("metropolis_update*", SC), ("metropolis_update*", SL)], None, ["accepted spins at beta = 0"])
p("M03", "Effective-Hamiltonian Monte-Carlo updates use the right energy difference",
  "The rotating-frame, lab-frame, first-order and second-order Magnus updates each change at most one spin, to a unit vector, and accept with min(1, exp(-beta dE)), dE being the difference of that update's documented effective energy between new and old spin. They reduce to the bare exchange update where the corrections vanish, and moving there, back or through an intermediate direction costs consistent energies.",
  ["inputs", "schedules", "configurations"], "all states, sites, proposals, couplings, beta of either sign, tau, ssize; hsize >= 4",
  "None of these updates is called by a test.",
  [SC, SL], [("metropolis_update_rot_magnus, metropolis_update_maglab, metropolis_update_magnus, metropolis_update_mag_full", SC), ("metropolis_update_magnus", SL)],
  None, ["spins after the update under a controlled random source"])
p("M04", "Monte Carlo reaches the exact thermal averages",
  "Long Monte-Carlo runs give the exact canonical averages: the Langevin function for independent spins in any static field, and the exact energy of the isotropic ring at any inverse temperature of either sign, independent of the starting state.",
  ["histories", "configurations"], "beta from large negative over 0 to large, rings from 2 spins up, field directions and strengths, hot and cold starts",
  "One temperature (beta = 1000), one size, no field.",
  [SC, SL], [("metropolis_update", SC), ("metropolis_update", SL)], None, ["time averages of energy and magnetisation"])
p("I01", "New chains have the configured sizes, couplings, fields and clock",
  "A new chain has hsize unit spins, couplings and fields and starts at time -trel; couplings scatter normally and independently around (1, 1, lambda) with spread jvar, and static fields around hfield with spread hvar, with hs added on exactly the first ssize sites. Zero spread gives exactly the mean values, the configuration is kept as given, and a log file named from the file pattern and the run number is created exactly when logging is on.",
  ["configurations", "inputs"], "all configurations: sizes, lambda, jvar, hvar, hfield, hs, trel, file, number, log; both chain kinds",
  "The one test compares 0 <= 0, because the default field spread is zero.",
  [SC, SL], [("SpinChain::new", SC), ("SpinChainLangevin::new", SL)], None, ["public fields of the new chain", "created files"])
p("I02", "Initial spins follow the thermal distribution for the configured beta",
  "In a new chain the angle between consecutive spins is distributed as sin(a) exp(beta cos a), independently along the chain and isotropically around the previous spin, so that the mean energy of the isotropic field-free ring is 1/beta - coth(beta) per bond. This holds for every finite beta, infinite temperature (beta = 0) and very low temperature included; spins are never undefined.",
  ["configurations", "schedules"], "all finite beta >= 0 (and negative), all lengths, all random outcomes; both chain kinds",
  "Only the mean energy at beta = 2.88 is tested, unseeded, to 2 percent.",
  [SC, SL, SP], [("SpinChain::new inverse-transform sampling", SC), ("SpinChainLangevin::new", SL), ("Spin::rot_perp", SP)], None, ["spins of the new chain"])
p("I03", "The inverse temperature solver inverts the energy density",
  "For every energy density e strictly between -1 and 1 the solver returns the inverse temperature at which the isotropic field-free chain has that energy, 1/beta - coth(beta) = e, to an accuracy far below sampling noise: positive for negative energies, zero at zero and negative above. The result decreases with increasing e, and both chain kinds agree.",
  ["inputs"], "all e in (-1, 1)", "The solver is not tested at all.",
  [SC, SL], [("SpinChain::solve_beta", SC), ("SpinChainLangevin::solve_beta", SL)], None, ["return value"])
p("C01", "Configurations survive writing and reading, with defaults for what is absent",
  "Writing any configuration to TOML and reading it back gives the same configuration; a file naming only some options gives those values and the defaults for the rest, whatever the order, and unknown options are ignored. A missing file yields the default configuration and leaves a default config.toml that reads back as such; malformed or ill-typed files are refused and never silently replaced by defaults or overwritten.",
  ["inputs", "configurations"], "all configurations with finite values, all subsets and orders of options, all drive kinds, malformed texts; both readers",
  "No test reads or writes a configuration.",
  [CF, SC, SL], [("serde derive with default", CF), ("SpinChain::read_config", SC), ("SpinChainLangevin::read_config", SL)], None, ["returned Config", "config.toml"])
p("L01", "Noise-free Langevin dynamics are those of the damped open chain",
  "The Langevin step is the even-odd-even step of an open chain: no coupling joins the last spin to the first, the end spins feel in addition the damping term -gamma S x Omega and the thermal kicks, and the drive of the subsystem is taken at the end of the step. With zero coupling gamma to the bath it conserves the open-chain energy without drive and is reproducible; interior spins never feel damping or noise directly.",
  ["inputs", "configurations", "histories"], "even lengths >= 2, any spins, fields, drives, dt, gamma with infinite beta (no noise) or gamma = 0",
  "The Langevin tests that run dynamics switch the couplings off and look at an interior spin.",
  [SL], [("SpinChainLangevin::update, even_omega, odd_omega, cross", SL)], None, ["spins, t after update"])
p("L02", "The Langevin bath damps and kicks in fluctuation-dissipation balance",
  "Each step kicks the two end spins by independent isotropic Gaussian rotations of zero mean and variance 2 gamma dt / beta per component, however large, fresh every step; without noise the bath only removes energy. Together they drive the open chain to the canonical averages at inverse temperature beta, whatever the start.",
  ["histories", "configurations", "schedules"], "gamma, beta, dt over decades, long histories, all starts",
  "No test looks at the noise, at dissipation or at the temperature reached.",
  [SL], [("SpinChainLangevin::update noise", SL), ("even_omega / odd_omega LLG term", SL)], None, ["spins after update"])
p("L03", "Langevin chain energies, observables, log and Monte Carlo are consistent",
  "The Langevin chain's total and subsystem energies, magnetisations and boundary term equal their formulae for every state, its log has a header and then one line per call with exactly those values, and its Monte-Carlo update accepts with the Boltzmann probability of the field-free ring exchange energy, changing at most one spin.",
  ["inputs", "configurations", "schedules"], "all states, even or odd lengths >= 2, drives, times, gamma, beta",
  "One field term and one average energy are tested.",
  [SL], [("total_energy, total_energy2, system_energy, boundary_term, m, m_tot, log, metropolis_update", SL)], None, ["return values", "log file"])
p("G01", "Log lines report the state at the moment of the call, completely",
  "Each log call appends exactly one line whose thirteen columns are the time, total energy, subsystem energy, subsystem magnetisation per spin, total z magnetisation per spin, and the two spins at one and three quarters of the subsystem, at full precision. The profile log writes one line per inner subsystem site with time, index, bond-centred energy and spin, then a blank line; with logging off nothing is written and no file is made.",
  ["inputs", "histories", "configurations"], "all states, sizes, times and sequences of logging and evolution",
  "No test reads a log file.",
  [SC], [("SpinChain::log, log_ext", SC)], None, ["log file contents"])
p("B01", "Runs write one fresh log each and record themselves in config.toml",
  "A simulation (plain, profile, response or Langevin) with n runs creates the logs numbered offset to offset+n-1 from the file pattern, each with its complete time series, whatever the number of threads; it then rewrites config.toml as the configuration it used with offset advanced by n. Several kinds of run asked for on one command line are made one after the other, each with numbers of its own. Repeated invocations therefore never overwrite earlier logs, a foreign file under a name to be written is replaced entirely, and other files in the directory are left alone.",
  ["configurations", "schedules", "histories"], "all runs, threads, offset, file patterns, modes; sequences of invocations in one directory",
  "The binary is only compiled by the tests, never run.",
  [OBS, MAIN], [("run_sim, run_ext, run_sim_response, run_langevin", OBS)], None, ["files in the working directory"])
p("B02", "Logged times cover the run on the right grid, stroboscopically at periods",
  "A run logs its initial state and then every step until the final time is reached, at times spaced by the time step; with stroboscopic logging (for periods that are a multiple of the step) it logs after the initial state exactly the steps that complete a whole number of drive periods. The response run starts at minus the final time and the negative part of a run is treated like the rest.",
  ["configurations", "histories"], "all t, dt, tau, trel, modes, strob on and off; tau and trel multiples of dt when stroboscopic",
  "The binary is never run by the tests.",
  [OBS], [("run_sim / run_ext / run_sim_response / run_langevin loops, tau_steps", OBS)], None, ["first column of the logs"])
p("B03", "Averaging writes the line-by-line mean over all logs",
  "The averaging mode reads every file matching the log pattern, skips each file's first line, and writes as line i of avg.dat the column-wise arithmetic mean over exactly those files that have a line i, in order. Inputs are not modified and the result does not depend on their order.",
  ["inputs"], "any number of logs, unequal lengths, any finite values and column counts",
  "The binary is never run by the tests.",
  [OBS, MAIN], [("average", OBS)], None, ["avg.dat"])
p("B04", "Two-point averaging correlates every time with the time-zero line",
  "The two-point mode multiplies each column except the time of every log line by the same column of that file's line at time zero and writes the line-by-line mean over all logs to two-point.dat, skipping each file's first line. Files of unequal length contribute to the lines they have.",
  ["inputs"], "any number of logs with one time-zero line each, at any position after the first line",
  "The binary is never run by the tests.",
  [OBS, MAIN], [("two_point_average", OBS)], None, ["two-point.dat"])
p("B05", "Sampling modes write every requested sample, whatever the thread count",
  "The Monte-Carlo modes append exactly mc_points complete lines to their live file, and the histogram and trajectory modes exactly the requested number of samples, for every number of threads, before the program exits; every line is physically consistent (unit spins, bounded magnetisations, energies matching). The Monte-Carlo profile writes one line per site and the dynamical profile a file of such lines per sampling time, each the mean over all points or runs, with the bond-centred energy of the site.",
  ["configurations", "schedules"], "mc_points, threads (more, fewer, non-dividing), hsize, ssize, pre-existing files",
  "The binary is never run by the tests, and its writer threads race with process exit.",
  [OBS, WR], [("run_mc, run_mc_magnus, run_mc_profile, gen_hist_dynamics, gen_single_traj", OBS), ("write_in_bg, profile_in_bg", WR)], None, ["mc_live.dat, mc_profile.dat, dyn-hist-t-*.dat, hist-st-t-*.dat"])
p("B06", "Temperature fits find the ensemble with the requested energy",
  "Each fitting mode appends one line with the inverse temperature, within the search range, at which its Monte-Carlo ensemble has the requested energy density, to sampling accuracy; an unattainably low or high target gives the corresponding end of the range. The observables written with it are, when the subsystem is the whole ring, the averages of that ensemble. The high-frequency mode writes the averages of its ensemble at the given inverse temperature.",
  ["inputs", "configurations"], "target energies across and beyond the attainable range, tau, sizes",
  "The binary is never run by the tests.",
  [OBS, MAIN], [("find_beta, find_beta2, find_betah, find_beta_rot, find_beta_maglab, get_obs*", OBS)], None, ["betat.dat, betat-rot.dat, betat-maglab.dat, beta.dat"])
p("B07", "Command-line options override the configuration as documented",
  "The period and inverse temperature given on the command line replace those of the configuration for the run, whatever their value, in every mode, the inverse temperature otherwise being solved from the configured energy density; a period scan accepts the documented comma-separated list and appends one line per period with the state after the requested number of periods. Help and description output document the options and leave results untouched.",
  ["inputs", "configurations"], "all tau, beta, lists of periods, step counts, modes",
  "The binary is never run by the tests.",
  [MAIN, OBS], [("Args, main", MAIN), ("run_tau", OBS)], None, ["config.toml, evt*.dat, stdout"])
p("B08", "A run's log is the exact evolution of its logged initial state",
  "In every simulation mode the logged series is the time evolution, by the configured couplings, fields and drive, of the state on its first line: replaying the dynamics from that line reproduces every later line, through the switch-off in the response mode as well. The initial state is a thermal state of the undriven ring at the configured inverse temperature, negative ones included.",
  ["configurations", "histories"], "two-spin rings (whose log shows the whole state), all drives, fields, lambda, tau, dt, t, trel; all modes",
  "The binary is never run by the tests.",
  [OBS, SC], [("run_sim, run_sim_response", OBS), ("SpinChain::update", SC)], None, ["log files"])
p("B09", "Runs, threads, samples and invocations are independent realisations",
  "Every run of a simulation, every thread of a Monte-Carlo mode, every shot of the dynamics histogram and every invocation of the program starts from a thermal state of its own and has couplings and fields drawn afresh for it: no two of them ever share a state or their disorder, or are correlated, whatever the numbers of runs, threads and samples, and also where the same configuration is run again. Couplings and fields keep the scatter jvar and hvar in all of them.",
  ["configurations", "histories", "schedules"], "all run and sampling modes, numbers of runs, threads and invocations, jvar, hvar, beta",
  "The binary is never run by the tests, and whether two runs share anything shows only by comparing many of them.",
  [OBS, SC], [("run_sim, run_ext, run_sim_response, run_langevin, run_mc, run_mc_magnus, gen_hist_dynamics", OBS), ("SpinChain::new", SC)], None, ["log files, mc_live.dat, dyn-hist-t-*.dat"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
