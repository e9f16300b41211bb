#!/usr/bin/env python3
"""Writes /verif/known_findings.jsonl (listed findings and record of repaired defects)."""
import json, os
K = [("E03", "maglab-energy-three-spin",
      "mc_system_energy_maglab subtracts a three-spin correction (in-plane anisotropy squared over 16 omega; every bond counted twice, every triple three times) that metropolis_update_maglab does not have, so for unequal in-plane couplings the energy fitted by -E is not that of the sampled ensemble")]
F = [
 ("S02", "9cd10cb", "a spin in a zero field became NaN (division by the field's length)"),
 ("U01", "9cd10cb", "chains with a spin in zero local field turned NaN for good"),
 ("S01", "c3ec3ec", "azimuth of spins with x = 0 was in the wrong quadrant, and NaN at the poles"),
 ("I03", "f347fd2", "solve_beta stopped up to 0.5 % off, or did not end for some energies near 0"),
 ("I02", "0775d10", "initial spins were NaN for beta = 0 and for beta above 709; biased for beta above about 18"),
 ("B02", "ad500f5", "stroboscopic logging used truncated step counts: samples off the period, every step before t = 0, none or a division by zero for short periods"),
 ("B05", "ad500f5", "trajectory and histogram sampling used truncated step counts"),
 ("B02", "a7f0c03", "the response run stamped its initial state with time -trel instead of minus the final time"),
 ("B05", "fb2f7e4", "a trajectory wrote one sample too many when the step divides the period, other numbers for other steps, and samples off the period"),
 ("B05", "c639461", "Monte-Carlo, histogram and period-scan lines were lost when the program exited before its writer thread"),
 ("B07", "ebce789", "-n refused the documented comma-separated list"),
 ("B06", "72f7681", "-E refused a negative energy density"),
 ("B07", "34edbc3", "-b and ednsty were ignored by -e, -n, -A, -D and -H, which ran at the beta of the file"),
 ("B07", "671e3d7", "--config-desc printed nothing"),
 ("B01", "db4dbf4", "analysis modes truncated the log files of earlier runs"),
 ("M03", "abe2ae1", "first-order Magnus updates compared with the old spin's S^z and weighed the correction by omega/2 instead of 1/(2 omega)"),
 ("M03", "aabf5b3", "first-order Magnus updates dropped or added the correction of the wrong sites at the subsystem edges"),
 ("M03", "9943428", "second-order Magnus update used the second-left neighbour in a term centred on the right one"),
 ("C01", "2588e34", "a configuration file that is not UTF-8 was overwritten with the defaults"),
 ("E03", "0080b78", "rotating-frame energy counted each bond of the correction twice and each triple three times"),
 ("M01", "935a3e7", "all Monte-Carlo updates accepted every move that lowers the energy also at negative beta, so that positive energy densities gave infinite-temperature states"),
 ("M03", "935a3e7", "effective-Hamiltonian updates at negative beta accepted everything"),
 ("M04", "935a3e7", "at negative beta the ring stayed at infinite temperature"),
 ("L03", "935a3e7", "the Langevin chain's Monte-Carlo update at negative beta accepted everything"),
 ("B01", "f00078a", "a run asked for together with --ext overwrote the profile logs"),
]
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.jsonl")
with open(p, "w") as f:
    for a, k, w in K:
        f.write(json.dumps({"status": "known", "property": a, "key": k, "what": w}) + "\n")
    for a, c, w in F:
        f.write(json.dumps({"status": "fixed", "property": a, "commit": c, "line": "fixed: property=%s %s %s" % (a, c, w)}) + "\n")
