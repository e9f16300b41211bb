_s = "search over generated cases only; nothing is exhaustive"
NOTE = {
 "S01": ("generated spins, angles and vector pairs against closed forms", "Random search over magnitudes, axes, poles and near-parallel pairs with rounding-level tolerances; not exhaustive."),
 "S02": ("generated rotations against Rodrigues' formula and group laws", "Random search over fields, times and repetition counts with rounding-level tolerances."),
 "U01": ("stateful operation sequences with invariants and a fresh-object differential", "Random histories up to tens of thousands of operations; norm, finiteness, frame conditions after every operation."),
 "D01": ("one-step differential against a reference model along generated histories", "Random rings up to a few hundred sites; reference step written independently."),
 "D02": ("conservation and work identity on generated histories", "Random rings and drives; rounding-level tolerances grow with the number of steps."),
 "D03": ("forward/backward round trip on generated histories", "Random rings and drives with tolerances from the measured sensitivity."),
 "D04": ("convergence order against a Runge-Kutta reference on generated systems", "Random small rings; error ratios and absolute error against a fine RK4 solution."),
 "D05": ("metamorphic relations (shift, reflection, octahedral rotations, light cone)", "Random rings; light cone checked bit for bit."),
 "F01": ("drive read out through energies and one-step updates on generated states", "Random drives, times, periods, subsystem sizes, both chain kinds."),
 "E01": ("formula differential on generated states", "Random states; rounding-level tolerances."),
 "E02": ("formula differential and identities on generated states", "Random states; naive DFT as oracle."),
 "E03": ("formula differential and energy/update consistency on generated states", "One listed known finding (lab-frame three-spin correction); everything else is compared to rounding."),
 "G01": ("log files of generated histories parsed and recomputed", "Random states and call sequences; values compared at full precision."),
 "M01": ("acceptance probability extracted exactly under a scripted random source", "The random stream is controlled through a patched thread_rng; acceptance threshold found by bisection and compared with a global energy difference."),
 "M02": ("goodness of fit of generated proposal streams", "Chi-square and Kolmogorov-Smirnov tests with very small significance levels (fixed seeds)."),
 "M03": ("acceptance probability of each effective update extracted exactly under a scripted random source", "Energies written as global Hamiltonians independently of the update code."),
 "M04": ("long sampled histories against exact canonical averages", "Statistical tolerances of at least 6 standard errors."),
 "I01": ("generated configurations, exact values and goodness of fit", "Exact for zero spreads; statistical for the rest."),
 "I02": ("goodness of fit of initial states against the exact law", "Statistical with very small significance levels; inverse temperatures over many decades."),
 "I03": ("inverse relation on generated energies", "Random and extreme energies; accuracy 1e-6."),
 "C01": ("round trips and generated TOML documents", "Random configurations, subsets, orders and malformed texts."),
 "L01": ("noise-free differential against an open-chain model", "Random chains with gamma = 0 or infinite beta."),
 "L02": ("noise recovered from paired runs and tested for its law; long thermal averages", "Statistical with very small significance levels."),
 "L03": ("formula differential, parsed logs and exact acceptance probabilities", "Random states through a guarded hook to the couplings."),
 "B01": ("generated invocation sequences of the program in scratch directories", "About a hundred runs of the real program per quick check."),
 "B02": ("generated runs of the program, logged time grids recomputed", "About a hundred runs of the real program per quick check."),
 "B03": ("generated log files, averages recomputed", "Thousands of generated directories."),
 "B04": ("generated log files, two-point averages recomputed", "Thousands of generated directories."),
 "B05": ("generated sampling runs of the program, lines counted and checked for consistency", "Tens to a hundred runs of the real program per quick check."),
 "B06": ("generated fits against exact thermodynamics (transfer matrices)", "Tens of fits per quick check; tolerance set by the program's own sampling noise."),
 "B07": ("generated command lines, effects read from the written files", "Tens of runs of the real program per quick check."),
 "B08": ("generated runs replayed exactly from their logs", "Two-spin rings, whose log shows the whole state."),
 "B09": ("generated batches of runs and invocations, tested for shared states, correlations and shared disorder", "Two-spin rings; thousands of runs of the real program per quick check; sharing judged by coincidence, by correlations beyond 7 standard errors and by regression."),
}
