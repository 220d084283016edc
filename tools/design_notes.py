NOTES = {
'C01': 'The duration and unit go through the real `StrsSpec`, `TestSpec.append_steps` and `SimReport.convert_report_time`; the duration is a symbolic real, '
       'the oracle is `number * seconds per unit` from the statement, rounded to microseconds. Wrong names must raise `UserConfigError`.',
'C02': 'Whole simulations of the real `simulate` with an uninterpreted mechanism `f(time, conditions, latents)`. Oracle: an independent statement of the accumulation law - after each phase there is, for each '
       'device, a time `t` with `f(t, conditions) = value before` and the value is `f(t + duration in the unit)`. Split and unsplit histories are compared as a relational property.',
'C03': 'As C02 with mechanisms that are flat under some conditions (below threshold, saturated, floor); the oracle says the value is the one before the phase.',
'C04': 'Failure mechanisms with an uninterpreted equation whose every outcome (stay, fail, fail to infinity) is symbolic per phase and device; the oracle is a per-device latch.',
'C05': 'Draws are arbitrary symbols labelled with their layer; the value of device (l, c, d) must be the term `base op lot[l] op chip[l,c] op dev[l,c,d]`. All 8 layer subsets, both operations, reconfiguration sequences.',
'C06': 'As C05 for the environment (`batch`, `chip[l,c]`, `dev[l,c,d]`).',
'C07': 'One step generates conditions for several parameters; the terms of two parameters may differ only in the device draw, and each gets exactly the conditions its models name.',
'C08': 'Parameter, mechanism, shift and initial value equations are different uninterpreted functions, so a wrong quantity in a slot yields a different term.',
'C09': 'The measurement pipeline on symbolic values and draws: rounding to significant figures is specified as "the nearest multiple of 10^k", with the decade chosen by the magnitude (case split by the solver), then the range.',
'C10': 'Each device value is its own symbol; a row labelled (lot, chip, device) must hold the symbol of this device.',
'C11': 'Durations, start time and conditions are symbolic; the oracle recomputes the timeline as a running sum.',
'C12': 'Durations and loop durations are symbolic; oracle: n repetitions with (n-1)*total < requested <= n*total; the warning exactly when n*total mod requested is not 0.',
'C13': 'Requests per parameter are symbolic integers 1 to 3; oracle: coverage of dependencies, neutral values, values as a term of the initial-value equation and own draws.',
'C14': 'Deep snapshots of the models before and after (terms compared by the solver), two simulations in a row, and relational runs with and without extra measurements.',
'C15': 'Symbolic cells and times through export, load, convert; the JSON text of a table is a token (stub), everything else is the real code. The oracle is equality with the original rows and physical times.',
'C16': 'The same uninterpreted physical law `g(seconds)` written for different units at different levels; all simulated values must be equal to the law of the physical time.',
'C17': 'Uninterpreted standard draws `z(seed, i)`; the samples must be `loc + scale*z`, and the PyMC and Pyro terms must have the same mean and spread.',
'C18': 'Scalar-only equations raise `ValueError` on arrays; the result must be the same terms as the array equation gives.',
'C19': 'The real minimiser is unrolled with function values as symbols constrained to be unimodal; the solver shows bracket invariants, best-point and precision claims.',
'C20': 'Symbolic hours, voltages, temperatures and counts; oracle from the statement (sum of phases, positions and conditions of measurements, rejection of intervals that do not fit).',
'C21': 'Symbolic inputs and standard draws; oracle: the numbers and formula in the statement.',
'C22': 'PyMC/Pyro are recorded as terms; the term is evaluated on symbolic parameters and compared with the combination of the layers; afterwards sampling and exporting again give the same terms.',
'C23': 'Sequences of `configure_logger` with symbolic levels; the oracle is the list of handlers by kind.',
'C24': 'Each rejected configuration and the valid one next to it, with all other values symbolic; raising and not raising are both asserted.',
'C25': 'The circuit equation is uninterpreted; the row of a device must hold the term with this device\'s own degraded values, conditions and latents.',
'C26': 'Not applicable: a limit statement about frequencies of pseudo-random numbers made by compiled generators; there is no assertion over the values of one execution for an SMT solver to decide. '
       'Listed under `not_applicable`. C17 decides the part that is gerabaldi\'s own (which distribution is asked for each draw).',
'C27': 'A state in which every initial, current, mechanism and latent value of every device is its own symbol goes through the real `simulate`; the oracle computes every reported row from these symbols, '
       'device by device, and the time from the elapsed time of the state.',
'C28': 'Each registered variation model and instrument has its own symbolic draws; every reported value must be the target (or parameter value) plus the draws of what was registered under its own name and nothing else.',
'C29': 'The equation is a function that records its arguments and returns a symbol; the term given to PyMC (recorded as in C22) must contain this symbol, and the arguments must be the exported latents (decided as in C22) and the observed symbols.',
'C30': 'Two simulations with the same symbolic draws: the full device, and one with parameters left out, not measured or everything listed in reverse; each common row must have equal terms.',
}
COST = {f'C{i:02d}': c for i, c in enumerate('2 19 10 3 1 2 1 2 29 3 1 21 3 17 3 2 1 4 36 3 4 2 8 4 3'.split(), 1)}
COST |= {'C27': 4, 'C28': 2, 'C29': 2, 'C30': 2}
COST = {k: f'quick about {v} s' for k, v in COST.items()}
