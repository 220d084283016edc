#!/usr/bin/env python3
"""Single source for properties.jsonl (run by hand after editing; the output is committed)."""
import json, pathlib

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': list(observe), 'hook_needed': None,
        },
    })


D, E, R, T, S, H = ('gerabaldi/models/devices.py', 'gerabaldi/models/phys_envs.py', 'gerabaldi/models/reports.py',
                    'gerabaldi/models/test_specs.py', 'gerabaldi/sim.py', 'gerabaldi/helpers.py')

prop('C01', 'A time value means the same physical time in every supported unit',
     'A duration given as a number with a supported unit name or alias (days/d, hours/h, seconds/s, milliseconds/ms, '
     'microseconds/us; hours when no unit is given) denotes exactly that much physical time, to microsecond '
     'resolution, both for a stress phase and for a loop duration; a (positive) duration given as a timedelta is kept as it is. '
     'Measurement times converted to a unit (hours when none is given) are that physical time divided by the unit. Any other unit name is '
     'rejected with a UserConfigError.',
     ['inputs'], 'every positive real-valued duration and every unit name or alias (and a set of names that are not units)',
     'Tests try the number 99 for four of the units and never a fractional, tiny or huge value; the mapping '
     'must be right for every number in every alias.',
     [H, T, R], [('unit alias map and second factors', H), ('duration normalisation', T), ('report time conversion', R)],
     observe=['StrsSpec(...).duration', 'TestSpec.append_steps', 'SimReport.convert_report_time'])

prop('C02', 'Wear accumulates consistently across changing stress phases',
     'For every sequence of stress phases and every mechanism whose degradation grows with time, each phase continues, '
     'for each device individually, the mechanism\'s curve under that phase\'s conditions from the time at which that '
     'curve equals the degradation accumulated so far. Hence every phase contributes its full duration exactly once '
     'in the mechanism\'s own time unit, splitting a constant-condition phase into sub-phases does not change the '
     'result, and a later phase never alters what earlier phases contributed (up to the accuracy of the numerical '
     'search for the equivalent time: about 0.001 time units and 0.1 %).',
     ['inputs', 'histories', 'configurations'],
     'all phase durations, condition values, latent values, initial values, numbers of devices and orders of phases',
     'Tests check two phases of one linear model at fixed numbers; the accumulation law must hold for every history of '
     'phases and every device\'s own latent values.',
     [S, D, 'gerabaldi/math/minimize.py'],
     [('stress step: equivalent time + duration, then re-evaluate', S), ('equivalent stress time back-calculation', D)],
     state=[('current mechanism values', 'degradation accumulated per device', S)],
     observe=['measurements reported by simulate'])

prop('C03', 'A phase that cannot degrade a device leaves its accumulated wear unchanged',
     'When a stress phase\'s conditions cannot produce degradation in a device (for example stress below the '
     'mechanism\'s threshold), the degradation that device has already accumulated is kept exactly, while other '
     'devices in the same phase go on degrading. Later phases continue from the kept value.',
     ['inputs', 'histories'], 'all thresholds, condition values, durations, and positions of the idle phase',
     'One demo has such phases with random values and checks only row counts; no test asserts the kept value.',
     [S, D, 'gerabaldi/math/minimize.py'],
     [('no-valid-equivalent-time mask', D), ('search converges to the upper bound on a flat residual', 'gerabaldi/math/minimize.py')],
     observe=['measurements reported by simulate'])

prop('C04', 'A hard failure is permanent, and failure checks have no memory of past phases',
     'Once a failure mechanism of a device has left its unfailed value, that value never changes again, whatever '
     'later phases compute. A mechanism of a device that has not failed yet takes in every phase exactly the value its equation '
     'gives for that phase\'s own duration and conditions and that device\'s latent values.',
     ['inputs', 'histories'], 'every outcome the failure equation can produce in every phase, for every device',
     'The one unit test uses three devices in one phase; permanence is a statement about all continuations of a history.',
     [D, S], [('failed state overrides the newly computed state', D), ('zero equivalent time for failure mechanisms', D)],
     observe=['measurements reported by simulate'])

prop('C05', 'Latent values combine lot, chip and device variation layers exactly',
     'Each sampled latent value equals the deterministic base value combined (by product for scaling, by sum for '
     'offset) with one draw per device, one draw shared by all devices of its chip and one draw shared by all chips of '
     'its lot (draws of a layer are assigned in lot, chip, device order); a layer that is not defined has no effect. This stays true after the variation type is switched or a '
     'layer is replaced or removed.',
     ['inputs', 'histories', 'configurations'],
     'all draws, all subsets of defined layers, both variation types, all numbers of lots, chips and devices, and any '
     'sequence of reconfigurations',
     'Tests use a counting sequence for a few layer combinations at (2,2,2); sharing must hold for arbitrary draws and shapes.',
     [D], [('layer draw shapes and combination order', D), ('neutral element of undefined layers', D)],
     observe=['LatentVar.gen_latent_vals', 'gen_init_state'])

prop('C06', 'Environmental conditions combine batch, chip and device variations exactly',
     'Each generated condition value equals the target value combined (by sum for offset, by product for scaling) with '
     'one draw shared by the whole batch, one draw shared by the devices of its chip and one draw of its own (draws of a '
     'layer are assigned in lot, chip, device order); an undefined layer has no effect, so an environment without variation applies exactly the target. This stays true '
     'after the variation type is switched or a layer is replaced or removed.',
     ['inputs', 'histories', 'configurations'],
     'all target values and draws, all subsets of layers, both types, all shapes, any sequence of reconfigurations',
     'Tests use counting sequences at a few shapes; exact layering must hold for arbitrary draws.',
     [E], [('batch, chip and device generation', E), ('neutral element of undefined layers', E)],
     observe=['EnvVrtnMdl.gen_env_vrtns', 'PhysTestEnv.gen_env_cond_vals'])

prop('C07', 'All parameters of a chip see the same batch and chip conditions',
     'Within one step the batch draw and the chip draws of a condition are shared by every parameter that depends on '
     'it, only the device draws differ; each parameter receives exactly the conditions that its models use in that '
     'kind of step, with one value per simulated (stress) or measured (measurement) device. A condition that is itself measured is '
     'observed by the requested number of independent sensors, each with its own chip-level and device-level draw on top of the shared '
     'batch draw.',
     ['inputs', 'configurations'], 'all draws, target values, parameter/condition dependency patterns and device counts',
     'Tests check one dependency pattern with counting sequences; sharing across parameters is never asserted for arbitrary draws.',
     [E, D], [('condition value generation', E), ('dependency filtering', D)],
     observe=['PhysTestEnv.gen_env_cond_vals'])

prop('C08', 'Parameter values are composed from initial value, mechanisms and shift',
     'After every stress phase a degrading parameter\'s true value is its equation applied to its original initial '
     'value, the current value of every one of its mechanisms, its own latent values and a neutral conditional shift. A '
     'measurement reports the same equation applied to the true value with the conditional shift under the '
     'measurement\'s own conditions and neutral mechanisms. By default the equation is the plain sum.',
     ['inputs', 'histories', 'configurations'],
     'every parameter equation, mechanism outcome, shift function, latent value and sequence of steps',
     'Tests evaluate one concrete equation once; which quantity goes into which slot must be right for every equation.',
     [D, S], [('degraded value composition', D), ('conditional shift composition', D)],
     observe=['measurements reported by simulate'])

prop('C09', 'An instrument reports error, then precision, then range, for every value',
     'A measured value is the true value plus one error draw of its own, rounded to the instrument\'s number of '
     'significant figures, and finally limited to the instrument\'s range; each effect is absent when it is not '
     'configured, so an ideal instrument reports the true value unchanged. Values come back in order and in the same '
     'kind of container (number, one-dimensional array or Series) that was passed in.',
     ['inputs', 'configurations'], 'all true values, error draws, precisions, ranges and container kinds',
     'Tests measure about ten fixed numbers; rounding to significant figures and range limits must hold for every magnitude and sign.',
     [E], [('measure pipeline', E)], observe=['MeasInstrument.measure', 'measurements reported by simulate'])

prop('C10', 'Every reported measurement carries the value of exactly the device it names',
     'Each measurement step yields exactly one row for each requested device of each chip of each lot and each '
     'requested sensor, in the report order, and the row labelled with a device, chip and lot holds the value of '
     'precisely that device, with the parameter name, step number and elapsed time of that step. When fewer devices '
     'are measured than are simulated, the same first devices are measured each time.',
     ['inputs', 'histories', 'configurations'], 'all device values, all numbers of lots, chips and devices, all measurement subsets',
     'Tests check row counts and single cells of square shapes; a permuted or repeated label needs distinct values in non-square shapes.',
     [R, S, D], [('label construction', R), ('measurement step', S), ('device dimension truncation', D)],
     observe=['SimReport.measurements'])

prop('C11', 'The test timeline is executed and reported completely and in order',
     'A simulation executes every step of the test specification once, in order, and the summary has one row per step '
     'with its number, name, type, target conditions, duration and start and end times. Stress phases follow each '
     'other without gap or overlap starting from the initial state\'s elapsed time, and measurements take no time.',
     ['inputs', 'histories'], 'all step sequences, durations and conditions, and any starting elapsed time',
     'Tests look at single summary cells of one fixed sequence.',
     [S, R, T], [('step loop', S), ('summary rows', S), ('step iteration', T)],
     state=[('elapsed time', 'accumulated stress time', 'gerabaldi/models/states.py')],
     observe=['SimReport.test_summary', 'SimReport.measurements'])

prop('C12', 'Looped test steps cover the requested duration with whole repetitions',
     'Appending steps for a duration adds the smallest whole number of repetitions of the given steps whose total '
     'stress time reaches it, in order, after the existing steps and without altering them or the lists passed in; the user is warned exactly when the added stress time '
     'is not a whole multiple of the requested duration. Appending without a duration adds the '
     'steps once. The number of samples needed of each parameter is the largest number any measurement asks for.',
     ['inputs', 'histories'], 'all step durations, loop durations, step lists and sample counts',
     'Tests use four fixed duration pairs; off-by-one repetitions depend on the exact ratio of durations.',
     [T], [('looped append', T), ('sample requirement', T)],
     observe=['TestSpec.steps', 'TestSpec.calc_samples_needed'])

prop('C13', 'The initial state provides every parameter with enough independent devices',
     'Before any stress every parameter of the device model has state for at least as many devices on every chip of every lot as the test '
     'measures, and for as many as any derived parameter that uses it. Current values equal initial values, '
     'every mechanism starts at its neutral value, initial parameter values come from the initial-value model and '
     'latent values from their own models, for every device separately.',
     ['inputs', 'configurations'], 'all device models, sample counts, numbers of chips and lots, and draws',
     'Tests build two models and look at four numbers; coverage of dependencies is a statement over all models and counts.',
     [S, D, 'gerabaldi/models/states.py'], [('dependency driven device counts', S), ('state generation', D)],
     observe=['gen_init_state', 'simulate'])

prop('C14', 'Simulating or measuring never alters the models, the test or the initial state',
     'Running a simulation leaves the test specification, device model, environment and a supplied initial state exactly '
     'as they were, so the same objects can be simulated again and, without random variation, give the same '
     'report. A measurement has no effect on later results: adding or repeating measurement steps leaves all other reported values '
     'unchanged.',
     ['inputs', 'histories'], 'all models, steps, values and insertions of measurement steps',
     'Tests never compare models or state before and after; interference needs a later observation to show.',
     [S, 'gerabaldi/models/states.py', D], [('state deep copy', S), ('separate report and state', S)],
     observe=['objects passed to simulate', 'SimReport'])

prop('C15', 'A report survives export to JSON and reloading unchanged',
     'A report with at least one measurement, exported in any supported time unit and loaded again has the same name, description, measurement rows '
     'and summary rows, with all times equal to the original physical times and all numbers equal to the originals to at least 15 decimal places; '
     'exporting does not change the report. This also holds for a report whose measurement times were converted to a '
     'unit first, and for re-exporting a loaded report. (Numbers are finite; names and descriptions are texts that do not look like numbers or dates.)',
     ['inputs', 'histories', 'configurations'], 'all measured values, times, condition values and units, and orders of convert, export and load',
     'The tests only look at the unit label of an export and never load one.',
     [R, H], [('export', R), ('load', R), ('time conversion', H)],
     observe=['SimReport.export_to_json', 'SimReport(file=...)'])

prop('C16', 'Each mechanism uses the nearest time unit specified above it',
     'A mechanism\'s equation receives time in the mechanism\'s own unit if it has one, otherwise in its parameter\'s unit, '
     'otherwise in the device\'s unit, otherwise in hours (a model object shared by devices with different units is outside this). Expressing the same physical law in another unit, at any '
     'level, gives the same simulated degradation and failures for every test length.',
     ['inputs', 'configurations'], 'all unit assignments at the three levels, all durations and rates',
     'Tests check three fixed assignments and durations; unit independence must hold for all durations, including those that are large numbers in small units.',
     [D, S, H], [('unit propagation', D), ('duration conversion in the stress step', S), ('no-degradation threshold', D)],
     observe=['measurements reported by simulate'])

prop('C17', 'Random variables sample exactly the distribution they describe',
     'Every draw of a random variable is taken from the distribution with the parameters the variable has at that '
     'moment, as many draws as requested, and the numpy, PyMC and Pyro forms describe the same distribution (same mean '
     'and spread or same bounds). A deterministic variable always gives its value, and a variable given a test seed is reproducible '
     'for every seed.',
     ['inputs', 'histories', 'configurations'], 'all distribution parameters, seeds, quantities, and parameter changes between draws',
     'Tests check one parameter set and one seed per distribution.',
     ['gerabaldi/models/random_vars.py'], [('parameter mappings', 'gerabaldi/models/random_vars.py'), ('seeding', 'gerabaldi/models/random_vars.py')],
     observe=['RandomVar.sample', 'RandomVar.get_cbi_form'])

prop('C18', 'Equations that cannot take arrays give the same results device by device',
     'A mechanism, shift or degrading-parameter equation that only works on single numbers is evaluated once per device with '
     'exactly that device\'s time, conditions, latent values and mechanism values, and gives the same reported values as the equivalent '
     'array equation. Of an array or nested list argument each evaluation gets the element of its device; numbers and tuples are passed on as they are, '
     'also inside nested mappings.',
     ['inputs', 'configurations'], 'all equations, values and shapes',
     'One test loops a product over a 3x2x2 array; correspondence of every element of every argument needs arbitrary values.',
     [H, D], [('element-wise fallback', H), ('fallback call sites', D)],
     observe=['measurements reported by simulate'])

prop('C19', 'The bounded minimiser returns the minimum of every unimodal function',
     'For every unimodal function on a search interval the minimiser returns a point within the interval (to '
     'tolerance) that is at least as good as every point it tried and, when it stops before its iteration limit, '
     'within the requested precision of the true minimum. On a flat function it goes to the upper end, each '
     'element of an array is solved on its own, and the logarithmic search solves the same problem in the exponent.',
     ['inputs'], 'all unimodal functions (as arbitrary function values at the probed points), intervals and precisions, a bounded number of iterations',
     'The minimiser has no test of its own; the two tests that reach it solve smooth monotone problems.',
     ['gerabaldi/math/minimize.py'], [('bracket update', 'gerabaldi/math/minimize.py'), ('interpolation and golden section steps', 'gerabaldi/math/minimize.py')],
     observe=['gerabaldi.math.minimize'])

prop('C20', 'The HTOL recipe builds the test it describes for every configuration',
     'The HTOL test starts and ends with a room-temperature measurement at nominal voltage and its stress phases add up to exactly the '
     'requested number of hours at the stress temperature (in kelvin) and at nominal voltage times the stress factor. With an '
     'interval shorter than the test there is a stress-condition measurement before the first phase and after every interval; '
     'an interval that does not divide the duration is rejected with a UserConfigError.',
     ['inputs'], 'all durations, intervals, voltages, factors, temperatures, chip and lot counts',
     'Tests build three configurations.',
     ['gerabaldi/cookbook/test_specs.py', T], [('htol construction', 'gerabaldi/cookbook/test_specs.py')],
     observe=['htol(...)'])

prop('C21', 'Prebuilt environments and models behave as documented for all conditions',
     'The ideal environment applies every condition exactly and measures every value exactly. The voltage and temperature environment '
     'adds zero-centred normal offsets to voltage (standard deviation 0.0005 per chip, 0.0003 per device, none per batch) and to temperature (0.5 per batch, 0.2 per chip, 0.05 per device); '
     'its voltmeter adds an error of standard deviation 0.0002, rounds to 3 significant figures and reads within 0 to 12, and its temperature sensor converts to Celsius '
     'with an error of standard deviation 0.2, rounds to 2 significant figures and reads within -40 to 180. The NBTI model is the JEDEC JEP122H equation 5.3.1 for all inputs: '
     'a_0 * exp(e_aa / (k * temp)) * vdd^alpha * time^n with k = 8.617e-5 eV/K and by default normally distributed latents a_0 (0.006, 0.0002), '
     'e_aa (0.05, 0.0002), alpha (3.4, 0.004) and n (0.21, 0.005).',
     ['inputs'], 'all condition values, draws and model inputs',
     'Tests evaluate one number per model.',
     ['gerabaldi/cookbook/test_envs.py', 'gerabaldi/cookbook/mech_mdls.py'],
     [('environment definitions', 'gerabaldi/cookbook/test_envs.py'), ('NBTI equation', 'gerabaldi/cookbook/mech_mdls.py')],
     observe=['ideal_env', 'volt_and_temp_env', 'jedec_nbti_mdl'])

prop('C22', 'CBI export mirrors a latent variable and leaves it unchanged',
     'Exporting a latent variable combines the exported device, chip and lot distributions by the variable\'s own '
     'operation, recentred by its deterministic value, leaving out undefined layers, under the variable\'s current name (also after a layer was replaced). A successful export has no lasting '
     'effect: afterwards the variable samples exactly as before and exports the same again. Deterministic variables '
     'and unsupported frameworks are rejected.',
     ['inputs', 'configurations', 'histories'], 'all distribution parameters and base values, all subsets of layers, both operations and frameworks',
     'No test exports a latent variable.',
     [D, 'gerabaldi/models/random_vars.py'], [('export', D), ('recentring and restoring', D)],
     observe=['LatentVar.cbi_export', 'LatentMdl.export_to_cbi'])

prop('C23', 'A custom log handler replaces the default one of its kind',
     'After logging is configured with a custom stream or file handler exactly that handler of its kind remains on the logger, handlers of the '
     'other kind are untouched, and a given level is applied. Unspecified options change nothing.',
     ['configurations', 'histories'], 'all sequences of configuration calls with any combination of options',
     'Logging configuration has no test.',
     [H], [('handler replacement', H)], observe=['configure_logger', 'logging.getLogger("gerabaldi").handlers'])

prop('C24', 'Invalid configurations are rejected instead of silently simulated',
     'A stress phase without duration, a loop without duration or without any stress phase, a latent variable without any value, '
     'an unknown variation type, an unnamed single mechanism or parameter model, condition generation without device counts, an initial state without device counts and a measurement of '
     'something that is neither a parameter nor a condition of the step each raise the documented error, whatever the '
     'other values are. Valid configurations of the same shape never raise.',
     ['inputs', 'configurations'], 'all values around each rejected configuration',
     'Tests trigger a few of the errors at one value each and do not show that neighbouring valid values are accepted.',
     [T, D, E, S], [('constructor checks', T), ('latent and model checks', D), ('measurement dispatch', S)],
     observe=['exceptions raised by the public constructors and by simulate'])

prop('C25', 'A derived parameter is computed from its own device and conditions',
     'A measured derived (circuit) parameter of a device equals its equation applied to that same device\'s current degraded '
     'parameter values, that device\'s sampled conditions and latent values, one value per requested device on every '
     'chip of every lot, also when fewer derived values are measured than devices are simulated.',
     ['inputs', 'histories', 'configurations'], 'all equations, values, shapes and measured counts',
     'Tests measure derived parameters only with equal counts in a (2,2,2) layout.',
     [D, S], [('circuit value computation', D), ('measurement step', S)],
     observe=['measurements reported by simulate'])

prop('C26', 'Samples follow their distribution statistically',
     'The empirical distribution of the samples converges to the described distribution, and draws of different '
     'variables, layers and devices are statistically independent.',
     ['inputs'], 'all distributions and sample sizes',
     'A statistical limit statement; tests can only look at finitely many draws.',
     ['gerabaldi/models/random_vars.py'], [('numpy generators', 'gerabaldi/models/random_vars.py')],
     observe=['RandomVar.sample'])

prop('C27', 'A supplied initial state is the device population that is simulated',
     'When a simulation is given an initial state, the devices it simulates and measures are exactly those of the state: initial values, current values, '
     'accumulated mechanism values (also of devices that already failed) and latent values are taken from it device by device, nothing is sampled anew, time '
     'stamps count on from its elapsed time, and parameters with more or fewer devices than measured are handled as the state has them. The same '
     'state can start any number of tests, each from the same devices.',
     ['inputs', 'histories', 'configurations'], 'all values in the state, stress histories and measured counts, for states with the chips and lots of the test',
     'Tests always let the simulation generate the state.',
     [S, 'gerabaldi/models/states.py'], [('use of the state', S), ('state', 'gerabaldi/models/states.py')],
     observe=['measurements reported by simulate'])

prop('C28', 'Every name gets exactly the variation model and instrument registered for it',
     'Conditions vary by the variation model registered under their own name and measurements go through the instrument registered under the name of what is measured, '
     'whether models and instruments are given as a mapping or as a list, in any order, also when names contain one another, a condition has the name of a parameter\'s instrument, '
     'or one object is registered under several names. A name without variation model is applied exactly, a name without instrument is measured exactly.',
     ['inputs', 'configurations'], 'all registrations, targets, draws and errors',
     'Tests register one model per name with distinct names in mapping form and look at single numbers.',
     [E], [('registration and lookup', E)],
     observe=['measurements reported by simulate', 'PhysTestEnv'])

prop('C29', 'CBI export of a model is its equation over its latents and observed conditions',
     'Exporting a latent model for PyMC gives a normal distribution with the model\'s name and standard deviation 1 around the model\'s own equation, evaluated once with every latent variable\'s '
     'export and every observed condition under its own argument name, observed at the values given for the model\'s name. The observations, the model and its latent variables '
     'are left as they were: the model samples and exports the same afterwards.',
     ['inputs', 'configurations', 'histories'], 'all equations, latent variables, observations and kinds of model',
     'No test exports a model.',
     [D], [('model export', D)], observe=['LatentMdl.export_to_cbi'])

prop('C30', 'Parameters, mechanisms and conditions do not influence one another',
     'The value reported for a parameter of a device is the same whatever other parameters the device model has or the test measures (a derived parameter needs those it is computed from) '
     'and in whatever order parameters, mechanisms, conditions, measurements, variation models and instruments are listed, also when mechanisms and latent variables of different '
     'parameters or mechanisms have the same names. (For the same draws and numbers of devices; the device draws of a condition that several parameters use come from one sequence.)',
     ['inputs', 'configurations'], 'all equations, draws, conditions and durations, and every listing order and selection of parameters',
     'Tests simulate one device model each and never compare two.',
     [S, D, E], [('simulation steps', S), ('device models', D), ('conditions', E)],
     observe=['measurements reported by simulate'])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(p) + '\n' for p in P))
print(len(P), 'properties')
