"""Source of properties.jsonl (run: python3 tools/make_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': list(observe), 'hook_needed': hook}})

SM = 'quantas/utils/physics/statistical_mechanics.pyx'
TD = 'quantas/utils/physics/thermodynamics.pyx'
FM = 'quantas/utils/math/fast_math.pyx'
UN = 'quantas/utils/physics/units.py'
HA = 'quantas/harmonic/harmonic.py'
QH = 'quantas/qha/qha.py'
SO = 'quantas/soec/utils/soec_obj.py'
SC = 'quantas/soec/soec.py'
EO = 'quantas/eosfit/utils/pv_eos.py'

prop('C01', 'Harmonic results equal independent-oscillator statistics',
 'For any phonon spectrum, q-point weights, volumes and temperatures, the zero-point energy, thermal energy, total energy, entropy, vibrational and total free energy and isochoric heat capacity reported by a harmonic run are the weight-averaged sums of the quantum harmonic-oscillator expressions in the requested units (entropy and heat capacity in thousandths of the energy unit per kelvin). Modes with zero or negative frequency contribute nothing, and at 0 K only the zero-point energy remains.',
 ['inputs'], 'All spectra (acoustic zeros, imaginary modes, soft and stiff modes), weights, numbers of volumes, temperatures including 0 K.',
 'The only test runs one Gamma-point spectrum of one volume at one temperature; weighting, several q-points, low temperature, imaginary modes and the volume/temperature axes are never compared with a model.',
 [SM, HA], [('harmonic-oscillator sums', SM), ('q-point weight normalisation', HA + ' HACalculator.run')],
 observe=['HACalculator.results', 'the statistical-mechanics functions of the native module'])

prop('C02', 'Thermodynamic identities hold across every harmonic result table',
 'At every reported temperature and volume of a harmonic run F = U - TS and F = static energy + vibrational part hold, entropy, thermal energy and heat capacity are non-negative and never decrease with temperature, the heat capacity is bounded by the Dulong-Petit limit and approaches it, the temperature derivative of the thermal energy is the heat capacity, and minus that of the free energy is the entropy. Entropy and heat capacity vanish as T approaches 0 K.',
 ['inputs'], 'All spectra, temperature grids and unit choices.',
 'Identities relate whole tables over temperature and volume; the tests look at one number per property.',
 [SM, HA], [('oscillator functions share one spectrum', SM), ('assembly of U and F', HA)],
 observe=['HACalculator.results'])

prop('C03', 'Changing the units of the input never changes the physics',
 'Running the harmonic or quasi-harmonic calculation on the same crystal expressed in different energy, length, frequency, temperature and pressure units gives the same physical results once converted back. No reported quantity depends on the unit system in which the input happens to be written.',
 ['inputs', 'configurations'], 'All combinations of Ha/eV/Ry, A/bohr, cm^-1/THz/Hz, K/C, GPa/kbar for any crystal data.',
 'The tests use one unit combination (Ha, A, cm^-1, K); 71 other combinations are never run.',
 [UN, HA, QH], [('conversion at the edges of the calculation', HA + ' run'), ('pressure/energy-density conversion', QH)],
 observe=['HACalculator.results', 'QHACalculator.results'])

prop('C04', 'Unit conversions are exact, reversible and free of side effects',
 'Every supported conversion between temperature, energy, pressure, frequency, length, volume and energy-density scales agrees with the CODATA/SI definitions, is inverted by the opposite conversion, composes through any third scale, and gives the same answer for scalars, lists and arrays of any shape and for every documented spelling of a scale. Arguments are never modified and an unknown scale is refused.',
 ['inputs', 'configurations'], 'All pairs and triples of supported scales, all numeric inputs.',
 'No test calls a conversion directly.',
 [UN], [('scale tables', UN)], observe=['return values and arguments of the conversion functions'])

prop('C05', 'Native kernels are race-free, in bounds and schedule independent',
 'For any mutually consistent array sizes, thread count and thread schedule, the compiled kernels read and write only inside their argument and result arrays, execute no undefined behaviour, have no data race, leave their arguments unchanged and return bit-identical results. Serial evaluation of one row at a time gives the same numbers as the parallel evaluation.',
 ['schedules', 'inputs'], 'All interleavings of the parallel loops, all array shapes including empty and single-element axes, all thread counts.',
 'The tests run tiny arrays once under one schedule; a race or an out-of-bounds access needs sanitizers and many schedules to show.',
 [SM, TD, FM], [('OpenMP prange over rows with bounds checks off', SM)],
 observe=['results of the native functions under AddressSanitizer, UBSan and ThreadSanitizer builds and a schedule-perturbing OpenMP runtime'])

prop('C06', 'Reported volumes minimise the Gibbs energy at each temperature and pressure',
 'At every temperature and pressure of a quasi-harmonic run, the reported volume is a minimum of F(V,T)+PV: the pressure -dF/dV there equals the target pressure and the curvature is positive. Consequently volume never increases with pressure at fixed temperature, the Gibbs energy has slope V along pressure and slope -S along temperature.',
 ['inputs', 'configurations'], 'All crystals with a stable free-energy curve, all temperature/pressure grids, both interpolation schemes, both minimisation schemes, all equations of state and polynomial degrees.',
 'No test runs a quasi-harmonic calculation at all.',
 [QH, 'quantas/utils/math/polynomials.py', 'quantas/qha/utils/ev_eos.py'],
 [('polynomial root search', 'quantas/utils/math/polynomials.py find_polynomial_minimum'), ('EoS minimisation', QH + ' find_eos_minimum')],
 observe=['QHACalculator.results: VT, F, G, S, KT'])

prop('C07', 'Quasi-harmonic potentials and coefficients are mutually consistent',
 'At every temperature and pressure of a quasi-harmonic run F = U - TS, U = static + zero-point + thermal energy, H = U + PV and G = F + PV hold, the isothermal bulk modulus is the volume-scaled curvature of F and K\' is its pressure derivative. With at least 50 temperatures the thermal expansion is the logarithmic temperature derivative of the reported volume and Cp = Cv + alpha^2 V K_T T, K_S = K_T + alpha^2 V T K_T^2 / Cv (never below K_T where Cv is positive) and gamma = alpha V K_T / Cv; with fewer, expansion, Cp and gamma are reported as zero and K_S equals K_T.',
 ['inputs', 'configurations'], 'All crystals, grids, unit choices and schemes.',
 'No test runs a quasi-harmonic calculation at all.',
 [QH, TD], [('finalisation of derived quantities', QH + ' _finalize_run'), ('native thermodynamic relations', TD)],
 observe=['QHACalculator.results'])

prop('C08', 'Every quasi-harmonic route recovers a model crystal it can represent',
 'For a model crystal with a known equation of state and known volume-dependent frequencies, volume, bulk modulus, free energy, entropy and heat capacity at each temperature and pressure obtained through thermodynamic or frequency interpolation, with polynomial or equation-of-state minimisation, agree with the exact values within the fitting error, hence with each other. The answer does not depend on the order of q-points or bands, on splitting weights, or on the number of threads.',
 ['inputs', 'configurations'], 'All scheme x minimisation x equation-of-state combinations over generated model crystals.',
 'No test runs a quasi-harmonic calculation at all, let alone compares two routes.',
 [QH, 'quantas/qha/utils/ev_eos.py', FM], [('frequency interpolation', QH), ('thermodynamic interpolation', QH)],
 observe=['QHACalculator.results'])

prop('C09', 'Temperature and pressure grids contain exactly the requested points',
 'A run with range (min, max, step) reports results at min, min+step, ... up to the last such value not beyond max (max itself when the step divides the range), in increasing order, with no duplicate, and every result table has exactly one row per temperature and one column per volume or pressure. The temperatures and pressures written to the result file are those used in the calculation.',
 ['inputs'], 'All ranges and steps, including fractional steps subject to rounding and steps that do not divide the range.',
 'The only tested grid has one point.',
 [HA, QH], [('grid setters', HA + ' temperature setter; ' + QH + ' temperature and pressure setters')],
 observe=['calculator.temperature, calculator.pressure, result shapes, T and P datasets'])

prop('C10', 'Each P-V equation of state honours its own parameters',
 'For every equation-of-state formulation and order, P(V0) = 0, the bulk modulus -V dP/dV at V0 is K0, its pressure derivative is K\' and, at fourth order, its second derivative is K\'\'; parameters not fitted at lower order take the implied values reported to the user. Axial fits obey the same relations for the axis length a (modulus -a dP/da and its pressure derivative at a0), and pressure decreases monotonically with volume under compression.',
 ['inputs', 'configurations'], 'All formulations x orders x physically meaningful parameters.',
 'Only the input reader of the EoS module is tested.',
 [EO], [('pressure functions and implied K\', K\'\'', EO)], observe=['EOS.eos return values', 'implied parameters'])

prop('C11', 'EoS fitting recovers parameters and honours data weights',
 'Fitting data generated exactly from an equation of state returns its parameters, whatever the order of the rows, the reasonable starting guess, the fixed or free V0, or the presence of uncertainties. Uncertain points influence the result less than precise ones, the standard errors scale with the scatter, and fitting changes neither the data nor the guess, so repeating a fit gives the same answer.',
 ['inputs', 'histories'], 'All formulations x orders x parameter sets x row permutations x uncertainty columns x repeated fits on one object.',
 'No test performs a fit.',
 [EO], [('orthogonal distance regression', EO + ' fit')], observe=['fit results of the EoS objects', 'interactive session log'])

prop('C12', 'Energy-volume equations of state are consistent with their pressure',
 'For each energy-volume equation of state the minimum is at V0 with energy E0 and curvature K0/V0, the reported pressure is minus the volume derivative of the energy, and it coincides with the pressure of the pressure-volume form of the same name. Fitting exact energy-volume data returns the generating parameters for any units, row order and energy offset.',
 ['inputs', 'configurations'], 'All formulations, parameters, volume ranges, offsets and unit scales.',
 'No test evaluates an energy-volume equation of state.',
 ['quantas/qha/utils/ev_eos.py', EO], [('energy functions and fit', 'quantas/qha/utils/ev_eos.py')], observe=['EnergyEOS results'])

prop('C13', 'Printed reports and logs show the computed results',
 'Every number in the report of a run (harmonic, quasi-harmonic, elastic, equation-of-state fit) is the computed or input value rounded to the printed digits under the right label and unit, with one line per temperature, pressure or volume. The log file holds the complete report whether or not screen output is silenced, and a silenced run shows only progress and error messages on screen, not the report.',
 ['inputs', 'configurations'], 'All commands, inputs, unit choices, quiet and verbose mode.',
 'Tests run silent, with no log, and never read the report.',
 ['quantas/core/calculator.py', HA, QH, SC, 'quantas/eosfit/utils/interactive.py', 'quantas/cmdline/utils/messages.py'],
 [('echo to screen and log', 'quantas/core/calculator.py'), ('report_results', QH)], observe=['log file and standard output of CLI runs'])

prop('C14', 'Elastic averages are frame-invariant and correctly bounded',
 'For any stable elastic tensor the Voigt, Reuss and Hill bulk, shear and Young moduli and Poisson ratio equal their tensor definitions, the Reuss values never exceed the Voigt values with Hill midway, the reported compliance inverts the stiffness, and the reported eigenvalues are those of the stiffness matrix. All averages, eigen-invariant quantities and anisotropy measures are unchanged by any rotation of the crystal frame, and isotropic tensors have zero anisotropy.',
 ['inputs'], 'All stable elastic tensors of every crystal system and all rotations.',
 'One cubic tensor is compared with stored numbers.',
 [SO, SC], [('Voigt-Reuss-Hill averages', SO)], observe=['SOEC averages, compliance, SOECCalculator.results'])

prop('C15', 'Directional elastic properties equal the full tensor contraction',
 'For any stable elastic tensor and any direction, the Young modulus, linear compressibility, shear modulus and Poisson ratio equal the contraction of the rotated compliance tensor with the corresponding unit vectors. They are unchanged by reversing the directions, co-rotate with the crystal, and the closed forms used for orthorhombic-or-higher crystals equal the general ones.',
 ['inputs'], 'All stable tensors, all directions, all crystal classes.',
 'No directional property is asserted by a test.',
 [SO], [('directional formulas, general and orthorhombic', SO)], observe=['SOEC and SOECOrtho directional methods'])

prop('C16', 'Reported elastic extremes bound every direction and are attained',
 'The reported minimum and maximum of Young modulus, linear compressibility, shear modulus and Poisson ratio are attained at the directions reported with them, and no direction has a lower or higher value (to search accuracy). The reported anisotropy is their ratio, or infinite or undefined when the minimum is not positive.',
 ['inputs'], 'All stable tensors including strongly anisotropic and auxetic ones; directions sampled densely.',
 'No extreme value is asserted by a test.',
 [SO, SC], [('brute-force plus local minimisation over angles', SO), ('directional variation table', SC)], observe=['SOECCalculator.results for variations and the report'])

prop('C17', 'Seismic velocities solve the Christoffel equation',
 'For any stable elastic tensor, density and direction, the three reported phase velocities satisfy the Christoffel equation (rho v^2 are the eigenvalues of the Christoffel tensor), are ordered slow, fast, primary, and scale as sqrt(C/rho); average isotropic velocities follow from the Hill moduli. Polarisations are orthonormal eigenvectors, the group velocity is the gradient of the phase velocity, its projection on the direction equals the phase velocity, and the power-flow angle is the angle between the two; the enhancement factor is the ratio of solid angles between wave normals and rays.',
 ['inputs'], 'All stable tensors, densities and directions.',
 'Velocities are not asserted by any test and the wave module has no test.',
 [SO, 'quantas/seismic/utils/seismic_obj.py'], [('Christoffel matrix and its derivatives', 'quantas/seismic/utils/seismic_obj.py'), ('average and directional velocities', SO)],
 observe=['SOEC velocities', 'Seismic object properties'])

prop('C18', 'Unphysical elastic tensors are refused with a reason',
 'An elastic matrix that is not positive definite, not symmetric or not 6x6 never yields a completed elastic analysis: the run ends with an error message and writes no result file. Every positive definite symmetric matrix is accepted.',
 ['inputs'], 'All 6x6 matrices near and far from the stability border, all crystal systems.',
 'Only one stable tensor is analysed by the tests.',
 [SC, SO, 'quantas/IO/soec_reader.py'], [('stability test on eigenvalues', SC + ' run'), ('shape and symmetry checks', 'quantas/IO/soec_reader.py')],
 observe=['SOECCalculator.completed/error', 'CLI exit, result file, log'])

prop('C19', 'Crystal symmetry is recognised from the elastic tensor',
 'An elastic tensor with the exact form of a crystal system in its standard setting is assigned to that system (cubic including isotropic, hexagonal, trigonal and tetragonal of high and low Laue class, orthorhombic, monoclinic, triclinic), and rounding noise well below the recognition tolerance of 1e-3 GPa does not change the assignment. Whatever class is recognised, every property computed with it equals the one computed by treating the crystal as triclinic.',
 ['inputs'], 'All tensors of every crystal system, with rounding noise below the recognition tolerance.',
 'One cubic tensor is analysed and its assigned symmetry is not asserted.',
 ['quantas/soec/utils/symmetry.py', SC], [('symmetry tables', 'quantas/soec/utils/symmetry.py')], observe=['symmetry label in results and report', 'choice of specialised formulas'])

prop('C20', 'Polar sections hold the properties evaluated along each direction',
 'When polar sections are requested, each table row of the xy, xz and yz planes holds the Young modulus, linear compressibility, shear and Poisson extremes (and, given a density, the wave velocities) evaluated along that row\'s in-plane direction, with angles covering the full circle. The exported table equals the computed one and antipodal rows agree.',
 ['inputs'], 'All stable tensors and all section angles.',
 'Polar sections are switched off in the only test.',
 [SC, SO], [('polar_* methods', SO)], observe=['SOECCalculator results for polar sections', 'result file and exported tables'])

prop('C21', 'Well-formed input files are read exactly as written',
 'Reading a well-formed input file (phonon data, elastic matrix in full, upper- or lower-triangular form, equation-of-state table with any documented column set and order) yields exactly the numbers, job title, weights and units-free shapes written in it, whatever the spacing, comments or blank lines allowed by the format. Derived counts (q-points, bands, volumes) match the content.',
 ['inputs'], 'All documents in the documented formats.',
 'Each reader is tested on one file and mostly on types, not on values.',
 ['quantas/IO/qha_reader.py', 'quantas/IO/soec_reader.py', 'quantas/IO/eos_reader.py'],
 [('format parsers', 'quantas/IO')], observe=['reader properties'])

prop('C22', 'Malformed input is refused cleanly and leaves nothing behind',
 'An input that is truncated, has missing mandatory keywords, inconsistent lengths, wrong types or too few volumes never produces a completed run: reader and command report an error and no result file is written. A refused file never yields partially read data that passes as valid.',
 ['inputs', 'fault_sequences'], 'All single and combined corruptions of valid inputs (deleted lines, tokens, keywords, shortened arrays).',
 'One malformed file is tested for each of two formats.',
 ['quantas/IO/qha_reader.py', 'quantas/IO/soec_reader.py', 'quantas/IO/eos_reader.py', 'quantas/cmdline/commands'],
 [('completed/error contract', 'quantas/core/reader.py')], observe=['reader.completed and error', 'CLI output, exit and files'])

prop('C23', 'Readers, generators and calculators share no state',
 'What an object reads, generates or computes depends only on its own inputs: after any history of earlier reads, failed reads, fits, generations, exports or calculations in the same process, a fresh object behaves as in a fresh process, and earlier objects keep their data. Repeating an operation on the same input gives the same result.',
 ['histories'], 'All sequences of operations over several objects of every reader, writer, exporter, fitter and calculator class.',
 'Each test uses one object in isolation.',
 ['quantas/core/reader.py', 'quantas/IO', 'quantas/interfaces', 'quantas/harmonic/utils/export.py'],
 [('per-instance data', 'quantas/core/reader.py')], observe=['object data before and after foreign operations'])

prop('C24', 'Generated inputs carry the ab initio data faithfully',
 'The input file generated from supported ab initio outputs (CRYSTAL frequencies, CRYSTAL quasi-harmonic runs, phonopy, CRYSTAL and VASP elastic outputs) and read back by the program contains the same volumes, energies, supercell, q-points, weights, frequencies, elastic constants (in GPa, Voigt order) and density as the source, one entry per source file in the given order, with the chosen reference. Files that disagree on the number of atoms or phonons are refused.',
 ['inputs'], 'All crystals expressible in the supported output formats, any number of files, any reference index.',
 'One example per elastic interface and one for CRYSTAL frequencies are tested, checking mostly types.',
 ['quantas/interfaces', 'quantas/IO/qha_writer.py', 'quantas/IO/soec_writer.py', 'quantas/cmdline/commands/cmd_inpgen.py'],
 [('output parsers', 'quantas/interfaces'), ('input writers', 'quantas/IO')], observe=['generated file as read back', 'reader data'])

prop('C25', 'Result files hold exactly what was computed, correctly labelled',
 'The binary result file of a harmonic, quasi-harmonic or elastic run contains every computed table bit for bit, the temperatures, pressures, volumes and static energies it refers to, and metadata (job title, scheme, units of each dataset) that match the run. Reading the file back reproduces the in-memory results.',
 ['inputs', 'configurations'], 'All runs over every unit and scheme choice.',
 'No test writes a result file.',
 [HA, QH, SC], [('export_hdf5', HA), ('export_hdf5', QH)], observe=['HDF5 datasets and attributes versus calculator results'])

prop('C26', 'Text export reproduces the result file',
 'Exporting any dataset of a result file to text writes a table with the right header, one row per temperature (or volume, pressure, direction) and the values of the binary dataset to the printed precision; the result file is left unchanged. Every dataset offered for selection can be exported, and files that are not program results are refused with a message.',
 ['inputs', 'configurations'], 'All result files, all selectable datasets, any number of temperatures, volumes and pressures.',
 'No test exports anything.',
 ['quantas/harmonic/utils/export.py', 'quantas/qha/utils/export.py', 'quantas/soec/utils/export.py', 'quantas/cmdline/commands/cmd_export.py'],
 [('table writers', 'quantas/qha/utils/export.py')], observe=['exported .dat files versus HDF5 datasets'])

prop('C27', 'Commands never destroy user files without consent',
 'A command modifies only its own outputs: input files keep their content, an existing result or exported table is replaced only after the user agrees, and refusing keeps it byte for byte. A run that fails or is interrupted before the user has agreed to the replacement (bad input, unphysical data, aborted prompt) leaves a previously written result file intact.',
 ['inputs', 'fault_sequences', 'crash_points'], 'All commands, answers to the prompts, and failure points before the results are written.',
 'The tests never use the command line.',
 ['quantas/cmdline/commands', HA, QH, SC], [('overwrite confirmation', 'quantas/cmdline/commands')], observe=['directory content before and after CLI runs'])

prop('C28', 'Polynomial tools fit, evaluate and minimise correctly',
 'Polynomial regression reproduces any polynomial of at most the chosen degree, one- and multi-dimensional evaluation agree with the polynomial at every point, the coefficient of determination is one for exact data and equals its definition otherwise, and minimum search returns exactly the real minima of the polynomial plus linear term. Vector and matrix helpers used for directions return unit vectors and correct cofactors.',
 ['inputs'], 'All degrees, coefficients, evaluation points and array shapes.',
 'No test touches these functions.',
 ['quantas/utils/math/polynomials.py', FM, 'quantas/utils/math/derivative.py'], [('polyfit/interpolate/R_squared/find_polynomial_minimum', 'quantas/utils/math/polynomials.py')],
 observe=['return values'])

prop('C29', 'Kieffer acoustic contributions form one thermodynamic model',
 'For any acoustic cut-off frequencies and temperature, the Kieffer free energy, entropy and heat capacity are those of the same sine-dispersion density of states: S = -dF/dT, Cv = T dS/dT, both non-negative, additive over branches, with the heat capacity tending to k_B per branch and mole at high temperature and vanishing at 0 K. Requesting the acoustic correction without acoustic data ends with an error message and no results.',
 ['inputs'], 'All branch frequencies and temperatures.',
 'No test touches the Kieffer model.',
 ['quantas/qha/utils/kieffer.py', QH], [('quadrature of the sine-dispersion integrals', 'quantas/qha/utils/kieffer.py')], observe=['Kieffer methods', 'quasi-harmonic run with the acoustic option'])

prop('C30', 'Every command runs valid input to completion and tells success from failure',
 'For every documented command, option and option value, a valid input is processed to completion: the announced result and log files exist at the announced names (default or user-chosen), and the run ends with the closing banner. When it cannot, the user sees an error message in place of the closing banner; a Python traceback never reaches the user for documented usage.',
 ['inputs', 'configurations'], 'All combinations of documented options over valid inputs of every supported kind, including the interactive equation-of-state session.',
 'No test goes through the command line.',
 ['quantas/cmdline/commands', 'quantas/eosfit/utils/interactive.py'], [('command functions', 'quantas/cmdline/commands')], observe=['CLI exit code, output, files'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
