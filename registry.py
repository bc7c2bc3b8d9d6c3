"""property -> contract groups, bounded batteries, assumptions"""
from check import TRUST_C, TRUST_P

REALS = 'floating point numbers are treated as real numbers, machine integers as mathematical integers'
NODIV = 'quotients are total functions: divisors that occur in the specification itself (lengths, reference values) are assumed non-zero'
SINCOS = 'sqrt, sin, cos are the mathematical functions (only sin^2+cos^2=1 and sqrt(x)^2=x, sqrt>=0 are used)'
SYM0 = 'the Python side passes zeros in the symmetry array (contract of pre_panelling, C++ symmetry branch unreachable)'


def only(*prefixes):
    return lambda n: any(p in n for p in prefixes)


def without(*prefixes):
    return lambda n: not any(p in n for p in prefixes)


PROPS = {}


def add(pid, groups, battery, trusted, assumptions, **k):
    PROPS[pid] = dict(groups=[g if isinstance(g, tuple) else (g, None) for g in groups], battery=battery, trusted=trusted, assumptions=assumptions, **k)


K = 'contracts.kernels:g_'
CA = [REALS, NODIV, SINCOS]
add('L01', [(K + 'lattice', without('L02 '))], ['b_kernels:lattice_corners'], TRUST_C, CA + [SYM0])
add('L02', [(K + 'lattice', without('L01 '))], ['b_kernels:lattice_panels'], TRUST_C, CA + [SYM0])
add('S01', [K + 'downwash', 'contracts.solver:g_calc'], ['b_kernels:downwash', 'b_kernels:chain'], TRUST_C + TRUST_P, CA)
add('F01', [K + 'results', 'contracts.solver:g_calc'], ['b_kernels:results', 'b_kernels:chain'], TRUST_C + TRUST_P, CA)
add('F02', [K + 'coeffs', K + 'results'], ['b_kernels:results'], TRUST_C, CA)
add('C01', ['contracts.interface:g_interface'], ['b_kernels:results', 'b_kernels:boundary', 'b_kernels:downwash', 'b_kernels:lattice'], TRUST_C,
    [REALS, 'ghost contracts of the CPython/NumPy API calls at the boundary (PyDict_*, PyObject_*, PyArray_*, PyFloat_*, PyLong_*, PyArg_ParseTuple)',
     'arrays handed over are C-contiguous float64/int64 (allocation contract of the Python side)'])

PA = ['Python floats are treated as real numbers, ints as mathematical integers', 'array elements are scalars (NumPy object arrays stand for float arrays; dtype conversions are value preserving)']
G = 'contracts.geom:g_'
add('G01', [G + 'mirror', G + 'mirror_parts'], ['b_geom:mirror'], TRUST_P, PA + ['deformed wings: see D01'])

ST = 'contracts.state:g_'
SO = 'contracts.solver:g_'
ISA = 'ambiance.Atmosphere gives the standard-atmosphere values of each altitude entry by entry (external library)'
DGESV = 'scipy.linalg.lapack.dgesv: info == 0 implies that the returned vector solves the system, info != 0 if a pivot is exactly zero (LAPACK documentation)'
KC = 'callees stand by their contracts: the compiled kernels by L01, L02, S01, F01, F02 (checked at the boundary by C01)'
add('S02', [K + 'boundary', SO + 'solver', SO + 'calc'], ['b_kernels:boundary', 'b_state:solve', 'b_state:tangential'], TRUST_C + TRUST_P, CA + PA + [DGESV, KC])
add('A01', [ST + 'freestream', ST + 'iter_states', (K + 'lattice', only('free stream', 'accumulator', 'overwritten')), K + 'boundary', (K + 'results', only('fpan', 'accumulator', 'overwritten')), K + 'coeffs'],
    ['b_state:iterate', 'b_state:convention'], TRUST_C + TRUST_P, CA + PA + [SYM0])
add('A02', [ST + 'update'], ['b_state:accept'], TRUST_P, PA + [ISA, 'values that are given are numbers'])
add('A03', [ST + 'iter_states', ST + 'run', SO + 'calc'], ['b_state:iterate', 'b_state:independent'], TRUST_P,
    PA + [KC, 'plotting, logging and path objects do not touch the numerical data (plots are off)'])

W = 'contracts.wing:g_'
SCHEMA = 'schemadict.validate is executed as it is (external library, not verified)'
add('W01', [W + 'segment', W + 'wing'], ['b_wing:segment_geometry'], TRUST_P,
    PA + [SCHEMA, 'airfoils.Airfoil/MorphAirfoil and import_airfoil_data (external) do not touch the vertices',
          'the total span is positive'])
add('W03', [W + 'geomdef', ('contracts.wing:g_segment', only('accepted', 'altered', 'imported'))], ['b_wing:geometry_definition', 'b_wing:geometry_files'], TRUST_P,
    PA + [SCHEMA, 'edges given by two points have a positive extent in x', 'angles are less than 90 degrees and the lateral offset of the twist axis is less than the span',
          'sin(asin q) = q, cos(asin q) = sqrt(1 - q^2), sine and cosine of atan2(y, x) are y and x over their length, addition theorems'])
add('W02', [W + 'identifiers', W + 'definitions', W + 'values', ('contracts.lattice:g_foils', only('rejected', 'on error'))], ['b_wing:definitions', 'b_wing:file_definitions'], TRUST_P, PA + [SCHEMA])
add('P01', [W + 'autopanels', W + 'tools'], ['b_wing:autopanels'], TRUST_P, PA + ['segment spans are positive and not larger than the wing span (W01)', 'user panel counts are positive integers (PANELS_SCHEMA)'])

LA = 'contracts.lattice:g_'
EX = 'contracts.external:g_'
ROT = ('rotat', 'normal', 'loop over range')
FOIL = 'airfoils.Airfoil/MorphAirfoil (external): camber_line_angle is a function of the chord position and of the interpolated airfoil; import_airfoil_data reads the file'
B0 = ['panel counts of segments and controls are at least 1 (P01)', 'every part has a positive chord share (G03)', KC]
add('B01', [(LA + 'gen', without(*ROT)), (LA + 'axes', only('rel_length')), W + 'tools'], ['b_lattice:bookkeeping'], TRUST_P, PA + B0)
add('R01', [(LA + 'gen', only(*ROT)), (LA + 'axes', without('rel_length')), LA + 'foils', EX + 'rotation', (G + 'mirror_parts', only('hinge'))], ['b_lattice:rotation', 'b_lattice:symmetric_foil'], TRUST_P,
    PA + [FOIL, KC, 'hinge line and side edges of a part are not degenerate', SINCOS])
D = 'contracts.deform:g_'
add('D01', [D + 'load', D + 'points', (ST + 'run', only('deformation'))], ['b_deform:load', 'b_deform:points', 'b_deform:run'], TRUST_P,
    PA + ['aeroframe get_deformed_point (external) gives the displaced point as a function of point and field; load_json_def_fields (external) reads the file', 'os.path.isfile and path objects'])

SR = 'contracts.strips:g_'
DV = 'contracts.devices:g_'
POS = 'division lines are requested at equal positions of leading and trailing edge (as all callers in the package do)'
PLANE = 'straightness of a divided edge: for plane convex segments (lemma over the proved contract of get_plane_line_intersect); on twisted segments the shared position is proved, its straightness is not claimed'
add('G02', [SR + 'find', (SR + 'divide', without('strip with ', ' chord', 'starts at the leading', 'ends at the trailing', 'only slat', ' meet'))], ['b_strips:division'], TRUST_P, PA + [POS])
add('G03', [SR + 'parts', SR + 'divide', SR + 'points', EX + 'intersect'], ['b_strips:devices'], TRUST_P,
    PA + [POS, PLANE, 'a division that fails half-way (device overlap on a twisted segment) leaves the devices of that strip unspecified'])
add('G04', [SR + 'points', DV + 'neighbour', DV + 'control', DV + 'pre', EX + 'intersect', EX + 'lin_interpol'], ['b_strips:points', 'b_strips:controls'], TRUST_P,
    PA + [POS, PLANE, 'segments of a wing are given from root to tip and the inner segment of a control comes first', 'the length of a control surface across segments is positive'])

F = 'contracts.files:g_'
RS = 'contracts.results:g_'
JSON = 'json (external): dumping and loading finite numbers, texts, lists and dictionaries with text keys gives equal values in the same order; open/with write and read the text'
OSP = 'os, os.path, pathlib, shutil.copy and commonlibs ProjectPaths (external) do what they document; truncate_filepath and logging do not touch data'
add('I01', [F + 'load', F + 'save', (W + 'definitions', only('check:'))], ['b_files:load', 'b_files:save'], TRUST_P,
    PA + [JSON, OSP, SCHEMA, 'identifiers of the components of one parent are distinct (W02)', 'model generation does not change the values read (W01, W02)'])
add('I02', [F + 'defaults', F + 'settings', F + 'settings_file'], ['b_files:settings', 'b_files:settings_file'], TRUST_P, PA + [JSON, OSP])
add('I03', [RS + 'results', (ST + 'run', only('results table', 'saved', 'written', 'gets exactly one', 'is the value computed'))], ['b_files:results', 'b_files:writers'], TRUST_P,
    PA + [JSON, OSP, 'numpy.savetxt (external) writes the rows in order with the given format (7 significant digits)'])
add('I04', [RS + 'template'], ['b_files:template'], TRUST_P, PA + [JSON, OSP, 'reading and writing of the files of the project: I01, I02'])
TIXI = 'TiXI document interface (external, not installed): getVectorSize, getFloatVector, updateFloatVector, addFloatVector, checkElement, uIDGetXPath ... do what they document'
add('K01', [RS + 'cpacs'], ['b_files:cpacs'], TRUST_P, PA + [TIXI, OSP])
add('K02', ['contracts.cpacs:g_aircraft'], ['b_cpacs:aircraft'], TRUST_P,
    PA + [TIXI, 'TiGL geometry interface (external, not installed): surface points, section and profile indices, symmetry and component segment positions are what it documents', OSP,
          'leading-edge devices are as in the CPACS schema (without chord position of the leading edge); the package leaves them out', 'parse_str and numpy.fromstring/savetxt are executed in the bounded runs only',
          'model generation: W01, W02'])
add('K03', ['contracts.cpacs:g_convert', ('contracts.cpacs:g_aircraft', only('airfoil files')), F + 'save'], ['b_cpacs:convert'], TRUST_P,
    PA + [TIXI, JSON, OSP, 'the model read from CPACS is the one of K02; reading the native file gives the model written (I01)', 'ProjectPaths.remove_path, add_path, change_suffix (external) do what they document'])
add('I05', [F + 'paths', (ST + 'run', only('number'))], ['b_files:paths'], TRUST_P, PA + [JSON, OSP])
add('I06', ['contracts.cli:g_cli', 'contracts.cli:g_database'], ['b_cli:run'], TRUST_P,
    PA + [OSP, 'argparse (external, executed): values of options are handed on unchanged; exercised for every combination of up to two actions, cleaning and verbosity options', 'glob (external) lists the files of a folder',
          'what the actions do: A03, I04, I05, K03'])
PL = 'contracts.plots:g_'
add('V01', [PL + 'plots', PL + 'limits', PL + 'choice'], ['b_plots:draw', 'b_plots:runs'], TRUST_P,
    PA + [OSP, 'matplotlib (external): ghost figures and axes record the calls; executed in the bounded runs with saving and showing recorded instead of done', 'commonlibs.math.vectors.unit_vector divides by the length',
          'traversal of segments and controls: P01 (objects.objecttools)', 'largest and smallest value of the results (max, min) bound every value; values that are not numbers are outside'])

NOT_APPLICABLE = {}
NOTES = 'One driver: check.py <id>. Contracts in contracts/, VC generator in vcg/, bounded executions (counterexample search) in battery/.'
