#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a generator so that wording stays in one place)."""
import json, os
P = 'src/lib/pytornado/'
A = P + 'objects/aircraft.py'
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=[f if f.startswith('src') else P + f for f in files],
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=list(observe), hook_needed=None))
FEW = 'The stable tests run a handful of fixed aircraft through the command line and only look at exit status and one results file; '
props = [
prop('L01', 'Panels tile each lattice region exactly and fill every slot once',
 'For any list of quadrilateral lattice regions and any positive panel counts along span and chord, the corner points of the panels are the images of the uniform span/chord grid under the bilinear map through the four corners of the region, so neighbouring panels share their corners, no gap or overlap appears and the outermost corners are the corners of the region. Each panel of each region occupies its own slot, in region order, every slot of the lattice is filled and nothing is written outside the lattice arrays. The corner points do not depend on the flight state.',
 ['inputs'], 'all region corner coordinates, all numbers of regions, all positive panel counts per region, all flight states',
 FEW + 'no test looks at a panel corner, and none uses more than one panel along the span of a region.',
 ['aero/c_lattice.cpp', 'aero/vlm.py'], [('vlm_lattice', P+'aero/c_lattice.cpp'), ('gen_lattice', P+'aero/vlm.py')],
 [('lattice.p', 'panel corner points, 4x3 per panel', P+'aero/c_vlm.h')], ['lattice.p after lattice generation']),
prop('L02', 'Horseshoe, collocation point, normal and size of every panel are right',
 'For every panel the bound vortex joins the quarter-chord points of its two side edges, the trailing legs start there and run a long distance exactly along the free-stream direction, the collocation point lies at three-quarter chord and mid-span and the force application point is the middle of the bound vortex. Before control or camber corrections the normal has unit length, is orthogonal to the two mean lines of the panel through the collocation point and has the same orientation relative to the corner order on every panel; the panel area is the product of its mean span and mean chord. The reported minimum, maximum and mean area and aspect ratio summarise exactly the panels of the lattice.',
 ['inputs'], 'all panel corners, all angles of attack and sideslip, all lattice sizes',
 FEW + 'none reads horseshoe points, normals, areas or the lattice statistics.',
 ['aero/c_lattice.cpp', 'aero/c_vlm.cpp'], [('vlm_lattice', P+'aero/c_lattice.cpp'), ('set_infostruct', P+'aero/c_vlm.cpp')],
 [('lattice.v, c, n, a, bound_leg_midpoints', 'derived panel geometry', P+'aero/c_vlm.h')], ['lattice attributes and lattice.info after lattice generation']),
prop('S01', 'Influence matrix is the Biot-Savart law of all horseshoe legs',
 'Each entry (receiver, emitter) of the influence matrix is the component along the normal of the receiving panel of the velocity induced at its collocation point by the whole horseshoe vortex of the emitting panel with unit strength, that is the sum over its three straight legs of the (regularised) Biot-Savart law. This holds for every pair of panels of a lattice of any size, and every entry of the matrix is written exactly once.',
 ['inputs'], 'all lattices (any number of panels, any non-degenerate geometry), all pairs of panels',
 FEW + 'no test compares a matrix entry with a reference.',
 ['aero/c_downwash.cpp', 'aero/vlm.py'], [('vlm_downwash', P+'aero/c_downwash.cpp'), ('calc_downwash', P+'aero/vlm.py')],
 [('matrix_downwash', 'aerodynamic influence coefficients', P+'objects/vlm_struct.py')], ['matrix of influence coefficients after it is computed']),
prop('S02', 'Solved circulation makes the flow tangential, or solving fails loudly',
 'The right-hand side is, for every panel, the negative of the component along its normal of the undisturbed flow seen at its collocation point: free stream plus the flow due to the rotation rates about the centre of gravity. With the circulations that are returned, the total velocity through every panel is therefore zero (the linear system is satisfied). If the linear system has no unique solution, an error is raised instead of returning numbers.',
 ['inputs'], 'all lattices, airspeeds, angles, rotation rates, centres of gravity; all solvable and all singular systems',
 FEW + 'none has rotation rates with a reference for the result, and no test has a singular system.',
 ['aero/c_boundary.cpp', 'aero/vlm.py'], [('vlm_boundary', P+'aero/c_boundary.cpp'), ('calc_boundary', P+'aero/vlm.py'), ('solver', P+'aero/vlm.py')],
 [('array_rhs, panelwise gamma', 'right-hand side and solution', P+'objects/vlm_struct.py')], ['right-hand side vector, circulation vector']),
prop('F01', 'Panel loads follow Kutta-Joukowski and totals are their exact sums',
 'The force on each panel is density times circulation times the cross product of the local flow velocity (free stream, rotation about the centre of gravity and velocity induced by all panels at the middle of the bound vortex) with the bound vortex vector. Total force and total moment are the sums over all panels, the moment being taken about the reference centre with the force acting at the middle of the bound vortex; the reported induced velocity components, magnitudes and pressure coefficients belong to the same panel quantities. The results do not depend on what the result containers held before.',
 ['inputs', 'histories'], 'all lattices, circulations, flight states and reference points; all previous contents of the result containers',
 FEW + 'no reference loads are compared, and the containers are always fresh or overwritten by the same case.',
 ['aero/c_results.cpp', 'aero/vlm.py'], [('vlm_results', P+'aero/c_results.cpp'), ('calc_results', P+'aero/vlm.py')],
 [('panelwise, forces', 'panel and total loads', P+'objects/vlm_struct.py')], ['panelwise results, total forces and moments']),
prop('F02', 'Coefficients and wind-axis loads follow from the total loads',
 'Drag, side force and lift are the components of the total force in wind axes obtained by the orthonormal body-to-wind rotation for the given angles, with drag along the free stream. All force coefficients are forces divided by dynamic pressure and reference area; roll and yaw moment coefficients are additionally divided by the reference span and pitch by the reference chord. If the dynamic pressure is zero the coefficients are computed with dynamic pressure one and stay finite.',
 ['inputs'], 'all total loads, angles, airspeeds, densities and reference values',
 FEW + 'coefficients are never compared with the forces and references of the same run.',
 ['aero/c_results.cpp'], [('vlm_coeffs', P+'aero/c_results.cpp')],
 [('forces, coeffs', 'total loads and coefficients', P+'objects/vlm_struct.py')], ['global forces and coefficients']),
prop('C01', 'Quantities keep their identity across the Python/C++ boundary',
 'Every quantity the compiled solver uses is the one the Python side stores under that name: airspeed, density, the two angles, the three rotation rates, reference area, span, chord, centre of gravity and reference centre, the lattice arrays, the panel and region counts and the circulations. Every total force, moment, coefficient, panel result and lattice statistic the solver computes is handed back under its own name and no other entry changes.',
 ['inputs'], 'all values of all exchanged quantities, including ones that are equal or zero in common cases (rates, sideslip, centre of gravity versus reference centre, span versus chord)',
 FEW + 'in these cases many of the quantities are zero or equal, so that a swapped pair is invisible.',
 ['aero/c_vlm.cpp', 'aero/c_vlm.h'], [('get_*struct / set_*struct / py2c_*', P+'aero/c_vlm.cpp')],
 [('state.aero, refs, lattice, vlmdata', 'exchanged objects', P+'objects/vlm_struct.py')], ['results of the compiled functions for distinguishable inputs']),
prop('A01', 'One free-stream convention is used everywhere',
 'For every angle of attack and sideslip (in degrees) the free-stream direction is the unit vector (cos a cos b, -sin b, sin a cos b). The free-stream velocity reported with each flight condition, the wake legs of the lattice, the boundary condition, the panel loads and the drag axis all use this direction, and the magnitude of the free-stream velocity is the airspeed.',
 ['inputs'], 'all angles and airspeeds',
 FEW + 'sideslip is zero or unchecked, and the Python and C++ versions are never compared.',
 ['aero/c_vlm.cpp', 'objects/state.py', 'aero/c_lattice.cpp', 'aero/c_boundary.cpp', 'aero/c_results.cpp'],
 [('get_freestream_direction, deg2rad', P+'aero/c_vlm.cpp'), ('free_stream_velocity_vector', P+'objects/state.py')],
 [], ['free-stream velocity of a flight condition; wake direction, right-hand side, wind-axis drag']),
prop('A02', 'Flight conditions are validated and completed correctly',
 'A table of flight conditions is accepted only if all given parameters have the same number of entries (a single value counts as one entry, a parameter that is omitted or null is not given), exactly one of the combinations airspeed/density, airspeed/altitude or Mach/altitude is given, and all angles are within -90 to 90 degrees; otherwise an error is raised. Given values are kept unchanged; a density that is not given is the standard-atmosphere density, and an airspeed that is not given is the Mach number times the standard-atmosphere speed of sound, entry by entry.',
 ['inputs'], 'all tables: any number of entries, any subset of parameters, any values',
 FEW + 'only valid tables are loaded, with two of the combinations, and rejected inputs are never tried.',
 ['objects/state.py', 'fileio/native/state.py'], [('FlightState.update_from_dict, check_values', P+'objects/state.py'), ('load', P+'fileio/native/state.py')],
 [('FlightState.aero', 'operating conditions', P+'objects/state.py')], ['flight state after loading; raised errors']),
prop('A03', 'Every flight condition is computed once, in order, independently',
 'A run over a table of flight conditions computes each entry exactly once, in table order, with exactly the values of that entry. The results table has for each load and coefficient one value per entry, in the same order and under its own name, equal to what the solver computed for that entry. The result for an entry does not depend on the other entries in the table.',
 ['inputs', 'histories'], 'all table lengths and contents; all positions of an entry in a table',
 FEW + 'the table run is only checked for finishing.',
 ['objects/state.py', 'stdfun/run.py', 'aero/vlm.py'], [('iter_states', P+'objects/state.py'), ('standard_run', P+'stdfun/run.py'), ('gen_lattice', P+'aero/vlm.py')],
 [('state.results', 'results per table entry', P+'objects/state.py')], ['results table of a run']),
prop('G01', 'The mirrored half of a symmetric wing is the exact mirror image',
 'Reflecting a point in a symmetry plane negates exactly the coordinate normal to that plane (plane 1: z, 2: y, 3: x), leaves the argument untouched and is its own inverse. For every symmetric wing and each of the three planes, the mirrored lattice region of every strip and every slat, flap or main part, and its hinge line, is the reflection of the original region point by point, with the corners reordered so that the chordwise direction of the lattice stays from leading to trailing side (in downstream direction) and the normal keeps its sense as documented. An invalid plane is rejected.',
 ['inputs'], 'all points, planes, wing geometries, strip and device positions',
 FEW + 'only plane 2 with straight devices appears.',
 ['objects/aircraft.py'], [('mirror_point, order_mirrored_vertex_points, mirror_vertices', A), ('StripSubdivision.abs_vertices, abs_hinge_vertices', A)],
 [], ['absolute corner points of lattice regions, original and mirrored']),
prop('G02', 'Spanwise strips always partition the segment',
 'After any sequence of requested spanwise divisions and control surfaces, the strips of a wing segment cover its whole span from inner to outer end without gap and without overlap. Every strip has positive width, a division request strictly inside (0, 1) that is not within the minimum distance outside of an existing division line creates exactly one new line at the requested position and moves no other line, a request at or just outside an existing line changes nothing, and a request outside (0, 1) is rejected or, if so asked, ignored without change.',
 ['histories', 'inputs'], 'all sequences of division requests and all real positions',
 FEW + 'no test looks at the strips.',
 ['objects/aircraft.py'], [('WingSegment.add_subdivision, _get_subdiv_at_eta', A), ('SegmentStrip', A)],
 [('WingSegment.subdivision', 'strips with inner and outer relative position', A)], ['relative positions of the strips of a segment']),
prop('G03', 'Slat, main part and flap partition every strip chordwise',
 'In every strip, the slat (if any), the main part and the flap (if any) cover the chord from leading to trailing edge without gap or overlap along both side edges of the strip, and stay so when a strip with devices is divided further; the parts of a divided device share the same new edge position, belong to the same control and have hinge positions on the same hinge line. A device whose edge lies outside (0, 1), whose hinge lies outside [0, 1], that overlaps another device or that is of the same kind as one already present is rejected with an error.',
 ['histories', 'inputs'], 'all sequences of device insertions and strip divisions, all relative positions',
 FEW + 'devices are inserted once with fixed positions and the subareas are not looked at.',
 ['objects/aircraft.py'], [('SegmentStrip._add_subarea, _update_subarea', A), ('StripSubdivision', A), ('WingSegment.add_subdivision', A)],
 [('SegmentStrip.subarea', 'parts of a strip', A)], ['relative chordwise positions of the parts of a strip']),
prop('G04', 'A control surface covers exactly the requested span and chord',
 'A control surface given by inner and outer span position, chord position and hinge position becomes flap or slat parts on exactly the strips between its inner and outer end (to within the minimum strip width), on one segment or across several, and on no other strip. Along the surface the chord and hinge positions at its two ends are the requested ones and neighbouring parts share the same chord and hinge position at their common edge; for a surface across several segments they vary linearly with the distance along the surface. Points given by relative span and chord positions map bilinearly onto the segment.',
 ['inputs', 'histories'], 'all controls: any positions, any number of segments and of existing strips',
 FEW + 'one aircraft has controls, and where the devices end up is not checked.',
 ['objects/aircraft.py', 'aero/vlm.py'], [('add_subdivision_for_control, _get_outer_neighbour_subdiv, xsi_interpol, get_abs_segment_point_coords', A), ('pre_panelling', P+'aero/vlm.py')],
 [('strips, subareas', 'where devices were placed', A)], ['subareas of a control after pre-panelling']),
prop('B01', 'Lattice bookkeeping, memory and panels agree',
 'The regions of the lattice are all parts of all strips of all segments of all wings in a fixed order, each followed by its mirrored copy if and only if the wing has a symmetry plane. Their panel index ranges are consecutive, start at zero, do not overlap and end at the number of panels; the number of chordwise panels of a device is the one set for its control and that of a main part is the segment value scaled by its chord share, rounded up. All lattice arrays are allocated for exactly this number of panels, each region is handed to the lattice generator with its own four corners and counts, and the counts reported for wings, controls, regions, strips and panels are the true ones.',
 ['inputs', 'configurations'], 'all aircraft: any numbers of wings, segments, strips, devices, all symmetries and panel settings',
 FEW + 'nothing checks the bookkeeping, and memory errors in the compiled part stay silent.',
 ['aero/vlm.py', 'objects/vlm_struct.py', 'objects/objecttools.py'], [('gen_lattice', P+'aero/vlm.py'), ('update_bookkeeping', P+'objects/vlm_struct.py'), ('all_subareas and counters', P+'objects/objecttools.py')],
 [('lattice.panel_bookkeeping, lattice.info', 'regions and panel ranges', P+'objects/vlm_struct.py')], ['bookkeeping entries, array shapes, lattice.info']),
prop('R01', 'Control deflection and camber rotate exactly the right normals',
 'If normal rotations are enabled, the normals of the panels on a control surface, and only those, are rotated about the hinge line by its deflection (by the mirrored deflection on the mirrored side), and all normals are rotated about the local spanwise camber axis by the camber angle of the airfoil interpolated at the middle of the strip, evaluated at the chord position of the collocation point within its part, counted from the leading towards the trailing side of the part. Zero deflection and zero camber leave the normals unchanged, rotations keep unit length, and with normal rotations disabled the normals are those of the flat panels.',
 ['inputs', 'configurations'], 'all deflections, mirrored deflections, hinge lines, airfoils, strips and panel counts',
 FEW + 'no normal is ever checked.',
 ['aero/vlm.py', 'objects/aircraft.py'], [('gen_lattice', P+'aero/vlm.py'), ('abs_hinge_axis, abs_camber_line_rot_axis, get_xsi_for_collocation_points', A)],
 [('lattice.n', 'panel normals', P+'objects/vlm_struct.py')], ['panel normals after lattice generation']),
prop('P01', 'Automatic panelling respects user settings and gives positive counts',
 'Panel counts the user set for a segment or control are never changed. Where they are not set, the chordwise count is the chordwise default of the settings and the spanwise count of a segment is the spanwise default scaled by its share of the wing span, rounded up, so that every segment and every control of the aircraft ends up with positive counts.',
 ['inputs', 'configurations'], 'all aircraft, all subsets of set counts, all defaults',
 FEW + 'the counts that result are not looked at.',
 ['aero/vlm.py', 'objects/objecttools.py'], [('set_autopanels', P+'aero/vlm.py'), ('all_segments, all_controls', P+'objects/objecttools.py')],
 [('panels', 'panel counts of segments and controls', A)], ['panel counts after automatic panelling']),
prop('D01', 'Deformation reaches exactly the wing and side it is given for',
 'Loading a deformation file assigns each deformation field to the wing with exactly that identifier, a field whose identifier is that of a wing plus the suffix "_m" (and not itself the identifier of a wing) to the mirrored side of that wing, ignores entries whose identifier begins with an underscore, and changes nothing else, whatever the wings are called; a run uses the deformation file exactly if the settings name one. Strip corner points on a side without field are exactly the undeformed ones; on a side with a field they are the undeformed (or mirrored) points moved by the field of that side, however often they are computed, and the parts of the strip keep their relative chord positions between them.',
 ['inputs'], 'all wing identifiers, all deformation fields, both sides, all symmetry planes',
 FEW + 'the deformation test files are not among the stable tests.',
 ['fileio/native/deformation.py', 'objects/aircraft.py'], [('load', P+'fileio/native/deformation.py'), ('standard_run', P+'stdfun/run.py'), ('get_deformed_segment_point, SegmentStrip.abs_vertices', A)],
 [('Wing.def_field, def_field_mirror', 'deformation fields', A)], ['fields on the wings, corner points of lattice regions']),
prop('W01', 'Segment and wing geometry follow from the vertices',
 'For a segment given by its four vertices the inner and outer chord are the lengths of its two side edges, its span is the length of its leading edge projected on the plane normal to the x-axis and its area is span times mean chord; the vertices themselves are not altered. Area and span of a wing are sums over its segments and the area of the aircraft is the sum over its wings; the relative positions of consecutive segments are contiguous, start at 0 and end at 1.',
 ['inputs'], 'all vertex coordinates with non-vertical chords, all numbers of segments and wings',
 FEW + 'derived geometry is not compared with anything.',
 ['objects/aircraft.py'], [('WingSegment.generate, area; Wing.generate, area, span; Aircraft.area', A)],
 [('geometry, position', 'derived segment geometry', A)], ['geometry entries, areas, spans, positions']),
prop('W03', 'Segments given by geometric properties have exactly these properties',
 'A segment of a wing can be given by its four vertices, by one vertex and all geometric properties, by the vertices a and d and all properties but those of the inner edge, or by b and c and all but those of the outer edge; the positions of the twist axis can always be left out and are then at the quarter chord. Values of zero are values. Any other combination is rejected with an error. After generation the points given are corners of the segment unchanged, the edges ad and bc have the chord, incidence (positive nose up) and yaw (positive towards y), the leading edge has the sweep and, normal to x, the span, and the twist axis has the dihedral that was given (chords and span positive; for a negative chord or span corners change names accordingly), and the properties that define it are kept. Properties that are not given, or given along with vertices that determine them, are recorded as they follow from the vertices, so that a segment which is given by the recorded properties and one of the vertices is the same segment; in an aircraft it is used like a segment given by its vertices.',
 ['inputs'], 'all combinations of vertices and geometric properties, all values of chords, span and axis positions and all angles below 90 degrees',
 FEW + 'no test gives a segment by geometric properties.',
 ['objects/aircraft.py'], [('WingSegment.generate, check_vertices, check_geometry', A)],
 [('vertices, geometry', 'definition of a segment', A)], ['vertices and geometry entries after generation, raised errors']),
prop('W02', 'Invalid aircraft definitions are rejected, valid ones accepted',
 'Duplicate or empty identifiers of wings, segments and controls, identifiers that are not strings, symmetry values other than 0 to 3, device types other than slat and flap, a missing or non-numeric deflection or one outside -90 to 90 degrees (also for the mirrored side of a symmetric wing), an outer end that is not outboard of the inner end on the same segment, relative positions of controls outside of 0 to 1, reference areas, spans or chords that are missing or not positive, reference points and segment vertices that are not three numbers, numbers of panels that are not positive integers, and airfoils that are neither an existing file nor a NACA name are rejected with an error and leave existing components in place. Valid values are accepted and stored unchanged; on a symmetric wing a missing mirrored deflection becomes the deflection.',
 ['inputs'], 'all values of the named inputs, including the limits of the ranges',
 FEW + 'only valid models are loaded.',
 ['objects/aircraft.py'], [('Aircraft.add_wing, Wing.add_segment, Wing.add_control, symmetry, WingControl.check, device_type, Aircraft.generate, WingSegment.check_vertices, check_panels, _import_airfoils', A)],
 [('wings, segments, controls', 'components of the model', A)], ['raised errors, stored components']),
prop('I01', 'Saving and loading an aircraft file preserves the model',
 'Loading an aircraft file yields a model with exactly the wings, segments and controls of the file, in file order, with all their values under the same names; optional entries that are missing stay unset, except that a mirrored deflection which is missing on a wing with symmetry becomes the deflection. Saving a model changes nothing in it, and loading the saved file gives a model with the same identifiers, reference values, symmetry, vertices, airfoils, panel counts, devices, deflections and relative positions.',
 ['inputs'], 'all aircraft models: any numbers of components and all values',
 FEW + 'no test saves a model and loads it again.',
 ['fileio/native/aircraft.py', 'fileio/utils.py'], [('load, save', P+'fileio/native/aircraft.py'), ('NDArrayEncoder, dump_pretty_json', P+'fileio/utils.py')],
 [], ['model after load, file after save']),
prop('I02', 'Settings are completed by defaults, validated, and saved without internals',
 'Settings that the user does not give have the documented default and settings that are given are kept (a nested group is given as a whole, an incomplete group is an error; if no result plot option is chosen, pressure coefficients are the default); a value of the wrong type at any level of nesting (other than the optional deformation file), or an internal small number outside (0, 1), is rejected with an error. Every settings object has its own defaults and its own copy of what it was given, so that changing one never changes another, the defaults or the dictionary of the caller. A saved settings file contains no entry whose name begins with an underscore, at any level of nested groups, and every other entry unchanged; saving does not change the settings object.',
 ['inputs', 'histories'], 'all settings dictionaries, all sequences of creating and changing settings objects',
 FEW + 'wrong types and more than one settings object per process are not tried.',
 ['objects/settings.py', 'objects/utils.py', 'fileio/native/settings.py'], [('Settings.update_from_dict, _check_settings_dict', P+'objects/settings.py'), ('check_dict, get_default_dict', P+'objects/utils.py'), ('clean_dict, save', P+'fileio/native/settings.py')],
 [('Settings.settings', 'settings values', P+'objects/settings.py')], ['settings dictionary, raised errors, settings file']),
prop('I03', 'Result files contain the computed values under the right names',
 'Each result file is written exactly if its option is set and contains the values of the current flight condition: the global file the operating conditions, references, forces and coefficients under their own names, the panel file one row per panel in panel order whose columns are the quantities named in the header at that place, the matrix file the influence matrix followed by the right-hand side as last column, and the results table of a run all operating conditions and results of all entries. Writing a result file does not change the results.',
 ['inputs', 'configurations'], 'all results, all numbers of panels and entries, all combinations of options',
 FEW + 'the content of the files is not compared with the results.',
 ['fileio/native/results.py'], [('save_all, _save_glob_results, _save_panelwise, _save_matrix_system, save_aeroperformance_map', P+'fileio/native/results.py')],
 [], ['result files']),
prop('I04', 'Creating a template project never touches existing data',
 'If the target folder of the project template already exists, nothing at all is created, changed or deleted and the program ends with an error status. Otherwise a complete project is created whose settings, state and aircraft files can be loaded again, and the aircraft file it was made from, if any, is left as it was.',
 ['inputs', 'configurations'], 'all prior contents of the working directory, all database aircraft',
 FEW + 'the template is only made in an empty directory.',
 ['stdfun/setup.py', 'fileio/native/settings.py'], [('setup_wkdir', P+'stdfun/setup.py')],
 [], ['file system before and after']),
prop('K01', 'CPACS tables are read and results written to the right places',
 'From a CPACS performance table altitude, Mach number, angle of attack and angle of sideslip are read entry by entry into the flight conditions of the same name with zero rotation rates, and vectors of different length are rejected. Results are written back to the table as lift, drag, side force and roll, pitch and yaw moment coefficients, each from the coefficient of that meaning with one value per entry; an existing vector is replaced, a missing one added under the table, and the document is saved and closed even if writing fails.',
 ['inputs', 'fault_sequences'], 'all tables and documents, existing or missing result vectors, failures during writing',
 'The CPACS libraries are not installed, so no test reaches this code.',
 ['fileio/cpacs/state.py', 'fileio/cpacs/results.py', 'fileio/cpacs/utils.py'], [('_get_aero_dict_from_APM', P+'fileio/cpacs/state.py'), ('save_aeroperformance_map', P+'fileio/cpacs/results.py'), ('add_vector, modify_cpacs', P+'fileio/cpacs/utils.py')],
 [], ['calls made on the CPACS document interface']),
prop('K02', 'CPACS aircraft definitions are read into the same model',
 'Loading a CPACS aircraft yields a wing for each wing element in document order under its identifier (a numbered name if it has none) with the symmetry the geometry library reports, and for each of its segments one segment whose corners are the points in the middle between lower and upper surface at the corners of that segment, named so that a-b is the leading edge and a, d are the inner ends, and whose airfoils are the files written for the profiles of its inner and outer section. Every completely defined trailing-edge device becomes a flap whose ends and hinge are at the segments and relative positions which the geometry library reports for its leading-edge and hinge points, with the deflection given for its identifier in the tool-specific part (zero if there is none), on whichever wing it is; a deflection for an unknown control is an error. Reference point, area and length become the reference values of the model, and every airfoil profile is written as a file of its x and z coordinates.',
 ['inputs'], 'all CPACS documents: any numbers of wings, segments, devices, deflections and profiles, missing or present optional elements',
 'The CPACS libraries are not installed, so no test reaches this code.',
 ['fileio/cpacs/aircraft.py'], [('load, get_aircraft_wings, get_aircraft_wing_segments, get_aircraft_controls, get_aircraft_deflections, get_aircraft_refs, get_airfoil_file_from_cpacs', P+'fileio/cpacs/aircraft.py')],
 [], ['aircraft model after load, airfoil files']),
prop('I05', 'Project files are found and written at their documented places',
 'For a settings file in a project folder (or in its settings subfolder) the aircraft, deformation, settings and state files are looked up in the folders of those names in the project folder under the names given in the settings; results and plots of flight condition i go to folders named after the settings file and the number i, so that neither conditions nor settings files overwrite each other, and the results table to the file named after the settings file. The aircraft file is taken as CPACS exactly if its extension is .xml and as native exactly if it is .json (in upper or lower case), and anything else is an error; flight conditions can be taken from CPACS only together with a CPACS aircraft. Loading a state file yields exactly the flight conditions in it. Cleaning a project removes only its result and plot folders.',
 ['inputs', 'configurations'], 'all project locations, settings values, file names and numbers of flight conditions',
 FEW + 'the tests only look whether a run ends without error.',
 ['objects/settings.py', 'fileio/native/settings.py', 'fileio/native/state.py', 'objects/utils.py'], [('Settings.__init__, generate_paths, clean', P+'objects/settings.py'), ('load', P+'fileio/native/settings.py'), ('load', P+'fileio/native/state.py')],
 [], ['paths of the settings object, flight states, folders removed']),
prop('K03', 'Converting a CPACS aircraft to the native format keeps the model',
 'Converting a CPACS file in any folder writes a native aircraft file of the same name with the extension .json beside it and the airfoil files into the airfoil folder of the working directory (which is made if needed); used in a project in the working directory the native file yields the same aircraft as the CPACS file: wings, segments, corners, airfoils, symmetry, controls, hinges, deflections and reference values. The CPACS file is not changed.',
 ['inputs', 'configurations'], 'all CPACS documents, locations of the file and prior contents of the working directory',
 'The CPACS libraries are not installed, so no test reaches this code.',
 ['stdfun/setup.py', 'fileio/cpacs/aircraft.py', 'fileio/native/aircraft.py'], [('cpacs2pytornado', P+'stdfun/setup.py'), ('load, write_airfoil_files', P+'fileio/cpacs/aircraft.py'), ('save', P+'fileio/native/aircraft.py')],
 [], ['native aircraft file, airfoil files']),
prop('I06', 'The command line does exactly what its options say',
 'The command line performs exactly the action asked for: running the settings file given, converting the CPACS file given, making the template project, making a project from the database aircraft of the name given (with or without extension), or listing the database with the name and comment of every aircraft. With --clean old results of the project are removed before it is run, with --clean-only they are removed and nothing is run. Contradicting actions, cleaning without a settings file, and the name of an aircraft that is not in the database are errors, and nothing is run, removed or made. Every aircraft in the database is found by its name and no other file is ever taken for it.',
 ['inputs', 'configurations'], 'all combinations of options, all file and aircraft names, all contents of the database folder',
 'The stable tests only use --run on fixed projects.',
 ['src/bin/_pytornado_exe.py', 'database/tools.py'], [('main', 'src/bin/_pytornado_exe.py'), ('get_aircraft_file_path, list_aircraft_names, print_available_aircraft', P+'database/tools.py')],
 [], ['actions performed, exit status, files made or removed']),
prop('V01', 'Plots show the model and the results, and change nothing',
 'Every plot the settings ask for, to be saved or to be shown, is made once per flight condition, and no other: saved in that flight condition\'s plot folder if and only if it is to be saved, shown on screen if and only if it is to be shown; the results plot once for every quantity chosen. Geometry, lattice and results have one view in space and three plane views, labelled by the coordinates they show, and each contains the whole aircraft. The geometry plot has the outline of every segment and every control and every hinge line at their coordinates, with the reflection on symmetric wings; the lattice plot the outline of every panel, the controls (unless a wing is deformed) and, if asked for, the points of every deformation field; both mark the centre of gravity. The results plot shows every panel at its place in the colour of its value relative to the range of values of all panels, and an arrow along the free stream. Plotting changes neither model, lattice, flight condition, results nor settings.',
 ['inputs', 'configurations'], 'all models with any number of wings, segments, controls and panels, all results, all plot settings',
 'The stable test counts image files of one project; it never looks at what a plot shows or at what plotting leaves behind.',
 ['plot/makeplots.py', 'plot/plottools.py', 'plot/downwash.py', 'objects/aircraft.py'],
 [('make_all, plot_geometry_aircraft, plot_lattice_aircraft, plot_results_aircraft', P+'plot/makeplots.py'), ('plot2d3d, add_wings, add_controls, add_lattice, add_results, add_deformation_field_points, add_freestream_vector, _plot_XYZ_points, _scale_plots, show_and_save', P+'plot/plottools.py'),
  ('view_downwash', P+'plot/downwash.py'), ('WingControl.abs_vertices, abs_hinge_vertices', P+'objects/aircraft.py')],
 [], ['what is drawn, saved and shown at the calls of the plotting library, settings and model afterwards']),
]
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as fp:
        for p in props:
            assert len(p['title']) <= 80, p['id']
            fp.write(json.dumps(p) + '\n')
    print(len(props), 'properties')
