"""writes known_findings.jsonl: repaired and recorded defects of the original code"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ('G01', 'dc543ca', 'mirrored part corners and hinge lines of wings with symmetry plane 3 (yz) used chord positions counted from the wrong side'),
    ('A02', 'b3ca8fe', 'a table was accepted with angles outside -90..90 degrees as long as alpha and beta were not both out of range at once'),
    ('A02', '77529e7', 'flight state parameters set to null were counted as given (crash or wrong combination)'),
    ('S02', 'fc7556c', 'a singular linear system returned numbers instead of an error'),
    ('D01', 'e178cdb', "wing identifiers that contain '_m' anywhere were mangled when deformation fields were assigned"),
    ('D01', '60a5e94', 'computing a deformed point changed the stored field, so that the next computation gave another point'),
    ('A03', '60a5e94', 'results of an entry depended on earlier entries of the table for deformed wings (same cause)'),
    ('G04', '22727bc', 'a control surface that ended just outside of an existing dividing line filled the whole neighbouring strip'),
    ('I01', '3c5a492', "an aircraft file whose control has no 'panels' entry could not be loaded although the entry is optional"),
    ('I02', '42bd1c0', 'lists of the default table and nested values of the user were shared between settings objects'),
    ('I02', 'db9742d', 'saving the settings removed internal nested entries from the live settings object'),
    ('K02', '85f9e33', 'a CPACS deflection for a control on a later wing was looked up while only the first wing was loaded, and ended in an error'),
    ('K03', '5be4818', 'converting (or running) a CPACS file ended in an error if the project had no airfoil folder yet'),
    ('K02', '02c70a1', 'controls read from CPACS named their segments by the raw identifiers, so that segments whose identifiers were cleaned (blanks, points) were not found'),
    ('V01', '3969d32', 'making plots (or only asking whether to make any) wrote the plot folder into the settings, which could not be saved afterwards and left a truncated settings file'),
    ('W03', '6945970', 'a vertex that is not given was taken as given: every segment defined by geometric properties ended in IndexError'),
    ('W03', '0e0a4df', 'geometric properties equal to zero (sweep, dihedral, incidence, yaw, axis) were counted as missing, so that the segment was refused'),
    ('W03', 'aea45c2', 'with vertices a and b (not b and c) given the outer edge was taken as given; with b and c given it was computed from missing properties'),
    ('W03', 'caace78', 'the dihedral of segments with incidence was measured at points mirrored about the chord plane'),
    ('W03', 'a125c7c', 'the yaw recorded for an edge given by vertices had the wrong sign'),
]
KNOWN = []
with open(V + '/known_findings.jsonl', 'w') as f:
    for p, c, w in FIXED:
        f.write(json.dumps({'property': p, 'status': 'fixed', 'commit': c, 'what': w, 'record': 'fixed: property=%s %s %s' % (p, c, w)}) + '\n')
    for k in KNOWN:
        f.write(json.dumps(dict(k, status='known')) + '\n')
