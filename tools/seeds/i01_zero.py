PROPERTY = 'I01'
NEEDS = 'a symmetric wing whose control has mirrored deflection 0 and another deflection'
BREAKS = 'a mirrored deflection of zero is read as not given'
EDITS = [
    ('fileio/native/aircraft.py',
     "control_entry.get('deflection_mirror', None)",
     "control_entry.get('deflection_mirror', None) or None"),
]
DEMO = '''
from pytornado.fileio.native import settings as ns, aircraft as na
ac = model(2, 2, [('f', 'flap', 's0', 's1', 0.2, 0.8, 0.8, 0.7, 0.8, 0.7, 10.0, 0.0, 2)])
s = ns.load(project(ac_file(ac), {}))
for i in range(2):
    m = na.load(s)
    c = m.wings['wing'].controls['f']
    expect(c.deflection == 10.0 and c.deflection_mirror == 0.0, 'deflections')
    na.save(m, s)
'''
