PROPERTY = 'I01'
NEEDS = 'a segment with only one of the two panel counts given, saved and loaded again'
BREAKS = 'the panel counts of a segment are saved only if both are given'
EDITS = [
    ('fileio/native/aircraft.py',
     "            for key, value in segment.panels.items():\n                segment_entry['panels'][key] = value\n",
     "            if None not in segment.panels.values():\n                segment_entry['panels'].update(segment.panels)\n"),
]
DEMO = '''
from pytornado.fileio.native import settings as ns, aircraft as na
ac = model(2, 2, panels=(3, None))
s = ns.load(project(ac_file(ac), {}))
m = na.load(s)
na.save(m, s)
m = na.load(s)
expect(all(q.panels['num_c'] == 3 and q.panels['num_s'] is None for q in m.wings['wing'].segments.values()), 'panel counts')
'''
