PROPERTY = 'G02'
NEEDS = 'a division inboard of an existing division line (lines are not added from root to tip)'
BREAKS = 'the new strip ends where the most recently made strip ends, so that strips overlap'
EDITS = [
    ('objects/aircraft.py',
     "        subdivision_rel_vertices['eta_b'] = prev_subdivision.rel_vertices['eta_b']\n        subdivision_rel_vertices['eta_c'] = prev_subdivision.rel_vertices['eta_c']\n",
     "        last = self.subdivision[idx_new - 1]\n        subdivision_rel_vertices['eta_b'] = last.rel_vertices['eta_b']\n        subdivision_rel_vertices['eta_c'] = last.rel_vertices['eta_c']\n"),
]
DEMO = '''
ac = model(1, 0)
ac.generate()
s = ac.wings['wing'].segments['s0']
for eta in (0.3, 0.6, 0.15, 0.45):
    s.add_subdivision(eta, eta)
e = sorted((x.rel_vertices['eta_a'], x.rel_vertices['eta_b'], x.rel_vertices['eta_d'], x.rel_vertices['eta_c']) for x in s.subdivision.values())
lines = [0.0, 0.15, 0.3, 0.45, 0.6, 1.0]
expect(len(e) == 5 and close(e, [(a, b, a, b) for a, b in zip(lines, lines[1:])]), 'strips cover the span once')
'''
