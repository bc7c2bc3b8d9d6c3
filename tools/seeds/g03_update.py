PROPERTY = 'G03'
NEEDS = 'a tapered flap in a strip that is divided afterwards'
BREAKS = 'after the division the main part ends at the wrong side of the flap edge'
EDITS = [
    ('objects/aircraft.py',
     "            self.subarea['flap'].rel_vertices['xsi_b'] = xsi2\n\n            self.subarea['segment'].rel_vertices['xsi_c'] = xsi2\n            self.subarea['segment'].rel_vertices['xsi_d'] = xsi1\n",
     "            self.subarea['flap'].rel_vertices['xsi_b'] = xsi2\n\n            self.subarea['segment'].rel_vertices['xsi_c'] = xsi1\n            self.subarea['segment'].rel_vertices['xsi_d'] = xsi2\n"),
]
DEMO = '''
ac = model(1, 0, [('f', 'flap', 's0', 's0', 0.2, 0.8, 0.8, 0.7, 0.8, 0.7, 0.0, 0.0, 2)], panels=(3, 4))
lattice(ac)
n = 0
for st in ac.wings['wing'].segments['s0'].subdivision.values():
    m = st.subarea['segment'].rel_vertices
    if 'flap' in st.subarea:
        f = st.subarea['flap'].rel_vertices
        n += 1
        expect(close([m['xsi_d'], m['xsi_c']], [f['xsi_a'], f['xsi_b']]), 'main part ends where the flap begins')
expect(n >= 3, 'flap strips')
'''
