PROPERTY = 'G04'
NEEDS = 'a control with tapered hinge line over at least three existing strips of one segment'
BREAKS = 'the hinge position at the outer edge of inner strips of the control is that of its outer end'
EDITS = [
    ('objects/aircraft.py',
     '                sd_list[-1][2] = xsi_div\n                sd_list[-1][4] = xsi_h_div\n                sd_list.append',
     '                sd_list[-1][2] = xsi_div\n                sd_list.append'),
]
DEMO = '''
ac = model(1, 0, [('s', 'slat', 's0', 's0', 0.3, 0.6, 0.2, 0.2, 0.2, 0.2, 0.0, 0.0, 2),
                  ('f', 'flap', 's0', 's0', 0.1, 0.9, 0.8, 0.7, 0.8, 0.7, 5.0, 5.0, 2)], panels=(3, 1))
lattice(ac)
h = []
for st in ac.wings['wing'].segments['s0'].subdivision.values():
    if 'flap' in st.subarea:
        q = st.subarea['flap'].rel_hinge_vertices
        h.append((st.rel_vertices['eta_a'], q['xsi_h1'], q['xsi_h2']))
h.sort()
expect(len(h) >= 3, 'flap covers several strips')
expect(close(h[0][1], 0.8) and close(h[-1][2], 0.7), 'hinge at the ends')
for a, b in zip(h, h[1:]):
    expect(close(a[2], b[1]), 'hinge line of neighbouring parts meets')
'''
