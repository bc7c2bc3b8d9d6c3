PROPERTY = 'G04'
NEEDS = 'a tapered control that spans at least three segments'
BREAKS = 'the distance along the surface is not accumulated, chord positions on the outer segments are wrong'
EDITS = [
    ('aero/vlm.py',
     'control_len.append(l + np.sqrt(np.dot(ab, ab)))',
     'control_len.append(np.sqrt(l + np.dot(ab, ab)))'),
]
DEMO = '''
segs = [dict(a=[0, 3*i, 0], b=[0, 3*i+3, 0], c=[2, 3*i+3, 0], d=[2, 3*i, 0]) for i in range(3)]
ac = model(3, 0, [('f', 'flap', 's0', 's2', 0.5, 0.5, 0.6, 0.8, 0.6, 0.8, 0.0, 0.0, 2)], panels=(3, 1), segs=segs)
lattice(ac)
e = []
for i, s in enumerate(ac.wings['wing'].segments.values()):
    for st in s.subdivision.values():
        if 'flap' in st.subarea:
            q = st.subarea['flap'].rel_vertices
            e += [(i + st.rel_vertices['eta_a'], q['xsi_a']), (i + st.rel_vertices['eta_b'], q['xsi_b'])]
e.sort()
for y, x in e:
    expect(abs(x - (0.6 + 0.2*(y - 0.5)/2.0)) < 0.01, 'chord position varies linearly along the surface (%r %r)' % (y, x))
expect(close(e[0][1], 0.6) and close(e[-1][1], 0.8), 'chord positions at the ends')
'''
