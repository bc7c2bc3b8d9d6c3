PROPERTY = 'B01'
NEEDS = 'chord share times chordwise count only slightly above an integer (e.g. 0.76 * 4 = 3.04)'
BREAKS = 'number of chordwise panels of main parts is rounded to one decimal before rounding up'
EDITS = [('aero/vlm.py', "ceil(subarea.rel_length*num_chordwise_panels)", "ceil(round(subarea.rel_length*num_chordwise_panels, 1))")]
DEMO = '''
C = ('f', 'flap', 's0', 's0', 0.2, 0.8, 0.76, 0.76, 0.76, 0.76, 5.0, 5.0, 2)
ac = model(1, 0, [C], panels=(4, 3))
lat = lattice(ac)
for e in lat.panel_bookkeeping:
    st = e.subarea.parent_subdivision
    if e.subarea.type == 'segment':
        expect(e.num_chordwise_panels == 4, 'ceil(0.76*4) = 4 chordwise panels, got %d' % e.num_chordwise_panels)
'''
