PROPERTY = 'P01'
NEEDS = 'a segment whose share of the span, times the default count, has a fraction below one half'
BREAKS = 'automatic spanwise count is rounded to the nearest integer (at least 1) instead of up'
EDITS = [('aero/vlm.py', "ceil((segment_span/wing_span)*autopanels_s)", "max(MIN_AUTOPANELS, round((segment_span/wing_span)*autopanels_s))")]
DEMO = '''
from pytornado.aero import vlm
segs = [dict(a=[0, 0, 0], b=[0, 6, 0], c=[1, 6, 0], d=[1, 0, 0]), dict(a=[0, 6, 0], b=[0, 10, 0], c=[1, 10, 0], d=[1, 6, 0])]
ac = model(2, 0, (), panels=(None, None), segs=segs)
ac.generate()
vlm.set_autopanels(ac, St(vlm_autopanels_s=4))
n = [s.panels['num_s'] for s in ac.wings['wing'].segments.values()]
expect(n == [3, 2], 'spanwise counts rounded up: [3, 2], got %s' % n)
'''
