PROPERTY = 'W01'
NEEDS = 'a wing with segments of different span'
BREAKS = 'the relative spanwise positions of the segments are spaced equally'
EDITS = [('objects/aircraft.py', "            pos += segment.geometry['span']\n", "            pos += self.span/len(segments)\n")]
DEMO = '''
segs = [dict(a=[0, 0, 0], b=[0, 6, 0], c=[1, 6, 0], d=[1, 0, 0]), dict(a=[0, 6, 0], b=[0, 10, 0], c=[1, 10, 0], d=[1, 6, 0])]
ac = model(2, 0, segs=segs)
ac.generate()
p = [(s.position['inner'], s.position['outer']) for s in ac.wings['wing'].segments.values()]
expect(close(p, [(0, 0.6), (0.6, 1.0)]), 'relative positions %s' % p)
'''
