PROPERTY = 'W02'
NEEDS = 'symmetric wing, control with a valid deflection and a mirrored deflection outside -90 to 90 degrees'
BREAKS = 'the range of the mirrored deflection is not checked (the deflection of the original side is checked twice)'
EDITS = [('objects/aircraft.py', "elif not -90.0 <= self.deflection_mirror <= +90.0:", "elif not -90.0 <= self.deflection <= +90.0:")]
DEMO = '''
for d in (-90.5, 120.0):
    try:
        model(1, 2, [('f', 'flap', 's0', 's0', 0.2, 0.8, 0.7, 0.7, 0.7, 0.7, 10.0, d, 2)])
    except Exception:
        continue
    expect(False, 'mirrored deflection %s is rejected' % d)
'''
