PROPERTY = 'W02'
NEEDS = 'a reference area, span or chord of exactly zero'
BREAKS = 'it is accepted (and coefficients become infinite)'
EDITS = [
    ('objects/aircraft.py', "SCHEMA_FLOAT_POS = {'type': float, '>': 0}\n", "SCHEMA_FLOAT_POS = {'type': float, '>=': 0}\n"),
]
DEMO = '''
ac = model()
ac.generate()
for k in ('area', 'span', 'chord'):
    ac = model()
    ac.refs[k] = 0.0
    try:
        ac.generate()
    except Exception:
        continue
    expect(False, k + ' of zero is rejected')
'''
