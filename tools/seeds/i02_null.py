PROPERTY = 'I02'
NEEDS = 'a setting given as null that must not be'
BREAKS = 'null is accepted for every setting'
EDITS = [
    ('objects/utils.py',
     '        if None not in dtype:\n',
     '        if None not in dtype and test_dict[key] is not None:\n'),
]
DEMO = '''
from pytornado.objects.settings import Settings
good = {'aircraft': 'a.json', 'state': 's.json', 'save_results': {'global': True, 'panelwise': False, 'aeroperformance': False, 'matrix_system': False}}
Settings('x.json', SCRATCH, settings_dict=good, make_dirs=False)
for bad in ({'vlm_autopanels_c': None}, {'save_results': dict(good['save_results'], panelwise=None)}, {'state': None}):
    try:
        Settings('x.json', SCRATCH, settings_dict=dict(good, **bad), make_dirs=False)
    except TypeError:
        continue
    expect(False, 'null is rejected: %s' % bad)
'''
