PROPERTY = 'I06'
NEEDS = 'the name of an aircraft which is only a part of a name in the database'
BREAKS = 'a name which is not in the database is taken for another aircraft instead of being an error'
EDITS = [
    ('database/tools.py',
     '        if Path(Path(path).name).stem == aircraft_name:\n',
     '        if Path(path).name.startswith(aircraft_name):\n'),
]
DEMO = '''
import pytornado.database.tools as T
for n in T.list_aircraft_names():
    expect(T.get_aircraft_file_path(n).endswith('/' + n + '.json'), 'found: %s' % n)
for n in ('bw', 'box', 'd15', 'opti', 'NASA', 'd150.', 'bwbx'):
    try:
        p = T.get_aircraft_file_path(n)
    except FileNotFoundError:
        continue
    expect(False, '%s is not in the database but gives %s' % (n, p))
'''
