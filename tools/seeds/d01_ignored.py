PROPERTY = 'D01'
NEEDS = 'a deformation file in which an ignored entry precedes that of a wing'
BREAKS = 'the fields after the ignored entry are not loaded'
EDITS = [
    ('fileio/native/deformation.py',
     "        if wing_uid.startswith('_'):\n            continue\n",
     "        if wing_uid.startswith('_'):\n            break\n"),
]
DEMO = '''
from pytornado.fileio.native import deformation as D
D.load_json_def_fields = lambda f: {'a': 'fa', '_b': 'fb', 'wing': 'fw'}
f = os.path.join(SCRATCH, 'def.json')
open(f, 'w').write(' ' * 200)
D.truncate_filepath = str


class Paths:
    def __call__(self, uid):
        return f


class Set:
    paths = Paths()


ac = model()
add_wing(ac, 'a')
add_wing(ac, '_b')
D.load(ac, Set())
expect(ac.wings['a'].def_field == 'fa' and ac.wings['_b'].def_field is None, 'fields before and ignored')
expect(ac.wings['wing'].def_field == 'fw', 'field after the ignored one')
'''
