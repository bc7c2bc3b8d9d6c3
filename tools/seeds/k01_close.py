PROPERTY = 'K01'
NEEDS = 'an error while results are written to the CPACS document'
BREAKS = 'the document is neither saved nor closed if writing fails'
EDITS = [
    ('fileio/cpacs/utils.py',
     '    try:\n        yield tixi\n    finally:\n        close_tixi(tixi, cpacs_file)\n',
     '    yield tixi\n    close_tixi(tixi, cpacs_file)\n'),
]
DEMO = '''
from pytornado.fileio.cpacs import utils
class Doc:
    log = []
    def saveDocument(self, f):
        self.log.append(f)
    def close(self):
        self.log.append('close')
utils.open_tixi = lambda f: Doc()
try:
    with utils.modify_cpacs('doc.xml') as d:
        raise KeyError('x')
except KeyError:
    pass
expect(Doc.log == ['doc.xml', 'close'], 'saved and closed')
'''
