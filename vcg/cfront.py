"""C++ front end: the real source files are parsed by clang on every run; function
bodies are taken from clang's AST dump (JSON) as they are."""
import glob
import json
import os
import subprocess

REPO = os.environ.get('PYTORNADO_REPO', '/repo')
AERO = 'src/lib/pytornado/aero'
VENV_PY = '/opt/venv/bin/python'
_inc = []


def includes():
    if not _inc:
        out = subprocess.run([VENV_PY, '-c', 'import sysconfig,numpy;print(sysconfig.get_paths()["include"]);print(numpy.get_include())'],
                             capture_output=True, text=True, check=True).stdout.split()
        _inc.extend('-I' + p for p in out)
    return _inc


class FrontError(Exception):
    pass


class CProgram:
    def __init__(self, repo=None):
        self.dir = os.path.join(repo or REPO, AERO)
        self.files = sorted(glob.glob(os.path.join(self.dir, '*.cpp')))
        self.text = {f: open(f, errors='replace').read() for f in self.files}
        for h in glob.glob(os.path.join(self.dir, '*.h')):
            self.text[h] = open(h, errors='replace').read()
        self.cache = {}
        self.decl = {}
        self.consts = {}

    def dump(self, f, name):
        key = (f, name)
        if key not in self.cache:
            p = subprocess.run(['clang++', '-x', 'c++', '-fsyntax-only', '-w'] + includes() +
                               ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + name, f],
                               capture_output=True, text=True, cwd=self.dir)
            if p.returncode != 0:
                raise FrontError('clang rejects %s: %s' % (os.path.basename(f), p.stderr[:500]))
            out, dec, i, s = [], json.JSONDecoder(), 0, p.stdout
            while True:
                j = s.find('{', i)
                if j < 0:
                    break
                o, i = dec.raw_decode(s, j)
                out.append(o)
            self.cache[key] = out
        return self.cache[key]

    def function(self, name, prefer=None):
        """definition (with body) of a function, searched in all source files"""
        if name in self.decl:
            return self.decl[name]
        cands = [f for f in self.files if name in self.text[f]]
        heads = [h for h in self.text if h.endswith('.h') and name in self.text[h]]
        if heads and not cands:
            cands = self.files[:1]
        cands.sort(key=lambda f: (name + '(') not in self.text[f])
        for f in cands:
            for pre in ('vlm_', 'py2c_', 'get_', 'set_'):
                if name.startswith(pre):
                    flt = pre
                    break
            else:
                flt = name
            for o in self.dump(f, flt):
                self._register(o, f)
            if name in self.decl:
                return self.decl[name]
        return None

    def variable(self, name):
        for f in self.files:
            if name in self.text[f]:
                for o in self.dump(f, name):
                    if o.get('kind') == 'VarDecl' and o.get('name') == name and 'inner' in o:
                        return o
        return None

    def record(self, name):
        """names and types of the fields of a record defined in one of the files"""
        name = name.split('::')[-1]
        for f in self.files:
            if name in self.text[f] or any(name in t for h, t in self.text.items() if h.endswith('.h')):
                for o in self.dump(f, name):
                    if o.get('kind') == 'CXXRecordDecl' and o.get('name') == name and o.get('completeDefinition'):
                        from .cexec import fields_of
                        return fields_of(o)
        return None

    def overloads(self, name):
        """number of definitions of a name"""
        seen = set()
        for f in self.files:
            if name in self.text[f]:
                for o in self.dump(f, name):
                    if o.get('kind') == 'FunctionDecl' and o.get('name') == name and any(c.get('kind') == 'CompoundStmt' for c in o.get('inner', [])):
                        seen.add((f, o.get('id')))
        return len(seen)

    def _register(self, o, f):
        if o.get('kind') == 'FunctionDecl' and any(c.get('kind') == 'CompoundStmt' for c in o.get('inner', [])):
            self.decl.setdefault(o['name'], o)
            o['_file'] = f

    def constant(self, name):
        if name in self.consts:
            return self.consts[name]
        for f in self.files:
            for o in self.dump(f, name):
                if o.get('kind') == 'VarDecl' and o.get('name') == name and 'inner' in o:
                    self.consts[name] = o
                    return o
            # headers are shared: the first file is enough unless it is local
        return None


def qt(node):
    return node.get('type', {}).get('desugaredQualType') or node.get('type', {}).get('qualType', '')
