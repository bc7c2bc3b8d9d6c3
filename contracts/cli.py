"""I06: command line and aircraft database"""
import contextlib
import importlib.machinery
import importlib.util
import io as _io
import os
import sys

from vcg import pysym as ps
from vcg import terms as tm
from vcg.pysym import VC, VCError, S, SB, Str, Atom, SymSeq, LoopSpec, raises, same
from contracts.files import patched, text_base, T


def programs():
    """the command line programs of the package, the real files"""
    b = os.path.join(os.path.dirname(os.environ['VERIF_LIB']), 'bin')
    out, seen = [], set()
    for n in sorted(os.listdir(b)):
        p = os.path.join(b, n)
        if n.endswith('.bat') or os.path.realpath(p) in seen or not os.path.isfile(p):
            continue
        seen.add(os.path.realpath(p))
        ld = importlib.machinery.SourceFileLoader('pytornado_cli_' + n.replace('.', '_'), os.path.realpath(p))
        mod = importlib.util.module_from_spec(importlib.util.spec_from_loader(ld.name, ld))
        ld.exec_module(mod)
        out.append(mod)
    return out


ACTIONS = [('run', ['-r', 'F']), ('run', ['--run', 'F']), ('cpacs', ['--cpacs2json', 'C']), ('make', ['--make-example']), ('list', ['--list-example-from-db']), ('list', ['--ldb']),
           ('db', ['--make-example-from-db', 'N']), ('db', ['--mdb', 'N'])]
FILES = {'F': 'dir/settings file.json', 'C': '/x/model.xml'}


def g_cli():
    ps.load('database.tools', 'stdfun.run', 'stdfun.setup')
    V = VC('command line', ['main (command line)'])
    mods = programs()

    def go():
        v = ps.vc()
        mod = v.choose(*mods)
        i = v.choose(None, *range(len(ACTIONS)))
        j = v.choose(None, *range(i + 1, len(ACTIONS))) if i is not None else None
        clean = v.choose((), ('-c',), ('--clean',), ('--clean-only',), ('--clean', '--clean-only'))
        level = v.choose((), ('-v',), ('--verbose',), ('-d',), ('-q',), ('-v', '-q')) if j is None else ()
        acts = [ACTIONS[n] for n in (i, j) if n is not None]
        name, found = v.choose(('d150', True), ('d150.json', True), ('no_such', False)) if any(a == 'db' for a, _ in acts) else (None, None)
        argv = ['pytornado']
        for _, a in acts:
            argv += [FILES.get(x, name if x == 'N' else x) for x in a]
        argv += list(clean) + list(level)
        log = []
        token = object()

        class Run:
            __prog_name__ = 'pytornado'

            @staticmethod
            def get_settings(settings_filepath):
                log.append(('settings', settings_filepath))
                return token

            @staticmethod
            def clean_project_dir(settings):
                log.append(('clean', settings is token))

            @staticmethod
            def standard_run(args):
                log.append(('run', args.run, bool(args.verbose), bool(args.debug), bool(args.quiet)))

        class Setup:
            @staticmethod
            def setup_wkdir(aircraft_file=None):
                log.append(('make', aircraft_file))

            @staticmethod
            def cpacs2pytornado(file_cpacs):
                log.append(('cpacs', file_cpacs))

        class Db:
            @staticmethod
            def get_aircraft_file_path(aircraft_name):
                if aircraft_name == 'd150':
                    return '/DB/d150.json'
                raise FileNotFoundError

            @staticmethod
            def print_available_aircraft():
                log.append(('list',))
        status = 0
        out = _io.StringIO()
        with patched(mod, stdrun=Run, project_setup=Setup, dbtools=Db, **({'truncate_filepath': str} if hasattr(mod, 'truncate_filepath') else {})), patched(sys, argv=argv), \
                contextlib.redirect_stdout(out), contextlib.redirect_stderr(_io.StringIO()):
            try:
                r, e = raises(mod.main)
            except SystemExit as x:
                e, status = None, x.code
        failed = e is not None or status not in (None, 0)
        kinds = sorted({a for a, _ in acts})
        if len(kinds) > 1 or len(clean) > 1 or len(level) > 1:
            v.check('contradicting options are an error and nothing is done', failed and not log)
            return
        kind = kinds[0] if kinds else None
        if clean and kind != 'run':
            v.check('cleaning without a settings file is an error and nothing is done', failed and not log)
            return
        if kind == 'db' and not found:
            v.check('an unknown aircraft is an error and nothing is made', failed and not [x for x in log if x[0] != 'list'])
            return
        v.check('no error', not failed)
        if failed:
            return
        done = [x for x in log if x[0] != 'settings']
        v.check('settings are read from the file given', all(x[1] == FILES['F'] for x in log if x[0] == 'settings') and (kind == 'run' or len(log) == len(done)))
        f = [x[:1] for x in done]
        fl = tuple(any(o in level for o in (s, '--' + n)) for s, n in (('-v', 'verbose'), ('-d', 'debug'), ('-q', 'quiet')))
        want = []
        if kind == 'run':
            if clean:
                want.append(('clean', True))
            if clean != ('--clean-only',):
                want.append(('run', FILES['F']) + fl)
        elif kind == 'cpacs':
            want.append(('cpacs', FILES['C']))
        elif kind == 'make':
            want.append(('make', None))
        elif kind == 'db':
            want.append(('make', '/DB/d150.json'))
        elif kind == 'list':
            want.append(('list',))
        v.check('exactly what the options say is done', done == want)
        if kind is None:
            v.check('without options the usage is shown', 'usage' in out.getvalue())
    V.run('command line', go)
    return V


def stem_text(x):
    """last component without extension"""
    b = text_base(x)
    if type(b) is not Str:
        return os.path.splitext(b)[0]
    if isinstance(b.parts[-1], str) and b.parts[-1].count('.') == 1 and b.parts[-1].startswith('.'):
        return Str(b.parts[:-1])
    return b


def g_database():
    mod = ps.load('database.tools')
    V = VC('database', ['list_full_aircraft_paths', 'get_aircraft_db_path', 'list_aircraft_names', 'get_aircraft_file_path', 'print_available_aircraft'])
    HERE = os.path.join(os.path.dirname(os.path.abspath(mod.__file__)), 'aircraft')
    stem = lambda k: Str([Atom('stem[%r]' % ps.term(k))])
    path = lambda k: Str([HERE + '/', *stem(k).parts, '.json'])

    cur = [None]

    class Path:
        """pathlib.Path of a text without dots in its unknown part"""

        def __init__(s, x):
            s.x = x.x if type(x) is Path else x

        def __fspath__(s):
            return s.x

        @property
        def name(s):
            return text_base(s.x)

        def __vcstr__(s):
            return s.x

        def glob(s, pattern):
            seq = cur[0].glob(os.path.join(s.x, pattern))
            return SymSeq(seq.name, seq.n, lambda k: Path(seq.elem(k)), seq.spec)

        @property
        def stem(s):
            return stem_text(s.x)

    class OsP:
        @staticmethod
        def basename(x):
            return text_base(x)

        @staticmethod
        def splitext(x):
            b = stem_text(x)
            return b, '.json'

        def __getattr__(s, n):
            return getattr(os.path, n)

    class OsM:
        path = OsP()

        def __getattr__(s, n):
            return getattr(os, n)

    class Glob:
        def __init__(s, seq):
            s.seq = seq
            cur[0] = s

        def glob(s, pathname, recursive=False):
            ps.vc().check('all aircraft files of the database are looked for', os.path.normpath(pathname) == os.path.join(HERE, '*.json'))
            return s.seq

    def names():
        v = ps.vc()
        n = v.int('files', 0)
        seq = SymSeq('files', n, path)
        with patched(mod, Path=Path, glob=Glob(seq), os=OsM()):
            r, e = raises(mod.list_aircraft_names)
            v.check('no error', e is None)
            if e is None:
                v.check('one name per file', same(r.n if isinstance(r, SymSeq) else r.__vclen__() if hasattr(r, '__vclen__') else len(r), n))
                k = v.int('k', 0)
                v.assume(k < n)
                v.check('the name is that of the file', same(r[k], stem(k)))
    V.run('names', names)

    def find():
        v = ps.vc()
        n = v.int('files', 0)
        want = Str([Atom('wanted')])

        class Search(LoopSpec):
            done = False

            def body(s, k, elem, loc, ch):
                v.check('the search goes on only if the name is another one', SB(tm.not_(ps.same(stem(k), want).t)) if type(ps.same(stem(k), want)) is SB else not ps.same(stem(k), want))

            def exit(s, k, loc):
                s.done = True
        sp = Search()
        filtered = []

        class Files(SymSeq):
            def __vccomp__(s, kind, f, cond):
                if cond is None:
                    return SymSeq('files', n, lambda k: f(path(k)), spec=sp)
                filtered.append(ps.Filtered(s, f, cond))
                return filtered[-1]
        seq = Files('files', n, path, spec=sp)
        with patched(mod, Path=Path, glob=Glob(seq), os=OsM()):
            r, e = raises(mod.get_aircraft_file_path, want)
            none = sp.done
            k = v.int('k', 0)
            v.assume(k < n)
            if filtered and filtered[-1].known is False:
                filtered[-1].without(k)
        if filtered and filtered[-1].known is False:
            v.prove('no file has the name', tm.not_(ps.term(same(stem(k), want))))
            none = True
        if e is None:
            v.check('the file found is one of the database with this name', type(r) is Str and isinstance(r.parts[0], str) and r.parts[0] == HERE + '/' and r.parts[-1] == '.json' and not sp.done)
            if type(r) is Str:
                v.check('the file found has the name', same(stem_text(r), want))
        else:
            v.check('an error only if no file has the name', isinstance(e, FileNotFoundError) and none)
    V.run('find', find)

    def listing():
        v = ps.vc()
        n = v.int('files', 0)
        log = []
        cm = Str([Atom('comment')])

        class File:
            def __init__(s, p):
                s.p = p

            def __enter__(s):
                return s

            def __exit__(s, *a):
                pass
            close = __exit__

            def read(s):
                return s

        class Spec(LoopSpec):
            accumulate = False

            def begin(s, k, elem, loc):
                log.clear()
                s.c = v.choose(True, False)

            def body(s, k, elem, loc, ch):
                v.check('one line per aircraft', len(log) == 1)
                if len(log) != 1:
                    return
                t = repr(log[0].parts) + ''.join(p if isinstance(p, str) else p.name for p in log[0].parts) if type(log[0]) is Str else log[0]
                v.check('the line has the name', stem(k).parts[0].name in t)
                v.check('the line has the comment', not s.c or 'comment' in t)

            def exit(s, k, loc):
                log.clear()
        spec = Spec()
        seq = SymSeq('names', n, stem, spec=spec)

        class Json:
            @staticmethod
            def load(f):
                v.check('the file of the aircraft is read', same(stem_text(f.p), stem(spec_k[0])))
                return {'uid': 'x', 'comment': cm} if spec.c else {'uid': 'x'}
            loads = load
        spec_k = [None]
        begin = Spec.begin

        def begin2(s, k, elem, loc):
            spec_k[0] = k
            begin(s, k, elem, loc)
        Spec.begin = begin2

        def file_path(nm):
            return Str([HERE + '/', *nm.parts, '.json'])
        with patched(mod, list_aircraft_names=lambda: seq, get_aircraft_file_path=file_path, open=lambda p, *a, **k: File(p), json=Json, print=lambda *a, **k: log.append(a[0] if a else '')):
            r, e = raises(mod.print_available_aircraft)
        v.check('no error', e is None)
    V.run('listing', listing)
    return V
