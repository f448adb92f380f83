"""Text inputs and script runs of the real environment."""
import contextlib
import os
import runpy
import shutil
import sys
import tempfile
from unittest import mock

LETTERS = ([(65, 90), (97, 122), (0xc0, 0xd6), (0xd8, 0xf6), (0xf8, 0xff),
           (0x2019, 0x2019), (0x160, 0x161)])


SCRATCH = '/nonexistent/sx'
LAYOUT = {'data': ('data',), 'target': ('target',),
          'default': ('kamrecsys', 'datasets', 'data')}


class RealText:
    def digit(self, name, lo=0, hi=9):
        return chr(self.int(name, 48 + lo, 48 + hi))

    def letter(self, name):
        return chr(self.int(name, 65, 0x2019))

    def text_int(self, s):
        return int(s)

    def text_float(self, s):
        return float(s)

    def text_eq(self, a, b, label):
        return self.check(a == b, label, '%r vs %r' % (a, b))

    def join(self, *parts):
        return ''.join(parts)

    def script(self, src, argv, files, made=(), out_enc=None):
        from .harness import REPO
        root = tempfile.mkdtemp(prefix='symex-script-')
        old = sys.argv
        try:
            dirs = {k: os.path.join(root, *v) for k, v in LAYOUT.items()}
            for d in dirs.values():
                os.makedirs(d)
            for f in os.listdir(os.path.join(REPO, 'data')):
                if f.endswith('.py'):
                    shutil.copy(os.path.join(REPO, 'data', f), dirs['data'])
            was = {}
            for n, (t, e) in files.items():
                d, _, b = n.rpartition('/')
                p = os.path.join(dirs[d or 'data'], b)
                with open(p, 'wb') as f:
                    f.write(t.encode(e))
                was[p] = t.encode(e)
            path = os.path.join(dirs['data'], src + '.py')
            sys.argv = [path] + [dirs['target'] if a == 'TARGET' else a
                                 for a in argv]
            code = None
            with open(os.devnull, 'w') as null, \
                    contextlib.redirect_stdout(null), \
                    contextlib.redirect_stderr(null):
                try:
                    g = runpy.run_path(path, run_name='__main__')
                except SystemExit as ex:
                    code, g = ex.code or 0, {}
            del g
            res = {}
            for d, where in dirs.items():
                for b in os.listdir(where):
                    p = os.path.join(where, b)
                    if not os.path.isfile(p) or (d == 'data' and
                                                 b.endswith('.py')):
                        continue
                    with open(p, 'rb') as f:
                        raw = f.read()
                    if was.get(p) == raw:
                        continue
                    n = d + '/' + b
                    res[n] = raw.decode((out_enc or {}).get(n, 'utf-8'))
            return code, res
        finally:
            sys.argv = old
            shutil.rmtree(root, ignore_errors=True)

    def on_machine(self, values, output, versions, f):
        """f(module with the environment report) on a described machine

        values: answers of the platform functions; output: what the hardware
        listing prints; versions: of the packages.
        """
        import builtins
        import importlib.util
        import platform
        import subprocess
        from . import machine
        m = machine.Machine(values, output, lambda t: t.encode('utf-8'),
                            lambda t: t)
        was = builtins.open

        def opened(*a, **k):
            r = m.open(*a, **k)
            return was(*a, **k) if r is None else r
        self.load('kamrecsys.utils.kamexputils')
        with contextlib.ExitStack() as st:
            for mod, names in ((platform, m.platform_functions()),
                               (subprocess, m.subprocess_names())):
                for n, v in names.items():
                    st.enter_context(mock.patch.object(mod, n, v))
            for n, v in versions.items():
                st.enter_context(mock.patch.object(
                    importlib.import_module(n), '__version__', v))
            st.enter_context(mock.patch.object(builtins, 'open', opened))
            spec = importlib.util.find_spec('kamrecsys.utils.kamexputils')
            mod = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(mod)
            return f(mod)
