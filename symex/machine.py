"""A described machine in place of the real one: the answers of the platform
module, the programs that list its hardware, and the package versions.

Used by the symbolic and by the real environment; in the symbolic one the
texts have symbolic characters, and what a program prints is a Raw.
"""
import collections
import io
import os
import platform
import subprocess

NAMES = ('system', 'release', 'version', 'machine', 'processor', 'node',
         'python_compiler', 'python_implementation', 'python_version')
PROGRAMS = [('Darwin', 'system_profiler', 'SPHardwareDataType'),
            ('FreeBSD', 'sysctl', 'hw')]


class Unknown(Exception):
    """the code asked for something the description does not have"""


class Machine:
    """values: answer of every function of NAMES; output: what the hardware
    listing prints; raw: makes bytes of a text; text: a readable text"""

    def __init__(self, values, output, raw, text):
        self.values, self.output = values, output
        self.raw, self.text = raw, text

    # platform ---------------------------------------------------------
    def platform_functions(self):
        v = self.values
        U = collections.namedtuple('uname_result', (
            'system', 'node', 'release', 'version', 'machine', 'processor'))
        out = {n: (lambda n=n: v[n]) for n in NAMES}
        out['uname'] = lambda: U(*[v[n] for n in U._fields])
        return out

    # programs ---------------------------------------------------------
    def printed(self, args, shell=False):
        """what a program prints, and its exit code"""
        if isinstance(args, str):
            args = args.split(' ') if shell else [args]
        prog, rest = os.path.basename(args[0]), [str(a) for a in args[1:]]
        system = self.values['system']
        if prog == 'cat':
            if rest != ['/proc/cpuinfo']:
                raise Unknown('cat %s' % rest)
            return ('', 1) if system != 'Linux' else (self.output, 0)
        for where, p, a in PROGRAMS:
            if p == prog and a in rest and system == where:
                return self.output, 0
        if prog not in [p[1] for p in PROGRAMS]:
            raise Unknown('program %s' % prog)
        raise FileNotFoundError(2, 'No such file or directory', args[0])

    def subprocess_names(self):
        m = self

        def give(kw, t):
            if kw.get('universal_newlines') or kw.get('text') or \
                    kw.get('encoding') or kw.get('errors'):
                return m.text(t)
            return m.raw(t)

        class Popen:
            def __init__(self, args, bufsize=-1, executable=None, stdin=None,
                         stdout=None, stderr=None, shell=False, **kw):
                self.args = args
                t, self.code = m.printed(args, shell)
                self.out = give(kw, t) if stdout == subprocess.PIPE else None
                self.err = give(kw, '') if stderr == subprocess.PIPE else None
                self.returncode = None
                self.pid = 1

            @property
            def stdout(self):
                return self if self.out is not None else None

            def read(self):
                return self.out

            def close(self):
                pass

            def communicate(self, input=None, timeout=None):
                self.returncode = self.code
                return self.out, self.err

            def wait(self, timeout=None):
                self.returncode = self.code
                return self.code

            poll = wait

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

        def run(args, stdin=None, input=None, capture_output=False,
                shell=False, check=False, stdout=None, stderr=None, **kw):
            t, code = m.printed(args, shell)
            if check and code:
                raise subprocess.CalledProcessError(code, args)
            get = capture_output or stdout == subprocess.PIPE
            return subprocess.CompletedProcess(
                args, code, give(kw, t) if get else None)

        def check_output(args, **kw):
            return run(args, check=True, stdout=subprocess.PIPE, **kw).stdout

        def getoutput(cmd):
            t = m.text(m.printed(cmd, True)[0])
            return t[:-1] if t.endswith('\n') else t

        return dict(Popen=Popen, run=run, check_output=check_output,
                    getoutput=getoutput)

    # files ------------------------------------------------------------
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        p = os.fspath(file)
        if p == os.devnull:
            return io.open(os.devnull, mode)
        if p != '/proc/cpuinfo':
            return None
        if self.values['system'] != 'Linux':
            raise FileNotFoundError(2, 'No such file or directory', p)
        return Listing(self.raw(self.output) if 'b' in mode
                       else self.text(self.output), 'b' in mode)


class Listing:
    """an open text in memory"""

    def __init__(self, t, binary):
        self.t, self.nl = t, b'\n' if binary else '\n'

    def read(self):
        t, self.t = self.t, self.t[:0]
        return t

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass
