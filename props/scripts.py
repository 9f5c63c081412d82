"""loading single files of the repository with symbolic stand-ins for the libraries they use"""
import contextlib
import importlib.util
import os
import sys

import torch

from symx import npx
from symx.runner import REPO

_n = [0]


def load(path, name=None):
    """a fresh copy of a module of the repository (so that nothing it caches survives a path)"""
    _n[0] += 1
    name = name or 'verif_fresh_%d' % _n[0]
    spec = importlib.util.spec_from_file_location(name, os.path.join(REPO, path))
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    try:
        spec.loader.exec_module(m)
    finally:
        del sys.modules[name]
    return m


def numeric(ctx, path):
    """fresh module whose numpy works on terms in symbolic runs"""
    m = load(path)
    if ctx.symbolic:
        npx.patch(m)
    return m


def submodule(ctx, path, package):
    """same for a module with relative imports"""
    import importlib
    parent = importlib.import_module(package)
    _n[0] += 1
    name = '%s.verif_fresh_%d' % (package, _n[0])
    m = load(path, name)
    if ctx.symbolic:
        npx.patch(m)
    return m


def vector(ctx, values):
    import numpy as np
    return npx.wrap(values) if ctx.symbolic else np.array(values, dtype=float)


def values(ctx, a):
    """nested lists"""
    import numpy as np
    a = np.asarray(a)

    def rec(x):
        if isinstance(x, np.ndarray):
            return [rec(y) for y in x] if x.ndim else x[()]
        return x
    return rec(a)


def same(ctx, label, got, want, tol=None):
    import numpy as np
    g = values(ctx, got)

    def shape(x):
        return (len(x),) + (shape(x[0]) if x and isinstance(x[0], list) else ()) if isinstance(x, list) else ()
    if shape(g) != shape(want):
        ctx.fail('%s: shape %s instead of %s' % (label, shape(g), shape(want)))
        return

    def rec(l, a, b):
        if isinstance(b, list):
            for i, (x, y) in enumerate(zip(a, b)):
                rec('%s[%d]' % (l, i), x, y)
        else:
            ctx.check_eq(l, a, b, tol) if tol else ctx.check_eq(l, a, b)
    rec(label, g, want)


class Token(str):
    """a token of unknown identity: comparing two of them is decided by the solver"""
    def __new__(cls, name, term):
        t = str.__new__(cls, '<%s>' % name)
        t.term = term
        return t

    def __hash__(self):
        return 0

    def split(self, *a, **k):
        r = str.split(self, *a, **k)
        return [self] if len(r) == 1 and str.__str__(r[0]) == str.__str__(self) else r

    def strip(self, *a):
        return self

    def __reduce__(self):
        return Token, (str.__str__(self)[1:-1], self.term)

    def __eq__(self, o):
        if isinstance(o, Token):
            return o is self or bool(self.term == o.term)
        return False

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return bool(self.term < o.term) if isinstance(o, Token) else str.__lt__(self, o)

    def __gt__(self, o):
        return bool(self.term > o.term) if isinstance(o, Token) else str.__gt__(self, o)

    def __le__(self, o):
        return not self > o

    def __ge__(self, o):
        return not self < o


def need(m, *names):
    from symx.ctx import Skip
    for n in names:
        if not hasattr(m, n):
            raise Skip('%s is no longer a function of the module' % n)


def tokens(ctx, name, count, n):
    """count tokens among n possible ones"""
    out = []
    for i in range(count):
        k = ctx.integer('%s%d' % (name, i), 0, n - 1)
        out.append(Token('%s%d' % (name, i), k) if ctx.symbolic else 't%d' % int(k))
    return out


def cls(ctx, t):
    """comparison key of a token for specifications"""
    return t


@contextlib.contextmanager
def globals_of(m, **kw):
    old = {k: m.__dict__.get(k, contextlib) for k in kw}
    m.__dict__.update(kw)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is contextlib:
                m.__dict__.pop(k, None)
            else:
                m.__dict__[k] = v


class Text(str):
    """text read from a file: the placeholders in it become tokens when it is cut"""
    def __new__(cls, s, reg):
        t = str.__new__(cls, s)
        t.reg = reg
        return t

    def __reduce__(self):
        return str, (str.__str__(self),)

    def _w(self, s):
        return self.reg.get(str.__str__(s)) or Text(s, self.reg)

    def split(self, *a, **k):
        return [self._w(x) for x in str.split(self, *a, **k)]

    def rsplit(self, *a, **k):
        return [self._w(x) for x in str.rsplit(self, *a, **k)]

    def splitlines(self, *a, **k):
        return [Text(x, self.reg) for x in str.splitlines(self, *a, **k)]

    def partition(self, sep):
        return tuple(self._w(x) for x in str.partition(self, sep))

    def strip(self, *a):
        return self._w(str.strip(self, *a))

    def rstrip(self, *a):
        return self._w(str.rstrip(self, *a))

    def lstrip(self, *a):
        return self._w(str.lstrip(self, *a))

    def replace(self, *a):
        return self._w(str.replace(self, *a))

    def __getitem__(self, i):
        return self._w(str.__getitem__(self, i))


class Reader:
    def __init__(self, f, reg):
        self.f, self.reg, self.name = f, reg, f.name

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __iter__(self):
        return iter(self.readlines())

    def __next__(self):
        l = self.f.readline()
        if not l:
            raise StopIteration
        return Text(l, self.reg)

    def read(self, *a):
        return Text(self.f.read(*a), self.reg)

    def readline(self):
        return Text(self.f.readline(), self.reg)

    def readlines(self):
        return [Text(l, self.reg) for l in self.f.readlines()]

    def close(self):
        self.f.close()


class Run:
    """result of running a script"""
    def __init__(self, out, written, data, values):
        self.out, self.written, self.data, self.values = out, written, data, values

    def number(self, text):
        """the number printed as text"""
        text = text.strip()
        if text.startswith('<value'):
            return self.values[int(text[6:-1])]
        return float(text)


def run(ctx, path, argv, files, data=None, module=None):
    """Runs main() of a script. files: name -> lines (lists of strings and tokens); data: name -> object stored as yaml.
    Arguments starting with '@' name files of the scratch directory."""
    import contextlib as cl
    import io
    import shutil
    import tempfile
    import yaml
    import argparse
    from symx import terms as T
    m = module or numeric(ctx, path)
    d = tempfile.mkdtemp(prefix='verif')
    reg, loaded, printed = {}, {}, []
    for n, lines in files.items():
        with open(os.path.join(d, n), 'w') as f:
            for l in lines:
                for w in l:
                    if isinstance(w, Token):
                        reg[str.__str__(w)] = w
                f.write(' '.join(str.__str__(w) for w in l) + '\n')
    over = {}
    for n, o in (data or {}).items():
        with open(os.path.join(d, n), 'w') as f:
            if not ctx.symbolic:
                yaml.dump(o, f)
    if ctx.symbolic:
        def fake_open(p, mode='r', *a, **k):
            f = open(p, mode, *a, **k)
            return f if any(c in mode for c in 'wax+b') else Reader(f, reg)

        def dump(o, stream=None, *a, **k):
            loaded[os.path.basename(stream.name)] = o
        safe_load = lambda f, *a, **k: data[os.path.basename(f.name)] if data and os.path.basename(f.name) in data else yaml.safe_load(f.read())
        over['open'] = fake_open
        if hasattr(m, 'yaml'):
            over['yaml'] = npx.Namespace(yaml, dict(dump=dump, safe_dump=dump, safe_load=safe_load, load=safe_load))
    old, out = sys.argv, io.StringIO()
    sys.argv = ['script'] + [os.path.join(d, a[1:]) if a.startswith('@') else a for a in argv]
    try:
        T.HOOKS.printed = printed if ctx.symbolic else None
        with globals_of(m, **over), cl.redirect_stdout(out):
            try:
                m.main()
            except SystemExit as e:
                raise RuntimeError('the script stopped with status %s' % e)
        written = {}
        for a in argv:
            n = a[1:]
            if a.startswith('@') and n not in files and n not in (data or {}) and os.path.exists(os.path.join(d, n)):
                with open(os.path.join(d, n)) as f:
                    s = f.read()
                written[n] = [[reg.get(w, w) for w in l.split()] for l in s.splitlines()]
                if not ctx.symbolic:
                    try:
                        loaded[n] = yaml.safe_load(s)
                    except yaml.YAMLError:
                        pass
        return Run([[reg.get(w, w) for w in l.split()] for l in out.getvalue().splitlines()], written, loaded, printed)
    finally:
        T.HOOKS.printed = None
        sys.argv = old
        shutil.rmtree(d)


def eqt(ctx, a, b):
    """condition that two tokens are equal"""
    if ctx.symbolic and isinstance(a, Token) and isinstance(b, Token):
        return ctx.equal(a.term, b.term)
    return a == b if not ctx.symbolic else ctx.equal(int(str.__eq__(a, b)), 1)


class Archive:
    """what np.load returns for an archive"""
    def __init__(self, d):
        self.d = dict(d)
        self.files = list(d)

    def keys(self):
        return self.d.keys()

    def values(self):
        return [self[k] for k in self.d]

    def items(self):
        return [(k, self[k]) for k in self.d]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def __getitem__(self, k):
        if k not in self.d:
            raise KeyError('%s is not a file in the archive' % k)
        return self.d[k].copy()

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Scratch:
    """a scratch directory in which commands of the repository run"""
    def __init__(self, ctx):
        import tempfile
        self.ctx, self.dir = ctx, tempfile.mkdtemp(prefix='verif')
        self.archives = {}
        self.saved = {}
        self.undo = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        import shutil
        for f in self.undo:
            f()
        shutil.rmtree(self.dir)

    def path(self, name):
        return os.path.join(self.dir, name)

    def pickle(self, name, obj):
        import pickle
        with open(self.path(name), 'wb') as f:
            pickle.dump(obj, f)

    def unpickle(self, name):
        import pickle
        with open(self.path(name), 'rb') as f:
            return pickle.load(f)

    def text(self, name, lines):
        with open(self.path(name), 'w') as f:
            f.write(''.join(l + '\n' for l in lines))

    def archive(self, name, arrays):
        """features archive"""
        import numpy as np
        whole = lambda v: all(map(whole, v)) if isinstance(v, list) else isinstance(v, int)
        self.archives[os.path.abspath(self.path(name))] = {k: np.array(v, dtype=int) if whole(v) else vector(self.ctx, v) for k, v in arrays.items()}
        if not self.ctx.symbolic:
            np.savez(self.path(name), **{k: np.array(v) for k, v in arrays.items()})

    def proxy(self, m):
        """numpy of a module that finds the archives"""
        import numpy as np
        if not self.ctx.symbolic:
            return
        self.undo.append(npx.patch(m))

        def load(path, *a, **k):
            p = os.path.abspath(str(path))
            if isinstance(self.saved.get(p), dict):
                return Archive(self.saved[p])
            return Archive(self.archives[p]) if p in self.archives else np.load(path, *a, **k)

        def save(path, arr, *a, **k):
            if isinstance(arr, torch.Tensor):
                arr = arr.detach().numpy()
            if getattr(arr, 'dtype', None) == object and arr.size and all(isinstance(x, npx.Term) and x.op == 'c' and x.sort == 'I' for x in arr.reshape(-1)):
                arr = np.array([int(x.args) for x in arr.reshape(-1)]).reshape(arr.shape)
            if npx.symbolic(arr) and any(isinstance(x, npx.Term) for x in np.asarray(arr, dtype=object).reshape(-1)):
                self.saved[os.path.abspath(str(path))] = arr
            else:
                np.save(path, arr, *a, **k)

        def savez(path, **arrays):
            p = os.path.abspath(str(path))
            self.saved[p if p.endswith('.npz') else p + '.npz'] = arrays
        for v in vars(m).values():
            if isinstance(v, npx.Namespace) and v.__dict__['_real'] is np:
                v.__dict__.update(load=load, save=save, savez=savez)

    def loaded(self, name):
        import numpy as np
        p = os.path.abspath(self.path(name))
        return self.saved[p] if p in self.saved else np.load(p, allow_pickle=True)

    def script(self, path, argv, files=None, stdin=(), config=None, sep=','):
        """runs main() (or run()) of a script; files: name -> lines of words and tokens; stdin: such lines; arguments starting
        with '@' are files of the scratch directory, the words and tokens of an argument given as list are joined with sep"""
        import contextlib as cl
        import io
        import yaml
        from symx import terms as T
        m = load(path)
        self.proxy(m)
        reg, printed, over = {}, [], {}

        def lines(ls):
            for l in ls:
                for w in l:
                    if isinstance(w, Token):
                        reg[str.__str__(w)] = w
            return ''.join(' '.join(str.__str__(w) for w in l) + '\n' for l in ls)
        for n, ls in (files or {}).items():
            with open(self.path(n), 'w') as f:
                f.write(lines(ls))
        text = lines(stdin)
        if self.ctx.symbolic:
            def fake_open(p, mode='r', *a, **k):
                f = open(p, mode, *a, **k)
                return f if any(c in mode for c in 'wax+b') else Reader(f, reg)
            over['open'] = fake_open
        for n, o in (config or {}).items():
            with open(self.path(n), 'w') as f:
                if not self.ctx.symbolic:
                    yaml.safe_dump(o, f)
        if config and self.ctx.symbolic:
            def ld(f, *a, **k):
                return config[os.path.basename(f.name)]
            over['yaml'] = npx.Namespace(yaml, dict(safe_load=ld, load=ld))
        args = ['script']
        for a in argv:
            if isinstance(a, list):
                lines([a])
                args.append(Text(sep.join(str.__str__(w) for w in a), reg))
            else:
                args.append(self.path(a[1:]) if a.startswith('@') else a)
        old, old_in, out = sys.argv, sys.stdin, io.StringIO()
        sys.argv = args
        sys.stdin = io.StringIO(text)
        sys.stdin.name = 'stdin'
        if self.ctx.symbolic:
            sys.stdin = Reader(sys.stdin, reg)
        here = os.getcwd()
        os.chdir(self.dir)
        try:
            T.HOOKS.printed = printed if self.ctx.symbolic else None
            with globals_of(m, **over), cl.redirect_stdout(out):
                try:
                    (m.main if hasattr(m, 'main') else m.run)()
                except SystemExit as e:
                    raise RuntimeError('the script stopped with status %s' % e)
        finally:
            T.HOOKS.printed = None
            sys.argv, sys.stdin = old, old_in
            os.chdir(here)
        self.reg = reg
        return Run([[reg.get(w, w) for w in l.split()] for l in out.getvalue().splitlines()], {}, {}, printed)

    def words(self, name):
        """words of a file the script wrote"""
        with open(self.path(name)) as f:
            return [[self.reg.get(w, w) for w in l.split()] for l in f]

    def command(self, path, argv, stdin=(), package=None, config=None):
        """runs a subcommand of the command line tool; arguments starting with '@' are files of the scratch directory;
        config: object that the yaml file of that name holds"""
        import argparse
        import contextlib as cl
        import importlib
        import io
        import logging
        import yaml
        package = package or os.path.dirname(path).replace(os.sep, '.')
        importlib.import_module(package)
        _n[0] += 1
        m = load(path, '%s.verif_fresh_%d' % (package, _n[0]))
        self.proxy(m)
        over = {}
        for n, o in (config or {}).items():
            with open(self.path(n), 'w') as f:
                if not self.ctx.symbolic:
                    yaml.safe_dump(o, f)
        if config and self.ctx.symbolic:
            def ld(f, *a, **k):
                return config[os.path.basename(f.name)]
            over['yaml'] = npx.Namespace(yaml, dict(safe_load=ld, load=ld))
        p = argparse.ArgumentParser()
        m.setup(p)
        try:
            args = p.parse_args([self.path(a[1:]) if a.startswith('@') else a for a in argv])
        except SystemExit as e:
            raise RuntimeError('the command stopped with status %s' % e)
        out, old = io.StringIO(), sys.stdin
        sys.stdin = io.StringIO(''.join(l + '\n' for l in stdin))
        try:
            with globals_of(m, **over), cl.redirect_stdout(out):
                m.main(args, logging.getLogger('verif'))
        finally:
            sys.stdin = old
        return [l.split() for l in out.getvalue().splitlines()]
