"""Configuration files in both formats."""
import os
import shutil
import tempfile
import types


def ini(secs):
    """{section: {key: value}} -> text; values are written as they are."""
    out = []
    for s, d in secs.items():
        out.append('[%s]' % s)
        for k, v in d.items():
            out.append('%s = %s' % (k, v))
        out.append('')
    return '\n'.join(out)


def scalar(v):
    return str(v)


def yml(secs):
    out = []
    for s, d in secs.items():
        out.append('%s:' % s)
        for k, v in d.items():
            if isinstance(v, dict):
                out.append('    %s:' % k)
                out += ['        %s: %s' % (a, b) for a, b in v.items()]
            else:
                out.append('    %s: %s' % (k, v))
        out.append('')
    return '\n'.join(out)


class Marks:
    """Stands for values in a file that are any of a set: in a symbolic run
    the parser of the file format is given a mark in their place."""

    def __init__(self, ctx):
        self.ctx, self.of = ctx, {}

    def text(self, name, n, quote=False):
        """Any n letters and digits."""
        c = [self.ctx.int('%s_%d' % (name, i), 48, 122) for i in range(n)]
        for x in c:
            self.ctx.assume(self.ctx.bor(
                x <= 57, self.ctx.band(x >= 65, x <= 90), x >= 97))
        if self.ctx.sym:
            from symx import text
            m = 'mark%d' % len(self.of)
            self.of[m] = text.Text(c, m)
            return c, m
        s = ''.join(chr(int(x)) for x in c)
        return c, "'%s'" % s if quote else s

    def number(self, name, lo, hi, typed=False):
        """Any number; typed: the file format has numbers."""
        x = self.ctx.real(name, lo, hi)
        if self.ctx.sym:
            from symx import text
            m = 'mark%d' % len(self.of)
            self.of[m] = x if typed else text.Number(x, m)
            return x, m
        return x, repr(float(x))

    def swap(self, v):
        if isinstance(v, str):
            return self.of.get(v, v)
        if isinstance(v, dict):
            return type(v)((k, self.swap(x)) for k, x in v.items())
        if isinstance(v, list):
            return [self.swap(x) for x in v]
        return v


def read(ctx, text, marks=None, scheduler='single-threaded', workers=1,
         verbose=False, name='run.conf'):
    """The configuration the code reads from a file of this text."""
    from metsim import io
    d = tempfile.mkdtemp(prefix='symx-conf-')
    try:
        p = os.path.join(d, name)
        with open(p, 'w') as f:
            f.write(text)
        opts = types.SimpleNamespace(config=p, scheduler=scheduler,
                                     num_workers=workers, verbose=verbose)
        if not (ctx.sym and marks is not None and marks.of):
            return io.read_config(opts)
        keep = {k: io.__dict__[k] for k in ('ConfigParser', 'yaml')
                if k in io.__dict__}
        io.__dict__.update({k: v for k, v in (
            ('ConfigParser', parser(marks)), ('yaml', loader(marks)))
            if k in keep})
        try:
            return io.read_config(opts)
        finally:
            io.__dict__.update(keep)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def parser(marks):
    from configparser import ConfigParser

    class Parser(ConfigParser):
        def __getitem__(self, k):
            return Section(super().__getitem__(k), marks)
    return Parser


class Section:
    def __init__(self, sec, marks):
        self._s, self._m = sec, marks

    def __getitem__(self, k):
        return self._m.swap(self._s[k])

    def get(self, k, d=None, **kw):
        return self._m.swap(self._s.get(k, d, **kw))

    def keys(self):
        return self._s.keys()

    def items(self):
        return [(k, self._m.swap(v)) for k, v in self._s.items()]

    def values(self):
        return [v for k, v in self.items()]

    def __iter__(self):
        return iter(self._s)

    def __contains__(self, k):
        return k in self._s

    def __len__(self):
        return len(self._s)

    def getboolean(self, k, *a, **kw):
        from symx.sym import Unsupported
        v = self[k] if k in self._s else None
        if v is not None and type(v) is not str:
            raise Unsupported('getboolean of a symbolic text')
        return self._s.getboolean(k, *a, **kw)


def loader(marks):
    import yaml

    class Yaml:
        @staticmethod
        def load(*a, **k):
            return marks.swap(yaml.load(*a, **k))

        @staticmethod
        def safe_load(*a, **k):
            return marks.swap(yaml.safe_load(*a, **k))

        def __getattr__(self, k):
            return getattr(yaml, k)
    return Yaml()
