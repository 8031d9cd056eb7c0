"""Texts of symbolic characters.  A text has a fixed length on each path;
comparisons branch at once."""
from . import sym
from .sym import Unsupported, ite


class Unhashable(Unsupported, TypeError):
    """Text that is not known cannot be a key; dask, which tries whether an
    argument of a task is one, goes on."""


class Text(str):
    """chars: codes of the characters, numbers or symbolic."""

    def __new__(cls, chars, mark='?'):
        s = str.__new__(cls, mark)
        s.chars = list(chars)
        return s

    def _is(self, c, lo, hi):
        return sym.band(c >= lo, c <= hi)

    def _map(self, f):
        return Text([f(c) for c in self.chars], str.__str__(self))

    def lower(self):
        return self._map(lambda c: ite(self._is(c, 65, 90), c + 32, c))

    casefold = lower

    def upper(self):
        return self._map(lambda c: ite(self._is(c, 97, 122), c - 32, c))

    def capitalize(self):
        a, b = self.upper(), self.lower()
        return Text(a.chars[:1] + b.chars[1:], str.__str__(self))

    title = capitalize

    def _drop(self, chars, left, right):
        def hit(x):
            if chars is None:
                return bool(sym.bor(x == 32, self._is(x, 9, 13)))
            return bool(sym.bor(*[x == k for k in codes(chars)])) \
                if len(chars) else False
        c = list(self.chars)
        while left and c and hit(c[0]):
            c.pop(0)
        while right and c and hit(c[-1]):
            c.pop()
        return Text(c, str.__str__(self))

    def strip(self, chars=None):
        return self._drop(chars, True, True)

    def lstrip(self, chars=None):
        return self._drop(chars, True, False)

    def rstrip(self, chars=None):
        return self._drop(chars, False, True)

    def replace(self, old, new, count=-1):
        old, new = codes(old), codes(new)
        if not old or count >= 0:
            raise Unsupported('str.replace of a symbolic text')
        out, i, n = [], 0, len(old)
        while i < len(self.chars):
            w = self.chars[i:i + n]
            if len(w) == n and bool(sym.band(*[a == b
                                               for a, b in zip(w, old)])):
                out += new
                i += n
            else:
                out.append(self.chars[i])
                i += 1
        return Text(out, str.__str__(self))

    def __add__(self, o):
        return Text(self.chars + codes(o), str.__str__(self))

    def __radd__(self, o):
        return Text(codes(o) + self.chars, str.__str__(self))

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return len(self.chars) > 0

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        p = codes(o)
        if len(p) != len(self.chars):
            return False
        return bool(sym.band(*[a == b for a, b in zip(self.chars, p)]))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        raise Unhashable('symbolic text as a key')

    def __getitem__(self, i):
        c = self.chars[i]
        return Text(c if isinstance(i, slice) else [c], str.__str__(self))

    def __iter__(self):
        return (Text([c]) for c in self.chars)

    def startswith(self, p, *a):
        if a or not isinstance(p, str):
            raise Unsupported('startswith')
        return len(p) <= len(self.chars) and self[:len(p)] == p

    def endswith(self, p, *a):
        if a or not isinstance(p, str):
            raise Unsupported('endswith')
        n = len(self.chars) - len(p)
        return n >= 0 and self[n:] == p

    def __str__(self):
        return self

    def __contains__(self, p):
        n = len(p)
        return any(self[i:i + n] == p
                   for i in range(len(self.chars) - n + 1))


def _no(name):
    def f(self, *a, **k):
        raise Unsupported('str.' + name + ' of a symbolic text')
    return f


for _n in ('split', 'rsplit', 'partition', 'rpartition', 'join',
           'format', 'encode', 'find', 'index', 'rfind', 'count', 'isdigit',
           'isalpha', 'isalnum', 'swapcase', 'zfill',
           'translate', '__mod__', '__lt__', '__gt__', '__le__',
           '__ge__', 'splitlines', 'expandtabs', 'isnumeric', 'isdecimal',
           'islower', 'isupper', 'isspace', '__format__'):
    setattr(Text, _n, _no(_n))


def codes(s):
    return list(s.chars) if isinstance(s, Text) else [ord(c) for c in s]


class Number(str):
    """The text of a symbolic number."""

    def __new__(cls, value, mark='?'):
        s = str.__new__(cls, mark)
        s.symx_scripted = value
        return s

    def strip(self, *a):
        return self
