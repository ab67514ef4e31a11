"""Text with symbolic numbers in it, and files made of such text (for the XYZ writers and readers).

Assumed of Python: '%d' (or str) of an integer is a non-empty token without blanks from which int() recovers the integer;
a float format yields a token whose number is the value rounded as the format says; a width only adds leading blanks."""
import re
from .num import Num, Unsupported
from . import num as N, logic

SPEC = re.compile(r'%(\((\w+)\))?([#0\- +]*)(\d+|\*)?(\.(\d+))?[hlL]?([diouxXeEfFgGcrsa%])')


class Field:
    __slots__ = ('conv', 'val', 'prec')

    def __init__(self, conv, val, prec=None):
        self.conv, self.val, self.prec = conv, val, prec

    def __repr__(self):
        return '<%s %s>' % (self.conv, self.val)


def norm(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return out


class SymStr:
    def __init__(self, parts):
        self.parts = norm(parts)

    @staticmethod
    def make(parts):
        p = norm(parts)
        if all(isinstance(x, str) for x in p):
            return ''.join(p)
        return SymStr(p)

    @staticmethod
    def of(s):
        return s.parts if isinstance(s, SymStr) else [s]

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr.make(self.parts + SymStr.of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr.make([o] + self.parts)

    def __bool__(self):
        return True

    def __getitem__(self, k):
        if k == slice(None, -1, None):
            if isinstance(self.parts[-1], str):
                return SymStr.make(self.parts[:-1] + [self.parts[-1][:-1]])
        if k == slice(None, None, None):
            return self
        raise Unsupported('slice of symbolic text')

    def __len__(self):
        raise Unsupported('length of symbolic text')

    def __iter__(self):
        raise Unsupported('characters of symbolic text')

    def __contains__(self, x):
        if any(x in p for p in self.parts if isinstance(p, str)):
            return True
        raise Unsupported('search in symbolic text')

    def __eq__(self, o):
        if isinstance(o, str) and not o.strip():
            return False
        raise Unsupported('comparison of symbolic text')

    __hash__ = None

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def rstrip(self, chars=None):
        p = list(self.parts)
        if isinstance(p[-1], str):
            p[-1] = p[-1].rstrip(chars)
        elif chars is not None and chars.strip(' \t\r\n'):
            raise Unsupported('strip')
        return SymStr.make(p)

    def lstrip(self, chars=None):
        p = list(self.parts)
        if isinstance(p[0], str):
            p[0] = p[0].lstrip(chars)
        elif chars is not None and chars.strip(' \t\r\n'):
            raise Unsupported('strip')
        return SymStr.make(p)

    def startswith(self, x):
        if isinstance(self.parts[0], str) and len(self.parts[0]) >= len(x):
            return self.parts[0].startswith(x)
        raise Unsupported('startswith')

    def endswith(self, x):
        if isinstance(self.parts[-1], str) and len(self.parts[-1]) >= len(x):
            return self.parts[-1].endswith(x)
        raise Unsupported('endswith')

    def split(self, sep=None, maxsplit=-1):
        if maxsplit != -1:
            raise Unsupported('split limit')
        toks, cur = [], []
        if sep is None:
            for p in self.parts:
                if not isinstance(p, str):
                    if cur:
                        raise Unsupported('number glued to text')   # a width may or may not separate them
                    cur.append(p)
                    continue
                for piece in re.split(r'(\s+)', p):
                    if not piece:
                        continue
                    if piece.isspace():
                        if cur:
                            toks.append(SymStr.make(cur))
                            cur = []
                    else:
                        cur.append(piece)
            if cur:
                toks.append(SymStr.make(cur))
            return toks
        for p in self.parts:
            if not isinstance(p, str):
                cur.append(p)
                continue
            bits = p.split(sep)
            for i, b in enumerate(bits):
                if i:
                    toks.append(SymStr.make(cur))
                    cur = []
                cur.append(b)
        toks.append(SymStr.make(cur))
        return toks

    def number(self, kind):
        p = [x for x in self.parts if not (isinstance(x, str) and not x.strip())]
        if len(p) != 1 or not isinstance(p[0], Field):
            raise Unsupported('number from mixed text %r' % (self.parts,))
        f = p[0]
        if kind == 'int':
            if f.conv == 'd':
                return f.val
            raise ValueError('invalid literal for int()')
        return f.val

    def __repr__(self):
        return 'SymStr%r' % (self.parts,)


def issym(x):
    from .arr import SymArr, base
    if isinstance(x, SymStr):
        return True
    if isinstance(x, Num):
        return not (x.is_const() and x.isint)
    return False


def plain(x):
    if isinstance(x, Num) and x.is_const():
        a, b = x.cval()
        if not b and x.isint:
            return int(a)
    return x


def field(conv, x, width=None, prec=None):
    """parts for one formatted value"""
    if isinstance(x, SymStr):
        if conv != 's':
            raise TypeError('format')
        return x.parts
    x = plain(x)
    if not isinstance(x, Num):
        return None
    if conv in 'di':
        if not x.isint:
            raise Unsupported('%d of a value not known to be an integer')
        return [Field('d', x)]
    if conv in 'eEfFgG':
        return [Field('f', x, prec)]
    if conv in 'sr':
        return [Field('d' if x.isint else 's', x)]
    raise Unsupported('format %' + conv)


def fmt(l, r):
    """l % r"""
    args = r if isinstance(r, tuple) else (r,)
    if isinstance(l, str) and not any(issym(a) for a in args):
        return l % (tuple(plain(a) for a in args) if isinstance(r, tuple) else plain(r))
    parts, pos, i = [], 0, 0
    text = l
    if not isinstance(l, str):
        raise Unsupported('format text')
    for m in SPEC.finditer(text):
        parts.append(text[pos:m.start()])
        pos = m.end()
        conv = m.group(7)
        if conv == '%':
            parts.append('%')
            continue
        if m.group(2) or m.group(4) == '*':
            raise Unsupported('format')
        if i >= len(args):
            raise TypeError('not enough arguments for format string')
        f = field(conv, args[i], m.group(4), int(m.group(6)) if m.group(6) else None)
        parts += [m.group(0) % plain(args[i])] if f is None else f
        i += 1
    parts.append(text[pos:])
    if i != len(args):
        raise TypeError('not all arguments converted during string formatting')
    return SymStr.make(parts)


def fstr(*items):
    """f-string: items are literal text or (value, conversion, spec)"""
    parts = []
    for it in items:
        if isinstance(it, str):
            parts.append(it)
            continue
        v, conv, spec = it
        v = plain(v)
        if issym(v):
            m = re.fullmatch(r'([<>^=]?)[+ ]?\d*(?:\.(\d+))?([a-zA-Z]?)', spec or '')
            if not m or m.group(1) in ('<', '^'):
                raise Unsupported('format spec %r' % spec)
            f = field(m.group(3) or 's', v, None, int(m.group(2)) if m.group(2) else None)
            parts += f
        else:
            if conv != -1:
                v = {'r': repr, 's': str, 'a': ascii}[chr(conv)](v)
            parts.append(format(v, spec or ''))
    return SymStr.make(parts)


class Block:
    """text written by a loop of symbolic length: `parts` once per index of the length"""
    def __init__(self, d, parts):
        self.d, self.parts = d, parts


class LineBlock:
    """the lines of a Block: k lines per index"""
    def __init__(self, d, lines):
        self.d, self.lines = d, lines
        self.group = (d,) if len(lines) == 1 else (d, len(lines))

    def map(self, f):
        return LineBlock(self.d, [f(x) for x in self.lines])


class ConcatList:
    """a list some stretches of which have symbolic length"""
    def __init__(self, items):
        self.items = items

    def __symlen__(self):
        from . import seq
        n = Num.of(0)
        for x in self.items:
            n = n + (seq.gsize(x.group) if isinstance(x, LineBlock) else 1)
        return Num(n.n, n.d, True)

    def __getitem__(self, k):
        from . import seq
        if isinstance(k, Num) and k.is_const():
            k = k.__index__()
        off = Num.of(0)
        for x in self.items:
            if isinstance(x, LineBlock):
                for j, _, e in seq.positions(x.group):
                    if seq.same(e + off, k):
                        return x.lines[j]
                off = off + seq.gsize(x.group)
            else:
                if seq.same(off, k):
                    return x
                off = off + 1
        raise Unsupported('element of a list of symbolic length')

    def _bad(self, *a, **k):
        raise Unsupported('list of symbolic length')

    def __bool__(self):
        if any(not isinstance(x, LineBlock) for x in self.items):
            return True
        raise Unsupported('list of symbolic length')

    __len__ = __iter__ = __contains__ = append = extend = pop = insert = _bad


def collect(lst, f, g):
    """while True: a = f.readline(); if not a: break; lst.append(g(a))"""
    if isinstance(f, VFile) and f.blocks():
        if not isinstance(lst, list) or lst:
            raise Unsupported('lines of a file of symbolic length')
        t, f.todo = f.todo, []
        return ConcatList([x.map(g) if isinstance(x, LineBlock) else g(x) for x in t])
    while True:
        a = f.readline()
        if not a:
            return lst
        lst.append(g(a))


class VFile:
    """file of a private file system"""
    def __init__(self, fs, name, mode):
        self.fs, self.name, self.closed = fs, name, False
        if 'b' in mode or '+' in mode:
            raise Unsupported('file mode ' + mode)
        if mode.startswith('r'):
            if name not in fs:
                raise FileNotFoundError(2, 'No such file or directory', name)
            self.todo = lines(fs[name])
            self.r = True
        else:
            if mode.startswith('w') or name not in fs:
                fs[name] = []
            self.r = False

    def write(self, s):
        if self.r:
            raise OSError('not writable')
        if not isinstance(s, (str, SymStr)):
            raise TypeError('write() argument must be str')
        self.fs[self.name] += SymStr.of(s)

    def writelines(self, L):
        for s in L:
            self.write(s)

    def blocks(self):
        return self.r and any(isinstance(x, LineBlock) for x in self.todo)

    def readline(self):
        if self.todo and isinstance(self.todo[0], LineBlock):
            raise Unsupported('line of a file of symbolic length')
        return self.todo.pop(0) if self.todo else ''

    def readlines(self):
        b = self.blocks()
        t, self.todo = self.todo, []
        return ConcatList(t) if b else t

    def read(self):
        if self.blocks():
            raise Unsupported('content of a file of symbolic length')
        t, self.todo = self.todo, []
        return SymStr.make([p for s in t for p in SymStr.of(s)])

    def __iter__(self):
        while self.todo:
            yield self.readline()

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def lines(parts):
    """text split after every newline"""
    out, cur = [], []
    for p in norm(parts):
        if isinstance(p, Block):
            L = lines(p.parts)
            if cur or not L or any(isinstance(x, LineBlock) or not (SymStr.of(x)[-1:] and isinstance(SymStr.of(x)[-1], str) and SymStr.of(x)[-1].endswith('\n')) for x in L):
                raise Unsupported('text written by a loop is not made of lines')
            out.append(LineBlock(p.d, L))
            continue
        if not isinstance(p, str):
            cur.append(p)
            continue
        for piece in re.split(r'(\n)', p):
            if piece == '\n':
                cur.append(piece)
                out.append(SymStr.make(cur))
                cur = []
            elif piece:
                cur.append(piece)
    if cur:
        out.append(SymStr.make(cur))
    return out
