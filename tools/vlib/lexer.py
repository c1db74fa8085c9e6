"""MSH bytes -> tokens <<enc, kind, value>> with concrete values (doubles as bits, strings as bytes).
An independent reader of the format, for files this library or others wrote."""
import re, struct

from .codec import SIZE, WS, bits, read_quoted, word_at

_int = re.compile(rb'[+-]?\d+$')
_num = re.compile(rb'[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?$')


class LexError(Exception):
    pass


class Lexer:
    def __init__(self, b):
        self.b, self.p, self.t = b, 0, []
        self.bin, self.ver = False, None

    # --- fields
    def word(self):
        w, self.p = word_at(self.b, self.p)
        if not w:
            raise LexError('end of file')
        return w

    def int(self, kind):
        w = self.word()
        if not _int.match(w):
            raise LexError('%r instead of an integer before byte %d' % (w[:40], self.p))
        v = int(w)
        self.t.append([0, kind, v])
        return v

    def num(self, kind):
        w = self.word()
        if not _num.match(w):
            raise LexError('%r instead of a number before byte %d' % (w[:40], self.p))
        self.t.append([0, kind, bits(float(w))])

    def string(self):
        while self.p < len(self.b) and self.b[self.p] in WS:
            self.p += 1
        r = read_quoted(self.b, self.p)
        if r is None:
            raise LexError('no string at byte %d' % self.p)
        self.t.append([0, 's', r[0]])
        self.p = r[1]

    def nl(self):
        if self.b[self.p:self.p + 1] != b'\n':
            raise LexError('no line end before the binary data at byte %d' % self.p)
        self.p += 1
        self.t.append([0, 'nl', 0])

    def raw(self, enc, kind):
        c = self.b[self.p:self.p + enc]
        if len(c) < enc:
            raise LexError('end of file')
        self.p += enc
        v = int.from_bytes(c, 'little', signed=(enc == 4 and kind in 'ei'))
        self.t.append([enc, kind, v])
        return v

    def f(self, enc, kind):
        if self.bin:
            return self.raw(enc, kind)
        return self.num(kind) if kind in 'dr' else self.int(kind)

    def many(self, n, enc, kind):
        for _ in range(n):
            self.f(enc, kind)

    def sep(self):
        if self.bin:
            self.nl()

    # --- sections
    def file(self):
        while self.b[self.p:].strip(WS):
            w = self.word()
            if not w.startswith(b'$'):
                raise LexError('%r between sections' % w[:40])
            name = w[1:].decode('latin-1')
            self.t.append([0, 'kw', '$' + name])
            m = getattr(self, 's_' + name, None)
            if m is None:
                raise LexError('section %r' % name[:40])
            m()
            w = self.word()
            if w != b'$End' + name.encode('latin-1'):
                raise LexError('%r instead of the end of %s before byte %d' % (w[:40], name, self.p))
            self.t.append([0, 'kw', '$End' + name])
        return self.t

    def s_MeshFormat(self):
        w = self.word()
        self.ver = w.decode('latin-1')
        self.t.append([0, 'w', self.ver])
        b = self.int('i')
        self.int('i')
        if b:
            self.nl()
            if self.raw(4, 'm') != 1:
                raise LexError('byte order')
        self.bin = b != 0

    def s_PhysicalNames(self):
        for _ in range(self.int('n')):
            self.int('i')
            self.int('e')
            self.string()

    def s_Entities(self):
        self.sep()
        n = [self.f(8, 'n') for _ in range(4)]
        for d in range(4):
            for _ in range(n[d]):
                self.f(4, 'e')
                self.many(3 if d == 0 else 6, 8, 'd')
                self.many(self.f(8, 'n'), 4, 'e')
                if d:
                    self.many(self.f(8, 'n'), 4, 'e')

    def s_Nodes(self):
        if self.ver == '2.2':
            n = self.int('n')
            self.sep()
            for _ in range(n):
                self.f(4, 't')
                self.many(3, 8, 'd')
            return
        self.sep()
        nb = self.f(8, 'n')
        self.f(8, 'n')
        self.many(2, 8, 't')
        for _ in range(nb):
            dim = self.f(4, 'i')
            self.f(4, 'e')
            par = self.f(4, 'i')
            n = self.f(8, 'n')
            self.many(n, 8, 't')
            self.many(n * (3 + (dim if par == 1 else 0)), 8, 'd')

    def size(self, t):
        if not 1 <= t <= 31:
            raise LexError('element type %d' % t)
        return SIZE[t - 1]

    def s_Elements(self):
        if self.ver == '2.2':
            n = self.int('n')
            self.sep()
            if not self.bin:
                for _ in range(n):
                    self.int('t')
                    k = self.size(self.int('i'))
                    self.many(self.int('i'), 0, 'e')
                    self.many(k, 0, 't')
                return
            while not self.b[self.p:self.p + 13].lstrip(b'\n').startswith(b'$EndElem'):
                k = self.size(self.raw(4, 'i'))
                m = self.raw(4, 'n')
                nt = self.raw(4, 'i')
                for _ in range(m):
                    self.raw(4, 't')
                    self.many(nt, 4, 'e')
                    self.many(k, 4, 't')
                n -= m
                if n < 0:
                    raise LexError('more elements than announced')
            return
        self.sep()
        nb = self.f(8, 'n')
        self.f(8, 'n')
        self.many(2, 8, 't')
        for _ in range(nb):
            self.f(4, 'i')
            self.f(4, 'e')
            k = self.size(self.f(4, 'i'))
            self.many(self.f(8, 'n') * (k + 1), 8, 't')

    def data(self, per_node):
        for _ in range(self.int('n')):
            self.string()
        for _ in range(self.int('n')):
            self.num('r')
        it = []
        for j in range(self.int('n')):
            it.append(self.int('n' if j in (1, 2) else 'e'))
        if len(it) < 3:
            raise LexError('integer tags')
        self.sep()
        for _ in range(it[2]):
            self.f(4, 't')
            n = self.f(4, 'n') if per_node else 1
            self.many(n * it[1], 8, 'd')

    def s_NodeData(self):
        self.data(False)

    def s_ElementData(self):
        self.data(False)

    def s_ElementNodeData(self):
        self.data(True)

    def s_NanoSplineFormat(self):
        self.t.append([0, 'w', self.word().decode('latin-1')])

    def s_Curves(self):
        for _ in range(self.int('n')):
            for _ in range(3):
                self.int('t')
            ncp, nk, w = self.int('n'), self.int('n'), self.int('t')
            self.sep()
            self.many(ncp * (4 if w > 0 else 3) + nk, 8, 'd')

    def s_Patches(self):
        for _ in range(self.int('n')):
            for _ in range(4):
                self.int('t')
            ncp, nu, nv, w = self.int('n'), self.int('n'), self.int('n'), self.int('t')
            self.sep()
            self.many(ncp * (4 if w > 0 else 3) + nu + nv, 8, 'd')


def lex(b):
    return Lexer(b).file()
