"""Model values <-> concrete values, descriptions and file bytes."""
import itertools, random, re, struct

# ---------------------------------------------------------------------------
# Element table (documentation of the format), used by the independent reader.
SIZE = [2, 3, 4, 4, 8, 6, 5, 3, 6, 9, 10, 27, 18, 14, 1, 8, 20, 15, 13, 9, 10,
        12, 15, 15, 21, 4, 5, 6, 20, 35, 56]
DIM = [1, 2, 2, 3, 3, 3, 3, 1, 2, 2, 3, 3, 3, 3, 0, 2, 3, 3, 3, 2, 2, 2, 2, 2,
       2, 1, 1, 1, 3, 3, 3]


def bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def fl(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def finite(b):
    return (b >> 52) & 0x7ff != 0x7ff


HARD = [0x8000000000000000, 1, 0x8000000000000001, 0x000fffffffffffff, 0x0010000000000000,
        0x7fefffffffffffff, 0xffefffffffffffff, bits(0.1), bits(1 / 3), bits(-1e-300), bits(1e22),
        bits(1e23), bits(123456789.0123456789), 0x3ff0000000000001, 0x3fefffffffffffff,
        bits(9007199254740993.0), bits(-9007199254740991.0), bits(5e-324 * 12345), bits(2.2250738585072011e-308),
        bits(1.7976931348623157e308), bits(-123456.789e-7), bits(0.30000000000000004), bits(4.35), bits(1e16),
        bits(100000.0), bits(1000000.0), bits(1234567.0), bits(-0.0001), bits(0.00001), bits(8.41e21),
        bits(2.0 ** 63), bits(2.0 ** 64), bits(-2.0 ** 31), bits(3.141592653589793), bits(2.718281828459045)]
ODD = [0x7ff8000000000000, 0xfff8000000000001, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff0000000000001,
       0x7ffdeadbeefcafe0, 0xffffffffffffffff]
WSBYTES = [0x09, 0x0a, 0x0d, 0x20, 0x24]


def _ws_values(width, limit, rnd):
    """Increasing integers made of white-space-like bytes only."""
    vals = set()
    if 5 ** width <= 4096:
        for k in range(5 ** width):
            v = 0
            for _ in range(width):
                v = v * 256 + WSBYTES[k % 5]
                k //= 5
            vals.add(v)
    else:
        for c in WSBYTES:
            vals.add(int.from_bytes(bytes([c] * width), 'little'))
        while len(vals) < limit:
            vals.add(int.from_bytes(bytes(rnd.choice(WSBYTES) for _ in range(width)), 'little'))
    vals = sorted(vals)
    if len(vals) > limit:
        keep = {0, len(vals) - 1}
        while len(keep) < limit:
            keep.add(rnd.randrange(len(vals)))
        vals = [vals[i] for i in sorted(keep)]
    return vals


STRINGS = [b'', b' ', b'a b', b'"', b'\\', b'a"b\\c"', b'\n', b'line1\nline2\r\n\t', b'$EndPhysicalNames',
           b'"\n$EndPhysicalNames\n$Nodes\n1\n', b'$EndNodeData\n', b'\\"', b'\\\\', b'\xc3\xa9\xff\xfe', b'\x00\x01',
           b'3', b'-1.5e3 2', b'$Nodes', b'$', b"'quoted'", b' leading', b'trailing ', b'""', b'\\n', b'\x7f\x80',
           b'#comment // x', b'x' * 300, b'%s%n', b'\t', b'\v\f', b'a\\', b'"a', b'$EndElementNodeData\n$End', b'y' * 4096, b'" \\' * 3000, b'z \n' * 22000]


def _all_strings():
    """All short strings over the characters that mean something to some reader, and shapes that do."""
    r = []
    for n, alphabet in ((1, bytes(range(256))), (2, b'a0 "\\:/\n$\t\'%.-\r\x00\xff;,=#*?|<>&(){}[]@!~^+_`'), (3, b'a0 "\\:/\n$\t%.-\r\x00\xff'), (4, b'a"\\: \n')):
        r += [bytes(x) for x in itertools.product(alphabet, repeat=n)]
    for t in (rb'C:\dir\file.msh', rb'\\host\share', '/usr/share/x.msh', '~/x', './a/../b', 'file:///x y', 'http://a.b/c?d=e&f#g', 'k=v;l=w', 'a,b,c', 'a|b', '{"a": ["b"]}', '<b a="c">&amp;</b>',
              '%20%41', '%5$s', '${HOME}', '$(x)', '`x`', r'\u00e9', r'\x41', r'\101', r'\0', r'\r\n', '0x10', '010', '1e5', '-0', 'nan', 'inf', 'true', 'TRUE', 'NULL', '--', '//', '/* x */', '<!-- x -->',
              '; x', '"""', "''", '""""', '" "', '" $', '"\n"', 'x"', '"x', 'x""y', r'x\"y', '\u00fcml\u00e4ut', '\u2028', '\ufeffbom', '1 2 3', '3 "a"', 'a b  c   d', 'Physical Surface', 'name with trailing blank ',
              'mixed CASE', '\x1b[0m', '\x08', '\x7f', '$EndNodes', '$ElementData', 'x $EndPhysicalNames', '$EndPhysicalNames\n', '\n$EndNodeData', '4.1', '2.2 0 8', '\u00a0', 'tab\tbed', 'cr\rlf\n', '\n\n', '\r\n'):
        r.append(t if isinstance(t, bytes) else t.encode())
        r.append(r[-1] * 9)
    return r


ALL_STRINGS = None


def strings_of(h, n):
    """n of them; h = 0, 1, .. covers them all."""
    global ALL_STRINGS
    if ALL_STRINGS is None:
        ALL_STRINGS = _all_strings()
        random.Random(5).shuffle(ALL_STRINGS)
    k = len(ALL_STRINGS)
    r = [ALL_STRINGS[(h * n + i) % k] for i in range(n)]
    # and some that are nearly the same
    base = (b'a name of some length, the same at both ends ' * 5)[:(5, 12, 40, 200)[h % 4]]
    r += [base] + [base[:i] + bytes([base[i] ^ 1]) + base[i + 1:] for i in sorted({0, 1, len(base) // 2, len(base) // 2 + 1, len(base) - 2, len(base) - 1})]
    return r + [base.upper(), base + b' ', b' ' + base, base[:-1], base[1:], base]


class Conc:
    """A concretisation of the model's values.

    tags : monotone, 0 stays 0;  ints : monotone, 0 and 1 stay;
    doubles: injective, 0 is the number zero;  strings: injective.
    profile: plain | hard | ws | ident
    wide: tags use 64 bits; otherwise they fit 31 bits.
    odd: doubles include NaN, infinities and white-space-like payloads (binary only).
    """

    def __init__(self, profile='plain', seed=0, wide=False, odd=False, strings='plain', tags=None, ints=None):
        self.name = '%s%s%s/%s/%d' % (profile, '+wide' if wide else '', '+odd' if odd else '', strings, seed)
        self.profile = profile
        rnd = random.Random('%s/%d/%d/%d' % (profile, seed, wide, odd))
        self.K = 1
        n = 128
        if profile == 'plain' or profile == 'ident':
            self.tags = None
            self.ints = None
        else:
            if profile == 'ws':
                t = _ws_values(8 if wide else 4, n, rnd)
                e = _ws_values(4, n, rnd)
            else:
                top = 2 ** 64 - 1 if wide else 2 ** 31 - 1
                marks = [1, 2, 9, 10, 13, 32, 255, 256, 65535, 65536, 2 ** 24, 2 ** 31 - 2, 2 ** 31 - 1]
                if wide:
                    marks += [2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 2, 2 ** 64 - 1]
                # few small ones, so that small ordinals reach big values too
                t = set(marks)
                while len(t) < n:
                    t.add(rnd.getrandbits(rnd.choice([31, 31, 30]) if not wide else rnd.choice([33, 48, 63, 64, 64])))
                    t.discard(0)
                t = sorted(t)
                e = {2, 3, 255, 256, 65536, 2 ** 31 - 1, 2 ** 31 - 2}
                while len(e) < n:
                    e.add(2 + rnd.getrandbits(rnd.choice([8, 16, 31, 31])) % (2 ** 31 - 3))
                e = sorted(e)
            self._t = t
            self._e = e
            self._rnd = rnd
            self.tags = {}
            self.ints = {}
        # doubles
        self.odd = odd
        self.seed = seed
        pool = [b for b in HARD]
        if odd:
            pool += ODD
        if profile == 'ws':
            pool = [int.from_bytes(bytes([c] * 8), 'little') for c in WSBYTES] + [int.from_bytes(s, 'little') for s in (
                b'$EndNode', b'\n$EndEle', b'$Nodes\n ', b'\r\n\r\n\t  \n', b'        ', b'\n\n\n\n\n\n\n\n', b'\n$EndNod')]
            if odd:
                pool += ODD
        rnd.shuffle(pool)
        self.pool = pool
        self.rpool = [b for b in HARD]
        rnd.shuffle(self.rpool)
        self.dcache = {0: 0}
        self.rcache = {0: 0}
        self.used = {0}
        self.rused = {0}
        self.smode = strings
        sp = list(STRINGS)
        rnd.shuffle(sp)
        self.spool = sp
        self.xtags = tags or {}
        self.xints = ints or {}

    # A monotone choice that spreads ordinals 1..maxord over the table.
    def fit(self, tag_ords, int_ords):
        if self.tags is None:
            return self
        t = sorted(o for o in set(tag_ords) if o > 0)
        pos = sorted(o for o in set(int_ords) if o > 1)
        neg = sorted((o for o in set(int_ords) if o < 0), reverse=True)

        def spread(ords, table):
            k = len(ords)
            if k > len(table):      # more of the same kind
                more = set(table)
                while len(more) < k + 1:
                    a = self._rnd.choice(table)
                    more.add(a ^ (a & 0xff) ^ (self._rnd.choice(table) & 0xff) if self._rnd.random() < .5 else self._rnd.randrange(2, table[-1]))
                table = sorted(more - {0, 1}) if 1 not in table else sorted(more - {0})
            if k == 0:
                return {}
            # always use the top value, the rest at random
            idx = sorted(self._rnd.sample(range(len(table) - 1), k - 1)) + [len(table) - 1]
            return {o: table[i] for o, i in zip(ords, idx)}
        self.tags = spread(t, self._t)
        self.ints = spread(pos, self._e)
        ng = spread(neg, self._e)
        self.ints.update({o: -v for o, v in ng.items()})
        if neg and self.profile == 'hard':
            self.ints[neg[-1]] = -2 ** 31
        return self

    def tag(self, o):
        if o in self.xtags:
            return self.xtags[o]
        if o <= 0 or self.tags is None:
            return o
        return self.tags[o]

    def eint(self, o):
        if o in self.xints:
            return self.xints[o]
        if o in (0, 1) or self.ints is None:
            return o
        return self.ints[o]

    def _pick(self, i, cache, used, pool, odd):
        if i in cache:
            return cache[i]
        if self.profile == 'ident':
            b = bits(float(i))
        elif self.profile == 'plain':
            b = bits(i + 0.5)
        else:
            b = None
            for c in pool:
                if c not in used:
                    b = c
                    break
            rnd = random.Random('d%d/%d' % (self.seed, i))
            while b is None or b in used or not (odd or finite(b)):
                if self.profile == 'ws':
                    b = int.from_bytes(bytes(rnd.choice(WSBYTES) for _ in range(8)), 'little')
                else:
                    b = rnd.getrandbits(64)
                    if rnd.random() < .5:
                        b = bits(rnd.uniform(-1000, 1000))
        used.add(b)
        cache[i] = b
        return b

    def dbl(self, i):
        return self._pick(i, self.dcache, self.used, self.pool, self.odd)

    def rdbl(self, i):
        return self._pick(i, self.rcache, self.rused, self.rpool, False)

    def txt(self, i):
        if self.profile == 'ident' or self.smode == 'plain':
            return b's%d' % i
        if self.smode == 'blank':
            return b'name %d' % i
        if i - 1 < len(self.spool):
            return self.spool[(i - 1 + self.seed * 7) % len(self.spool)]
        return b'str "%d" \\ %d' % (i, i)


# ---------------------------------------------------------------------------
# Descriptions: the model's record shape, with concrete values
# (doubles as 64-bit patterns, strings as bytes).

def seq(x):
    return list(x) if isinstance(x, list) else []


def collect_ordinals(s, T, E):
    """Tag and int ordinals occurring in a model description."""
    n, el = s['nodes'], s['elems']
    T.update((n['mn'], n['mx'], el['mn'], el['mx']))
    for b in n['blocks']:
        E.add(b['etag'])
        T.update(b['tags'])
    for b in el['blocks']:
        E.add(b['etag'])
        T.update(b['data'])
    for k in 'pcsv':
        for x in s['ents'][k]:
            E.add(x['tag'])
            E.update(x['phys'])
            E.update(x.get('bnd', []))
    for x in s['phys']:
        E.add(x['tag'])
    for k in ('nd', 'ed', 'end'):
        for x in s[k]:
            for i, v in enumerate(x['it']):
                if i not in (1, 2):
                    E.add(v)
            for e in x['entries']:
                T.add(e['tag'])
    for c in s['curves']:
        T.update((c['tag'], c['type'], c['deg'], c['w']))
    for c in s['patches']:
        T.update((c['tag'], c['type'], c['du'], c['dv'], c['w']))


def collect_tokens(ts, T, E):
    for t in ts:
        if t[1] == 't':
            T.add(t[2])
        elif t[1] == 'e':
            E.add(t[2])


def conc_spec(s, C):
    t, e, d, x = C.tag, C.eint, C.dbl, C.txt
    n, el = s['nodes'], s['elems']

    def data(q):
        return [{'st': [x(i) for i in D['st']], 'rt': [C.rdbl(i) for i in D['rt']],
                 'it': [v if i in (1, 2) else e(v) for i, v in enumerate(D['it'])],
                 'entries': [{'tag': t(r['tag']), 'npe': r['npe'], 'data': [d(i) for i in r['data']]}
                             for r in D['entries']]} for D in q]

    def ent(q, high):
        r = []
        for v in q:
            w = {'tag': e(v['tag']), 'box': [d(i) for i in v['box']], 'phys': [e(i) for i in v['phys']]}
            if high:
                w['bnd'] = [e(i) for i in v['bnd']]
            r.append(w)
        return r
    return {
        'fmt': dict(s['fmt']),
        'nodes': {'nb': n['nb'], 'nn': n['nn'], 'mn': t(n['mn']), 'mx': t(n['mx']),
                  'blocks': [{'dim': b['dim'], 'etag': e(b['etag']), 'par': b['par'], 'n': b['n'],
                              'tags': [t(i) for i in b['tags']], 'data': [d(i) for i in b['data']]}
                             for b in n['blocks']]},
        'elems': {'nb': el['nb'], 'ne': el['ne'], 'mn': t(el['mn']), 'mx': t(el['mx']),
                  'blocks': [{'dim': b['dim'], 'etag': e(b['etag']), 'type': b['type'], 'n': b['n'],
                              'data': [t(i) for i in b['data']]} for b in el['blocks']]},
        'ents': {'p': ent(s['ents']['p'], False), 'c': ent(s['ents']['c'], True),
                 's': ent(s['ents']['s'], True), 'v': ent(s['ents']['v'], True)},
        'phys': [{'dim': g['dim'], 'tag': e(g['tag']), 'name': x(g['name'])} for g in s['phys']],
        'nd': data(s['nd']), 'ed': data(s['ed']), 'end': data(s['end']),
        'nsf': s['nsf'].encode(),
        'curves': [{'tag': t(c['tag']), 'type': t(c['type']), 'deg': t(c['deg']), 'ncp': c['ncp'], 'nk': c['nk'],
                    'w': t(c['w']), 'data': [d(i) for i in c['data']]} for c in s['curves']],
        'patches': [{'tag': t(c['tag']), 'type': t(c['type']), 'du': t(c['du']), 'dv': t(c['dv']), 'ncp': c['ncp'],
                     'nu': c['nu'], 'nv': c['nv'], 'w': t(c['w']), 'data': [d(i) for i in c['data']]}
                    for c in s['patches']],
    }


# ---------------------------------------------------------------------------
# Every model node and element stands for K concrete ones.

def scale_spec(s, C, K, step=1):
    """s: model description; tag ordinal o becomes the K consecutive tags from base(o)."""
    import copy
    base = lambda o: 0 if o == 0 else o * (K + 3)
    last = lambda o: 0 if o == 0 else base(o) + K - 1
    d = lambda i, j: bits(i * 1.25 + j * 1000003.0 + 0.1)
    z = copy.copy(s)
    n = s['nodes']
    blocks = []
    for b in n['blocks']:
        st = 3 + (b['dim'] if b['par'] == 1 else 0)
        tags, data = [], []
        for i, o in enumerate(b['tags']):
            row = b['data'][i * st:(i + 1) * st]
            for j in range(K):
                tags.append(base(o) + j)
                data.extend(d(v, j) for v in row)
        blocks.append({'dim': b['dim'], 'etag': b['etag'], 'par': b['par'], 'n': b['n'] * K, 'tags': tags, 'data': data})
    plain = Conc('plain')
    r = conc_spec(s, plain)
    r['nodes'] = {'nb': n['nb'], 'nn': n['nn'] * K, 'mn': base(n['mn']), 'mx': last(n['mx']), 'blocks': blocks}
    el = s['elems']
    blocks = []
    for b in el['blocks']:
        w = SIZE[b['type'] - 1] + 1
        data = []
        for i in range(b['n']):
            row = b['data'][i * w:(i + 1) * w]
            for j in range(K):
                data.extend(base(o) + j for o in row)
        blocks.append({'dim': b['dim'], 'etag': b['etag'], 'type': b['type'], 'n': b['n'] * K, 'data': data})
    r['elems'] = {'nb': el['nb'], 'ne': el['ne'] * K, 'mn': base(el['mn']), 'mx': last(el['mx']), 'blocks': blocks}
    for k in ('nd', 'ed', 'end'):
        for src, D in zip(s[k], r[k]):
            D['it'] = [v * K if i == 2 else v for i, v in enumerate(D['it'])]
            ent = []
            for x in src['entries']:
                for j in range(K):
                    ent.append({'tag': base(x['tag']) + j, 'npe': x['npe'], 'data': [d(v, j) for v in x['data']]})
            D['entries'] = ent
    return r


class Raw:
    """Concrete tokens: values stand for themselves."""
    profile = 'raw'
    tag = eint = dbl = rdbl = txt = staticmethod(lambda v: v)


def scale_file(ts, K, entities=False):
    """Model tokens of a file -> concrete tokens (for Raw) of the file of scale_spec's description.
    entities: each copy of a 2.2 element belongs to elementary and physical entities of its own;
    None if there are elements that do not belong to any."""
    C = Conc('plain')
    base = lambda o: 0 if o == 0 else o * (K + 3)
    last = lambda o: 0 if o == 0 else base(o) + K - 1
    d = lambda i, j: bits(i * 1.25 + j * 1000003.0 + 0.1)
    ver = next((t[2] for t in ts if t[1] == 'w'), '4.1')
    out, i = [], 0
    conv = {'t': C.tag, 'e': C.eint, 'd': C.dbl, 'r': C.rdbl, 's': C.txt}

    def one(t, v=None):
        out.append([t[0], t[1], (conv.get(t[1], lambda x: x)(t[2]) if v is None else v)])

    def row(j):
        return lambda t: [t[0], t[1], base(t[2]) + j if t[1] == 't' else d(t[2], j) if t[1] == 'd' else
                          away(t[2], j, K) if t[1] == 'e' and entities else conv.get(t[1], lambda x: x)(t[2])]

    def rows(q, n, w):
        """n rows of w tokens each, K times"""
        for r in range(n):
            c = q[r * w:(r + 1) * w]
            for j in range(K):
                out.extend(map(row(j), c))
        return q[n * w:]
    while i < len(ts):
        if ts[i][1] != 'kw':
            one(ts[i])
            i += 1
            continue
        name = ts[i][2]
        e = i + 1
        while not (ts[e][1] == 'kw' and ts[e][2] == '$End' + name[1:]):
            e += 1
        q = ts[i + 1:e]
        one(ts[i])

        def nl(q):
            if q and q[0][1] == 'nl':
                one(q[0])
                return q[1:]
            return q
        if name in ('$Nodes', '$Elements') and ver == '4.1':
            q = nl(q)
            nb = q[0][2]
            one(q[0])
            one(q[1], q[1][2] * K)
            one(q[2], base(q[2][2]))
            one(q[3], last(q[3][2]))
            q = q[4:]
            for _ in range(nb):
                h, q = q[:4], q[4:]
                for t in h[:3]:
                    one(t)
                n = h[3][2]
                one(h[3], n * K)
                if name == '$Nodes':
                    q = rows(q, n, 1)
                    q = rows(q, n, 3 + (h[0][2] if h[2][2] == 1 else 0))
                else:
                    q = rows(q, n, SIZE[h[2][2] - 1] + 1)
        elif name == '$Nodes':
            n = q[0][2]
            one(q[0], n * K)
            q = rows(nl(q[1:]), n, 4)
        elif name == '$Elements':
            n = q[0][2]
            one(q[0], n * K)
            rest = q[1:]
            binary = bool(rest) and rest[0][1] == 'nl'
            q = nl(rest)
            if binary:
                while q:
                    h, q = q[:3], q[3:]
                    if entities and h[2][2] < 2:
                        return None
                    one(h[0])
                    one(h[1], h[1][2] * K)
                    one(h[2])
                    q = rows(q, h[1][2], 1 + h[2][2] + SIZE[h[0][2] - 1])
            else:
                for _ in range(n):
                    if entities and q[2][2] < 2:
                        return None
                    q = rows(q, 1, 3 + q[2][2] + SIZE[q[1][2] - 1])
        elif name in ('$NodeData', '$ElementData', '$ElementNodeData'):
            for _ in range(2):
                n = q[0][2]
                for t in q[:n + 1]:
                    one(t)
                q = q[n + 1:]
            n = q[0][2]
            it = [t[2] for t in q[1:n + 1]]
            for k, t in enumerate(q[:n + 1]):
                one(t, t[2] * K if k == 3 else None)
            q = nl(q[n + 1:])
            for _ in range(it[2]):
                q = rows(q, 1, 1 + it[1] if name != '$ElementNodeData' else 2 + it[1] * q[1][2])
        for t in q:
            one(t)
        one(ts[e])
        i = e + 1
    return out


def away(o, j, K):
    """The j-th of the K integers the free integer o stands for, in order of o."""
    return o * (K + 3) + (j if o >= 0 else -j)


# Every list entry (how = 'lists') or every record with lists (how = 'records') of a model
# description stands for K concrete ones.  2.2 has no records of nodes, elements and entities.

def _more(i, j):
    return bits(i * 1.25 + j * 1000003.0 + 0.1)


def grow_spec(s, K, how, ver):
    r = conc_spec(s, Conc('plain'))
    J = range(K)
    base = lambda o, j=0: 0 if o == 0 else o * (K + 3) + j
    if how == 'lists':
        if ver == '4.1':
            for k in 'pcsv':
                for src, x in zip(s['ents'][k], r['ents'][k]):
                    for w in ('phys', 'bnd'):
                        if w in x:
                            x[w] = [away(o, j, K) for o in src[w] for j in J]
        for k in ('nd', 'ed', 'end'):
            for src, D in zip(s[k], r[k]):
                D['st'] = [x + b'/%d' % j for x in D['st'] for j in J]
                D['rt'] = [_more(i, j) for i in src['rt'] for j in J]
                D['it'] = [src['it'][0], src['it'][1] * K, src['it'][2]] + [away(o, j, K) for o in src['it'][3:] for j in J]
                for e, x in zip(src['entries'], D['entries']):
                    x['data'] = [_more(i, j) for i in e['data'] for j in J]
        for k in ('curves', 'patches'):
            for src, x in zip(s[k], r[k]):
                w = 4 if src['w'] > 0 else 3
                n = src['ncp'] * w
                rows = [src['data'][i:i + w] for i in range(0, n, w)]
                x['data'] = [_more(i, j) for row in rows for j in J for i in row] + [_more(i, j) for i in src['data'][n:] for j in J]
                for q in ('ncp', 'nk', 'nu', 'nv'):
                    if q in x:
                        x[q] *= K
        return r
    r['phys'] = [dict(x, tag=away(g['tag'], j, K), name=x['name'] + b'/%d' % j) for g, x in zip(s['phys'], r['phys']) for j in J]
    if ver == '4.1':
        for k in 'pcsv':
            r['ents'][k] = [dict(x, tag=away(src['tag'], j, K), box=[_more(i, j) for i in src['box']])
                            for src, x in zip(s['ents'][k], r['ents'][k]) for j in J]
        n, el = r['nodes'], r['elems']
        n.update(nb=n['nb'] * K, nn=n['nn'] * K, mn=base(s['nodes']['mn']), mx=base(s['nodes']['mx'], K - 1))
        n['blocks'] = [dict(x, etag=away(b['etag'], j, K), tags=[base(o, j) for o in b['tags']], data=[_more(i, j) for i in b['data']])
                       for b, x in zip(s['nodes']['blocks'], n['blocks']) for j in J]
        el.update(nb=el['nb'] * K, ne=el['ne'] * K, mn=base(s['elems']['mn']), mx=base(s['elems']['mx'], K - 1))
        el['blocks'] = [dict(x, etag=away(b['etag'], j, K), data=[base(o, j) for o in b['data']])
                        for b, x in zip(s['elems']['blocks'], el['blocks']) for j in J]
    for k in ('curves', 'patches'):
        r[k] = [dict(x, tag=away(src['tag'], j, K), data=[_more(i, j) for i in src['data']]) for src, x in zip(s[k], r[k]) for j in J]
    for k in ('nd', 'ed', 'end'):
        r[k] = [dict(D, it=[away(src['it'][0], j, K)] + D['it'][1:],
                     entries=[dict(x, data=[_more(i, j) for i in e['data']]) for e, x in zip(src['entries'], D['entries'])])
                for src, D in zip(s[k], r[k]) for j in J]
    return r


def grow_file(ts, K, how):
    """Concrete tokens (for Raw) of the file of grow_spec's description, from the model's tokens."""
    C = Conc('plain')
    J = range(K)
    base = lambda o, j=0: 0 if o == 0 else o * (K + 3) + j
    conv = {'t': C.tag, 'e': C.eint, 'd': C.dbl, 'r': C.rdbl, 's': C.txt}
    ver = next((t[2] for t in ts if t[1] == 'w'), '4.1')
    lists = how == 'lists'
    out, i = [], 0

    def one(t, v=None):
        out.append([t[0], t[1], conv.get(t[1], lambda x: x)(t[2]) if v is None else v])

    def many(q):
        for t in q:
            one(t)

    def times(t):       # a count, multiplied
        one(t, t[2] * K)

    def copy(q, j):     # tags, free integers and numbers of copy j
        for t in q:
            one(t, base(t[2], j) if t[1] == 't' else away(t[2], j, K) if t[1] == 'e' else _more(t[2], j) if t[1] == 'd' else None)

    def grown(q):       # every value K times
        for t in q:
            for j in J:
                one(t, away(t[2], j, K) if t[1] == 'e' else _more(t[2], j) if t[1] in 'dr' else C.txt(t[2]) + b'/%d' % j)

    def data(q, perNode, j):
        for k in range(2):
            n = q[0][2]
            (times if lists else one)(q[0])
            (grown if lists else many)(q[1:n + 1])
            q = q[n + 1:]
        n = q[0][2]
        one(q[0], 3 + (n - 3) * K if lists else None)
        it, q = q[1:n + 1], q[n + 1:]
        one(it[0], None if lists else away(it[0][2], j, K))
        (times if lists else one)(it[1])
        one(it[2])
        (grown if lists else many)(it[3:])
        if q and q[0][1] == 'nl':
            one(q[0])
            q = q[1:]
        for _ in range(it[2][2]):
            h = 2 if perNode else 1
            w = it[1][2] * (q[1][2] if perNode else 1)
            many(q[:h])
            if lists:
                grown(q[h:h + w])
            else:
                for t in q[h:h + w]:
                    one(t, _more(t[2], j))
            q = q[h + w:]
        many(q)
    while i < len(ts):
        if ts[i][1] != 'kw':
            one(ts[i])
            i += 1
            continue
        name = ts[i][2]
        e = i + 1
        while not (ts[e][1] == 'kw' and ts[e][2] == '$End' + name[1:]):
            e += 1
        q = ts[i + 1:e]
        start, end = ts[i], ts[e]
        i = e + 1
        if name in ('$NodeData', '$ElementData', '$ElementNodeData'):
            for j in ([0] if lists else J):
                one(start)
                data(q, name == '$ElementNodeData', j)
                one(end)
            continue
        one(start)
        if name == '$PhysicalNames' and not lists:
            times(q[0])
            for k in range(1, len(q), 3):
                for j in J:
                    one(q[k])
                    one(q[k + 1], away(q[k + 1][2], j, K))
                    one(q[k + 2], C.txt(q[k + 2][2]) + b'/%d' % j)
            q = []
        elif name == '$Entities':
            if q[0][1] == 'nl':
                one(q[0])
                q = q[1:]
            counts = [t[2] for t in q[:4]]
            for t in q[:4]:
                (one if lists else times)(t)
            q = q[4:]
            for dim, n in enumerate(counts):
                for _ in range(n):
                    h = 4 if dim == 0 else 7
                    p = h + 1 + q[h][2]
                    b = p if dim == 0 else p + 1 + q[p][2]
                    if lists:
                        many(q[:h])
                        for lo, hi in ((h, p), (p, b)):
                            if lo < hi:
                                times(q[lo])
                                grown(q[lo + 1:hi])
                    else:
                        for j in J:
                            copy(q[:h], j)
                            many(q[h:b])
                    q = q[b:]
        elif name in ('$Nodes', '$Elements') and ver == '4.1' and not lists:
            if q[0][1] == 'nl':
                one(q[0])
                q = q[1:]
            nb = q[0][2]
            times(q[0])
            times(q[1])
            one(q[2], base(q[2][2]))
            one(q[3], base(q[3][2], K - 1))
            q = q[4:]
            for _ in range(nb):
                n = q[3][2]
                w = 4 + n * (4 + (q[0][2] if q[2][2] == 1 else 0) if name == '$Nodes' else 1 + SIZE[q[2][2] - 1])
                for j in J:
                    copy(q[:w], j)
                q = q[w:]
        many(q)
        one(end)
    return out


# ---------------------------------------------------------------------------
# Flat text form (harness/flat.h).

def _hx(b):
    return b.hex() if b else '-'


def flat(s):
    o = []
    a = o.append

    def us(q):
        a(str(len(q)))
        o.extend(map(str, q))

    def ds(q):
        a(str(len(q)))
        o.extend('%x' % v for v in q)
    f = s['fmt']
    a(_hx(f['ver'].encode() if isinstance(f['ver'], str) else f['ver']))
    a(str(f['bin']))
    a(str(f['dsz']))
    n = s['nodes']
    o.extend(map(str, (n['nb'], n['nn'], n['mn'], n['mx'], len(n['blocks']))))
    for b in n['blocks']:
        o.extend(map(str, (b['dim'], b['etag'], b['par'], b['n'])))
        us(b['tags'])
        ds(b['data'])
    n = s['elems']
    o.extend(map(str, (n['nb'], n['ne'], n['mn'], n['mx'], len(n['blocks']))))
    for b in n['blocks']:
        o.extend(map(str, (b['dim'], b['etag'], b['type'], b['n'])))
        us(b['data'])
    for k in 'pcsv':
        a(str(len(s['ents'][k])))
        for x in s['ents'][k]:
            a(str(x['tag']))
            o.extend('%x' % v for v in x['box'])
            us(x['phys'])
            if k != 'p':
                us(x['bnd'])
    a(str(len(s['phys'])))
    for g in s['phys']:
        o.extend((str(g['dim']), str(g['tag']), _hx(g['name'])))
    for k in ('nd', 'ed', 'end'):
        a(str(len(s[k])))
        for D in s[k]:
            a(str(len(D['st'])))
            o.extend(_hx(v) for v in D['st'])
            ds(D['rt'])
            us(D['it'])
            a(str(len(D['entries'])))
            for e in D['entries']:
                a(str(e['tag']))
                a(str(e['npe']))
                ds(e['data'])
    a(_hx(s['nsf']))
    a(str(len(s['curves'])))
    for c in s['curves']:
        o.extend(map(str, (c['tag'], c['type'], c['deg'], c['ncp'], c['nk'], c['w'])))
        ds(c['data'])
    a(str(len(s['patches'])))
    for c in s['patches']:
        o.extend(map(str, (c['tag'], c['type'], c['du'], c['dv'], c['ncp'], c['nu'], c['nv'], c['w'])))
        ds(c['data'])
    return ' '.join(o)


def unflat(text):
    it = iter(text.split())
    nx = lambda: next(it)
    i = lambda: int(nx())
    h = lambda: int(nx(), 16)

    def s():
        v = nx()
        return b'' if v == '-' else bytes.fromhex(v)
    us = lambda: [i() for _ in range(i())]
    ds = lambda: [h() for _ in range(i())]
    r = {'fmt': {'ver': s().decode('latin-1'), 'bin': i(), 'dsz': i()}}
    n = {'nb': i(), 'nn': i(), 'mn': i(), 'mx': i()}
    n['blocks'] = [{'dim': i(), 'etag': i(), 'par': i(), 'n': i(), 'tags': us(), 'data': ds()} for _ in range(i())]
    r['nodes'] = n
    n = {'nb': i(), 'ne': i(), 'mn': i(), 'mx': i()}
    n['blocks'] = [{'dim': i(), 'etag': i(), 'type': i(), 'n': i(), 'data': us()} for _ in range(i())]
    r['elems'] = n
    g = {}
    g['p'] = [{'tag': i(), 'box': [h() for _ in range(3)], 'phys': us()} for _ in range(i())]
    for k in 'csv':
        g[k] = [{'tag': i(), 'box': [h() for _ in range(6)], 'phys': us(), 'bnd': us()} for _ in range(i())]
    r['ents'] = g
    r['phys'] = [{'dim': i(), 'tag': i(), 'name': s()} for _ in range(i())]
    for k in ('nd', 'ed', 'end'):
        r[k] = [{'st': [s() for _ in range(i())], 'rt': ds(), 'it': us(),
                 'entries': [{'tag': i(), 'npe': i(), 'data': ds()} for _ in range(i())]} for _ in range(i())]
    r['nsf'] = s()
    r['curves'] = [{'tag': i(), 'type': i(), 'deg': i(), 'ncp': i(), 'nk': i(), 'w': i(), 'data': ds()} for _ in range(i())]
    r['patches'] = [{'tag': i(), 'type': i(), 'du': i(), 'dv': i(), 'ncp': i(), 'nu': i(), 'nv': i(), 'w': i(), 'data': ds()}
                    for _ in range(i())]
    return r


def diff(a, b, path=''):
    """First difference between two values, as text; None if equal."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return '%s.%s missing' % (path, k)
            r = diff(a[k], b[k], path + '.' + k)
            if r:
                return r
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: length %d expected, %d found' % (path, len(a), len(b))
        if a == b:
            return None
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    if a != b:
        return '%s: %r expected, %r found' % (path, a, b)
    return None


# ---------------------------------------------------------------------------
# Tokens -> bytes: an independent writer.

class Style:
    """How text is laid out.  plain: records on lines as files usually have."""

    def __init__(self, kind='plain', seed=0, spelling='repr', ints=0):
        self.kind = kind
        self.seed = seed
        self.ints = ints      # share of integers with an unusual spelling
        self.far = 4      # so many long gaps at most
        self.rnd = random.Random('style/%s/%d' % (kind, seed))
        self.spelling = spelling
        self.name = '%s/%s/%d' % (kind, spelling, seed)

    def gap(self, after_kw, before_kw):
        k = self.kind
        if k == 'plain':
            return b'\n' if after_kw or before_kw else b' '
        if k == 'lines':
            return b'\n'
        if k == 'crlf':
            return b'\r\n' if after_kw or before_kw or self.rnd.random() < .5 else b' '
        if k == 'tabs':
            return b'\n' if after_kw or before_kw else b'\t'
        if k == 'spaces':
            return b' '
        if k == 'far' and self.far and self.rnd.random() < .05:
            self.far -= 1
            return bytes([self.rnd.choice(b' \t\n')]) * self.rnd.choice([300, 4097, 9000, 70000])
        return bytes(self.rnd.choice(b' \t\n\r \n') for _ in range(self.rnd.randint(1, 5)))

    def lead(self):
        return b'' if self.kind in ('plain', 'tabs', 'spaces') else self.gap(False, False) if self.rnd.random() < .5 else b''

    def tail(self):
        """Behind the last word: with or without a line end."""
        r = self.rnd.random() if self.kind != 'plain' else .1 if self.seed % 6 == 5 else 1
        return b'' if r < .4 else b'\n' * 20 + b' \t\r\n ' if r < .5 else self.gap(True, True)

    def number(self, b):
        x = fl(b)
        s = self.spelling
        if s == 'mixed':
            s = self.rnd.choice(['repr', 'e17', 'E17', 'fixed', 'zeros', 'plus', 'long', 'int', 'bare', 'lead', 'repr', 'e17', 'plus', 'many'])
        if s == 'repr':
            return repr(x).encode()
        if s == 'e17':
            return b'%.17e' % x
        if s == 'E17':
            return (b'%.16E' % x)
        if s == 'fixed':
            return b'%.340f' % x if abs(x) < 1e6 and abs(x) > 1e-3 else b'%.17e' % x
        if s == 'zeros':
            t = repr(x)
            if 'e' in t:
                m, e = t.split('e')
                return ('%s%s0000e%s' % (m, '' if '.' in m else '.', e)).encode()
            return (t + ('0000' if '.' in t else '.0000')).encode()
        if s == 'plus':
            t = '%.17g' % x
            return (t if t.startswith('-') else '+' + t).encode()
        if s == 'long':
            return b'%.40e' % x
        if s == 'int':
            if x == int(x) and abs(x) < 2 ** 53 and not (x == 0 and b >> 63):
                return b'%d' % int(x)
            return b'%.17g' % x
        if s == 'many':     # more digits than any buffer a reader may have
            return b'%.17e' % x if self.rnd.random() < .8 else (b'%.16e' % x).replace(b'e', b'0' * self.rnd.choice([70, 600, 5000]) + b'e')
        if s == 'bare':     # no digit after the point
            if x == int(x) and abs(x) < 1e15 and not (x == 0 and b >> 63):
                return b'%d.' % int(x)
            return b'%.17g' % x
        if s == 'lead':     # superfluous leading zeros, explicit exponent
            t = '%.17e' % x
            return (('-00' + t[1:]) if t.startswith('-') else '00' + t).encode()
        raise ValueError(s)

    def integer(self, v):
        """Superfluous leading zeros and signs."""
        t = b'%d' % v
        if not self.ints or self.rnd.random() > self.ints:
            return t
        sign, t = (b'-', t[1:]) if v < 0 else (self.rnd.choice([b'', b'', b'+']), t)
        return sign + self.rnd.choice([b'', b'0', b'0', b'00', b'0' * self.rnd.choice([3, 9, 40])]) + t


def quote(b):
    return b'"' + b.replace(b'\\', b'\\\\').replace(b'"', b'\\"') + b'"'


# The last one is longer than any buffer a reader may have.
RAWS = [b'\x00\x01\x02\xff', b' \n\t\r $Nodes $ \n', b'$EndNodes\n$Elements\n1\n', b'$End', b'"\n\x00', b'\n$EndPhysicalNames \x0b\x0c $EndNodeDat',
        (b'$EndNode$ \x00\n' + bytes(range(256))) * 300]
WORDS = [b'zz', b'word', b'zq.zz', b'_', b'x', b'zu' * 40000]


def encode(ts, C, style=None, end_newline=True, spans=None, raws=None):
    """Bytes of a token list.  spans, if given, receives (start, end) per token."""
    style = style or Style()
    out = bytearray(style.lead())
    prev = None      # None at the start, 'text', 'raw'
    prevkw = False
    for i, t in enumerate(ts):
        enc, kind, v = t
        if kind == 'nl':
            b = b'\n'
            if spans is not None:
                spans.append((len(out), len(out) + 1))
            out += b
            prev, prevkw = 'raw', False
            continue
        if enc:
            if kind == 'd':
                b = struct.pack('<Q', C.dbl(v))
            else:
                if kind == 't':
                    v = C.tag(v)
                elif kind == 'e':
                    v = C.eint(v)
                b = (v & (2 ** (8 * enc) - 1)).to_bytes(enc, 'little')
            if spans is not None:
                spans.append((len(out), len(out) + len(b)))
            out += b
            prev, prevkw = 'raw', False
            continue
        if kind == 'raw':
            b = (raws or RAWS)[v]
            if spans is not None:
                spans.append((len(out), len(out) + len(b)))
            out += b
            prev, prevkw = 'raw', False
            continue
        if kind in ('kw', 'w'):
            b = v.encode()
        elif kind == 'x':
            b = WORDS[v % len(WORDS)]
        elif kind == 's':
            b = quote(C.txt(v))
        elif kind == 'd':
            b = (b'%d' % v) if C.profile == 'ident' else style.number(C.dbl(v))
        elif kind == 'r':
            b = (b'%d' % v) if C.profile == 'ident' else style.number(C.rdbl(v))
        elif kind == 't':
            b = style.integer(C.tag(v))
        elif kind == 'e':
            b = style.integer(C.eint(v))
        else:
            b = style.integer(v)
        kw = kind == 'kw'
        if prev == 'text':
            out += style.gap(prevkw, kw)
        elif prev == 'raw':
            if end_newline:
                out += b'\n'
        if spans is not None:
            spans.append((len(out), len(out) + len(b)))
        out += b
        prev, prevkw = 'text', kw
    if prev == 'text':
        out += style.tail()
    return bytes(out)


# ---------------------------------------------------------------------------
# Comparing written bytes with expected tokens.

WS = b' \t\r\n\v\f'
_int = re.compile(rb'[+-]?\d+$')
_num = re.compile(rb'[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?$')


def read_quoted(b, p):
    """A quoted string at p: (value, next) or None."""
    if b[p:p + 1] != b'"':
        return None
    p += 1
    r = bytearray()
    while p < len(b):
        c = b[p]
        if c == 0x5c:
            if p + 1 >= len(b):
                return None
            r.append(b[p + 1])
            p += 2
        elif c == 0x22:
            return bytes(r), p + 1
        else:
            r.append(c)
            p += 1
    return None


def word_at(b, p):
    while p < len(b) and b[p] in WS:
        p += 1
    q = p
    while q < len(b) and b[q] not in WS:
        q += 1
    return b[p:q], q


def match_bytes(b, ts, C):
    """None if the bytes are the tokens' encoding (text layout free), else what differs."""
    p = 0
    for i, (enc, kind, v) in enumerate(ts):
        if kind == 'nl':
            if b[p:p + 1] != b'\n':
                return 'token %d: separator before binary data missing at byte %d' % (i, p)
            p += 1
            continue
        if enc:
            if kind == 'd':
                want = struct.pack('<Q', C.dbl(v))
            else:
                if kind == 't':
                    v = C.tag(v)
                elif kind == 'e':
                    v = C.eint(v)
                want = (v & (2 ** (8 * enc) - 1)).to_bytes(enc, 'little')
            if b[p:p + enc] != want:
                return 'token %d (%s): bytes %s expected, %s found at byte %d' % (i, kind, want.hex(), b[p:p + enc].hex(), p)
            p += enc
            continue
        if kind == 's':
            while p < len(b) and b[p] in WS:
                p += 1
            r = read_quoted(b, p)
            if r is None or r[0] != C.txt(v):
                return 'token %d: string %r expected, %r found at byte %d' % (i, C.txt(v), r and r[0], p)
            p = r[1]
            if p < len(b) and b[p] not in WS:
                return 'token %d: no white space after string at byte %d' % (i, p)
            continue
        w, p = word_at(b, p)
        if kind in ('kw', 'w'):
            ok = w == v.encode()
        elif kind in ('d', 'r'):
            want = C.dbl(v) if kind == 'd' else C.rdbl(v)
            ok = bool(_num.match(w)) and bits(float(w)) == want
            v = repr(fl(want))
        else:
            if kind == 't':
                v = C.tag(v)
            elif kind == 'e':
                v = C.eint(v)
            ok = bool(_int.match(w)) and int(w) == v
        if not ok:
            return 'token %d (%s): %r expected, %r found before byte %d' % (i, kind, v, w[:60], p)
    if b[p:].strip(WS):
        return 'extra bytes after the last token: %r' % b[p:p + 40]
    return None
