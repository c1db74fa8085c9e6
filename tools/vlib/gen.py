"""Seeded random descriptions and files, larger and more mixed than the enumerated families."""
import random

from .codec import DIM, HARD, ODD, SIZE, STRINGS, WSBYTES, bits, finite

TOP31 = 2 ** 31 - 1


class Gen:
    def __init__(self, rnd, wide=False, odd=False, strings='plain', splines=False, own_dims=True, big=False):
        self.r = rnd
        self.wide, self.odd, self.strings, self.splines, self.own_dims = wide, odd, strings, splines, own_dims
        self.big = big
        self.dstyle = rnd.choice(['hard', 'bits', 'short', 'mixed', 'mixed', 'ws'])
        self.tstyle = rnd.choice(['seq', 'seq', 'far', 'rand', 'ws', 'mixed'])
        self.size = rnd.choice([1, 2, 3, 5, 9, 14, 33] if not big else [14, 33, 60])
        # something there is very much of
        self.focus = rnd.choice(['nodeblocks', 'elemblocks', 'points', 'ents', 'phys', 'lists', 'sets', 'strings', 'reals', 'ints', 'fields', 'entries',
                                 'curves', 'knots', 'names', 'block']) if rnd.random() < .15 else None

    def count(self, top=None, what=None):
        """A count: mostly small, sometimes one that looks like white space, sometimes many."""
        r = self.r
        if what and what == self.focus:
            return r.choice([100, 127, 128, 129, 255, 256, 257, 300, 512, 513])
        top = top or self.size
        x = r.random()
        if x < .12:
            return 0
        if x < .22:
            return min(top, r.choice([9, 10, 13, 32]))
        return r.randint(1, max(1, top))

    # --- values
    def dbl(self):
        r = self.r
        k = self.dstyle if self.dstyle != 'mixed' else r.choice(['hard', 'bits', 'short', 'int'])
        if self.odd and r.random() < .15:
            return r.choice(ODD)
        if r.random() < .05:
            return r.choice([0, 1 << 63])
        while True:
            if k == 'hard':
                b = r.choice(HARD)
            elif k == 'bits':
                b = r.getrandbits(64)
            elif k == 'short':
                b = bits(round(r.uniform(-100, 100), r.randint(0, 6)))
            elif k == 'int':
                b = bits(float(r.randint(-10 ** r.randint(1, 17), 10 ** r.randint(1, 17))))
            else:
                b = int.from_bytes(bytes(r.choice(WSBYTES) for _ in range(8)), 'little')
            if finite(b):
                return b

    def dbls(self, n):
        return [self.dbl() for _ in range(n)]

    def tag(self, low=1):
        """A node or element tag."""
        r = self.r
        k = self.tstyle if self.tstyle != 'mixed' else r.choice(['far', 'rand', 'ws', 'seq'])
        top = 2 ** 64 - 1 if self.wide else TOP31
        if k == 'seq':
            v = r.randint(1, 60)
        elif k == 'far':
            v = r.choice([1, 2, 255, 256, 65535, 65536, 2 ** 24, TOP31 - 1, TOP31] + ([2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 63, 2 ** 64 - 2, top] if self.wide else []))
        elif k == 'ws':
            v = int.from_bytes(bytes(r.choice(WSBYTES) for _ in range(8 if self.wide and r.random() < .5 else 4)), 'little')
        else:
            v = r.getrandbits(r.choice([4, 8, 16, 31] + ([33, 48, 64] if self.wide else [])))
        return min(max(v, low), top)

    def eint(self):
        r = self.r
        return r.choice([0, 1, 2, 3, r.randint(1, 9), r.randint(-9, 99), -1, r.randint(-2 ** 31, TOP31), TOP31, -2 ** 31, 10, 13, 32])

    def small(self):
        return self.r.choice([1, 1, 2, 2, 3, 4, 7, self.eint()])

    def eints(self, top=4):
        return [self.small() for _ in range(self.r.choice([0, 0, 1, 1, 2, top, self.count()] + ([300] if self.focus == 'lists' else [])))]

    def txt(self):
        r = self.r
        if self.strings == 'plain':
            return b'name %d' % r.randint(1, 99)
        if r.random() < .5:
            return r.choice(STRINGS)
        n = (r.choice([1, 2, 5, 20, 127, 128, 129, 255, 256, 1000]) if r.random() < .9 else 5000) if self.focus != 'names' else r.choice([4095, 4096, 8193, 70000])
        return bytes(r.choice(b'"\\\n\r\t $E nd0') if r.random() < .4 else r.randrange(256) for _ in range(n))

    # --- description
    def spec(self):
        r = self.r
        s = {'fmt': {'ver': '4.1', 'bin': 0, 'dsz': 8}, 'phys': [], 'nd': [], 'ed': [], 'end': [], 'nsf': b'1.0', 'curves': [], 'patches': []}
        has = lambda p=.7: r.random() < p
        # nodes
        blocks = []
        start = r.choice([1, 1, 5, 1000])
        nexttag = start
        alltags = []
        if has(.9):
            budget = self.size * 4
            for _ in range(self.count(10, 'nodeblocks')):
                n = self.count(what='block') if self.focus == 'block' else min(self.count(), budget)
                budget -= n
                dim, par = r.randint(0, 3), int(r.random() < .3)
                tags = []
                for _ in range(n):
                    if self.tstyle == 'seq':
                        tags.append(nexttag)
                        nexttag += 1 if r.random() < .9 else r.randint(2, 9)
                    else:
                        tags.append(self.tag())
                if r.random() < .3:
                    r.shuffle(tags)
                alltags += tags
                blocks.append({'dim': dim, 'etag': self.small(), 'par': par, 'n': n, 'tags': tags, 'data': self.dbls(n * (3 + (dim if par else 0)))})
        mn, mx = (min(alltags), max(alltags)) if alltags else (0, 0)
        if has(.2):
            mn = r.randint(0, mn)
        if has(.2):
            mx = min(mx + r.randint(1, 1000), 2 ** 64 - 1 if self.wide else TOP31)
        s['nodes'] = {'nb': len(blocks), 'nn': len(alltags), 'mn': mn, 'mx': mx, 'blocks': blocks}
        # elements
        blocks = []
        etags = []
        if has(.9) and (alltags or mx):
            pool = alltags or [mn, mx]
            types = r.choice([list(range(1, 32)), [15, 1, 2, 3, 4, 5], [2], [r.randint(1, 31), r.randint(1, 31)]])
            budget = self.size * 3
            nexttag = r.choice([1, 1, 7])
            for _ in range(self.count(9, 'elemblocks')):
                t = r.choice(types)
                n = min(self.count(), budget)
                budget -= n
                if n == 0 and r.random() < .7:
                    continue
                data = []
                for _ in range(n):
                    if self.tstyle == 'seq':
                        e = nexttag
                        nexttag += 1
                    else:
                        e = self.tag()
                    etags.append(e)
                    data.append(e)
                    data += [r.choice(pool) for _ in range(SIZE[t - 1])]
                blocks.append({'dim': DIM[t - 1] if self.own_dims or has(.7) else r.randint(0, 3), 'etag': self.small(), 'type': t, 'n': n, 'data': data})
        lo, hi = (min(etags), max(etags)) if etags else (0, 0)
        if has(.2):
            hi = min(hi + r.randint(1, 1000), 2 ** 64 - 1 if self.wide else TOP31)
        s['elems'] = {'nb': len(blocks), 'ne': len(etags), 'mn': lo, 'mx': hi, 'blocks': blocks}
        # entities
        def ents(high):
            q = []
            for _ in range(self.count(8, 'ents' if high else 'points') if has(.7) else 0):
                x = {'tag': self.eint(), 'box': self.dbls(6 if high else 3), 'phys': self.eints()}
                if high:
                    x['bnd'] = self.eints(6)
                q.append(x)
            return q
        s['ents'] = {'p': ents(False), 'c': ents(True), 's': ents(True), 'v': ents(True)} if has() else {'p': [], 'c': [], 's': [], 'v': []}
        if has():
            s['phys'] = [{'dim': r.randint(0, 3), 'tag': self.eint(), 'name': self.txt()} for _ in range(self.count(14, 'phys'))]
        for k in ('nd', 'ed', 'end'):
            if has(.55):
                s[k] = [self.dataset(k == 'end') for _ in range(r.choice([1, 1, 2, 3]) if self.focus != 'sets' else r.choice([40, 100]))]
        if self.splines:
            s['nsf'] = r.choice([b'1.0', b'1.1', b'2.5-beta'])
            for _ in range(self.count(4, 'curves')):
                ncp, nk, w = self.count(9), self.count(12, 'knots'), r.choice([0, 1])
                s['curves'].append({'tag': self.tag(0), 'type': self.tag(0), 'deg': r.randint(0, 20), 'ncp': ncp, 'nk': nk, 'w': w,
                                    'data': self.dbls(ncp * (4 if w else 3) + nk)})
            for _ in range(self.count(4, 'curves')):
                ncp, nu, nv, w = self.count(9), self.count(9, 'knots'), self.count(9), r.choice([0, 1])
                s['patches'].append({'tag': self.tag(0), 'type': self.tag(0), 'du': r.randint(0, 9), 'dv': r.randint(0, 9), 'ncp': ncp,
                                     'nu': nu, 'nv': nv, 'w': w, 'data': self.dbls(ncp * (4 if w else 3) + nu + nv)})
        return s

    def dataset(self, per_node):
        r = self.r
        odd, self.odd = self.odd, False
        rt = [self.dbl() for _ in range(r.choice([0, 1, 1, 2, self.count()]) if self.focus != 'reals' else 300)]
        self.odd = odd
        f = r.choice([0, 1, 1, 3, 9, self.count()]) if self.focus != 'fields' else r.choice([100, 256, 300])
        n = self.count(what='entries')
        wide, self.wide = self.wide, False
        entries = []
        for _ in range(n):
            k = r.choice([0, 1, 2, 3, 4, 8]) if per_node else 0
            entries.append({'tag': self.tag(0), 'npe': k, 'data': self.dbls(f * (k if per_node else 1))})
        self.wide = wide
        return {'st': [self.txt() for _ in range(r.choice([0, 1, 1, 2, self.count()]) if self.focus != 'strings' else 200)], 'rt': rt,
                'it': [self.eint(), f, n] + [self.eint() for _ in range(r.choice([0, 0, 1, 2]) if self.focus != 'ints' else 300)], 'entries': entries}

    # --- files of other programs: concrete tokens
    def header(self, ver, b):
        return [[0, 'kw', '$MeshFormat'], [0, 'w', ver], [0, 'i', b], [0, 'i', 8]] + ([[0, 'nl', 0], [4, 'm', 1]] if b else []) + [[0, 'kw', '$EndMeshFormat']]

    def sections(self, s, ver, b):
        """Sections of a description, as a writer of the format would put them."""
        e8, e4 = (8, 4) if b else (0, 0)
        sep = [[0, 'nl', 0]] if b else []
        T = lambda enc, kind, q: [[enc, kind, v] for v in q]
        sec = lambda name, body: [[0, 'kw', '$' + name]] + body + [[0, 'kw', '$End' + name]]
        r = []
        if s['phys']:
            body = [[0, 'n', len(s['phys'])]]
            for g in s['phys']:
                body += [[0, 'i', g['dim']], [0, 'e', g['tag']], [0, 's', g['name']]]
            r.append(sec('PhysicalNames', body))
        if ver == '4.1' and any(s['ents'][k] for k in 'pcsv'):
            body = sep + T(e8, 'n', [len(s['ents'][k]) for k in 'pcsv'])
            for k in 'pcsv':
                for x in s['ents'][k]:
                    body += [[e4, 'e', x['tag']]] + T(e8, 'd', x['box']) + [[e8, 'n', len(x['phys'])]] + T(e4, 'e', x['phys'])
                    if k != 'p':
                        body += [[e8, 'n', len(x['bnd'])]] + T(e4, 'e', x['bnd'])
            r.append(sec('Entities', body))
        n = s['nodes']
        if ver == '4.1':
            body = sep + T(e8, 'n', [n['nb'], n['nn']]) + T(e8, 't', [n['mn'], n['mx']])
            for x in n['blocks']:
                body += [[e4, 'i', x['dim']], [e4, 'e', x['etag']], [e4, 'i', x['par']], [e8, 'n', x['n']]] + T(e8, 't', x['tags']) + T(e8, 'd', x['data'])
            r.append(sec('Nodes', body))
            n = s['elems']
            body = sep + T(e8, 'n', [n['nb'], n['ne']]) + T(e8, 't', [n['mn'], n['mx']])
            for x in n['blocks']:
                body += [[e4, 'i', x['dim']], [e4, 'e', x['etag']], [e4, 'i', x['type']], [e8, 'n', x['n']]] + T(e8, 't', x['data'])
            r.append(sec('Elements', body))
        else:
            rows = []
            for x in n['blocks']:
                k = 3 + (x['dim'] if x['par'] == 1 else 0)
                for j, t in enumerate(x['tags']):
                    rows.append([[e4, 't', t]] + T(e8, 'd', x['data'][j * k:j * k + 3]))
            for part in self.parts(rows, .1):
                r.append(sec('Nodes', [[0, 'n', len(part)]] + sep + sum(part, [])))
            els = []
            lists = [self.etags() for _ in range(self.r.randint(1, 5))]
            for x in s['elems']['blocks']:
                w = SIZE[x['type'] - 1] + 1
                for j in range(x['n']):
                    row = x['data'][j * w:(j + 1) * w]
                    els.append((x['type'], self.r.choice(lists) if self.r.random() < .8 else self.etags(), row[0], row[1:]))
            if self.r.random() < .3:
                self.r.shuffle(els)
            for part in self.parts(els, .1):
                body = [[0, 'n', len(part)]] + sep
                if not b:
                    for t, tg, e, nd in part:
                        body += [[0, 't', e], [0, 'i', t], [0, 'i', len(tg)]] + T(0, 'e', tg) + T(0, 't', nd)
                else:
                    i = 0
                    while i < len(part):
                        j = i + 1
                        while j < len(part) and part[j][0] == part[i][0] and len(part[j][1]) == len(part[i][1]) and self.r.random() < .9:
                            j += 1
                        body += [[4, 'i', part[i][0]], [4, 'n', j - i], [4, 'i', len(part[i][1])]]
                        for t, tg, e, nd in part[i:j]:
                            body += [[4, 't', e]] + T(4, 'e', tg) + T(4, 't', nd)
                        i = j
                r.append(sec('Elements', body))
        for k, name in (('nd', 'NodeData'), ('ed', 'ElementData'), ('end', 'ElementNodeData')):
            for D in s[k]:
                body = [[0, 'n', len(D['st'])]] + T(0, 's', D['st']) + [[0, 'n', len(D['rt'])]] + T(0, 'r', D['rt']) + [[0, 'n', len(D['it'])]]
                body += [[0, 'n' if i in (1, 2) else 'e', v] for i, v in enumerate(D['it'])] + sep
                for x in D['entries']:
                    body += [[e4, 't', x['tag']]] + ([[e4, 'n', x['npe']]] if k == 'end' else []) + T(e8, 'd', x['data'])
                r.append(sec(name, body))
        if self.splines:
            if self.r.random() < .8:
                r.append(sec('NanoSplineFormat', [[0, 'w', s['nsf'].decode()]]))
            body = [[0, 'n', len(s['curves'])]]
            for c in s['curves']:
                body += [[0, 't', c['tag']], [0, 't', c['type']], [0, 't', c['deg']], [0, 'n', c['ncp']], [0, 'n', c['nk']], [0, 'n', c['w']]] + sep + T(e8, 'd', c['data'])
            if s['curves']:
                r.append(sec('Curves', body))
            body = [[0, 'n', len(s['patches'])]]
            for c in s['patches']:
                body += [[0, 't', c['tag']], [0, 't', c['type']], [0, 't', c['du']], [0, 't', c['dv']], [0, 'n', c['ncp']], [0, 'n', c['nu']], [0, 'n', c['nv']],
                         [0, 'n', c['w']]] + sep + T(e8, 'd', c['data'])
            if s['patches']:
                r.append(sec('Patches', body))
        return r

    def parts(self, q, p):
        """Usually one part; sometimes several."""
        if len(q) > 1 and self.r.random() < p:
            k = self.r.randint(1, len(q) - 1)
            return [q[:k], q[k:]]
        return [q]

    def etags(self):
        r = self.r
        return [self.small() for _ in range(r.choice([2, 2, 2, 2, 3, 4, 1, 0, 8]))]

    def unknown(self, b, raws):
        """A section nobody knows."""
        r = self.r
        name = r.choice(['Periodic', 'Foo', 'Node', 'Element', 'NodesX', 'PartitionedEntities', 'GhostElements', 'Parametrizations', 'Comments', 'X', 'Data', 'ElementNode', 'Mesh'])
        end = b'$End' + name.encode()
        k = r.random()
        if k < .3:
            return [[0, 'kw', '$' + name], [0, 'kw', '$End' + name]]
        bits_ = []
        for _ in range(r.randint(1, 8)):
            bits_.append(r.choice([b'$Nodes', b'$EndNodes', b'1 2 3', b'$Elements\n1\n', b'$', b'$End', b'\n', b'"', b'text', b'$EndMeshFormat', b'$MeshFormat 9 9 9',
                                  bytes(r.randrange(256) for _ in range(r.choice([1, 8, 100, 3000]))) if b else b'word ' * r.choice([1, 30, 2000])]))
        body = (b' ' if r.random() < .5 else b'\n').join(bits_)
        if not b:
            body = body.strip()
        if end in body + b'\n$En' or not body:
            body = b'x'
        raws.append(body)
        return [[0, 'kw', '$' + name], [0, 'nl', 0], [0, 'raw', len(raws) - 1], [0, 'kw', '$End' + name]]


class Ident(Gen):
    """Small values that are spelled as themselves, so that damage to the text keeps its meaning."""

    def __init__(self, rnd, **kw):
        super().__init__(rnd, **kw)
        self.tstyle = 'seq'
        self.size = rnd.choice([1, 2, 3, 5, 9])

    def dbl(self):
        return self.r.choice([0, 1, 2, 3, self.r.randint(0, 99)])

    def tag(self, low=1):
        return self.r.randint(low, 40)

    def eint(self):
        return self.r.randint(0, 12)

    def txt(self):
        return self.r.randint(1, 8)


def damage(rnd, ts):
    """One to three random damages to the tokens of a text file."""
    ts = [list(t) for t in ts]
    log = []
    for _ in range(rnd.choice([1, 1, 1, 2, 3])):
        if len(ts) < 2:
            break
        k = rnd.randrange(len(ts))
        what = rnd.choice(['word', 'drop', 'dup', 'num', 'num', 'num', 'cut', 'swap', 'block'])
        if what == 'word':
            ts[k] = [0, 'x', rnd.randint(0, 3)]
        elif what == 'drop':
            del ts[k:k + rnd.choice([1, 1, 1, 2, 4])]
        elif what == 'dup':
            ts[k:k] = ts[k:k + rnd.choice([1, 1, 2, 4])]
        elif what == 'num':
            ks = [j for j, t in enumerate(ts) if t[1] in 'nitedr']
            if not ks:
                continue
            n = [j for j in ks if ts[j][1] == 'n']
            k = rnd.choice(n if n and rnd.random() < .6 else ks)
            ts[k] = [0, ts[k][1], rnd.choice([ts[k][2] + 1, max(0, ts[k][2] - 1), rnd.randint(0, 12), 0])]
        elif what == 'cut':
            del ts[k:]
        elif what == 'swap' and k + 1 < len(ts):
            ts[k], ts[k + 1] = ts[k + 1], ts[k]
        elif what == 'block':
            j = rnd.randrange(len(ts))
            n = rnd.choice([2, 5, 9])
            ts[k:k + n] = ts[j:j + n]
        log.append('%s %d' % (what, k))
    return ts, ', '.join(log)


TYPES = [0, -1, 32, 33, 63, 92, 93, 100, 127, 255, 256, 1000, 2 ** 31 - 1, -2 ** 31]


def unsupported(rnd, secs, head, ver, b):
    """An unsupported feature somewhere in a well-formed file: (sections, head, what) or None."""
    secs = [[list(t) for t in q] for q in secs]
    head = [list(t) for t in head]
    what = rnd.choice(['version', 'size', 'endian', 'type', 'entities', 'tags'])
    if what == 'version':
        head[1][2] = rnd.choice(['1', '2', '2.0', '2.1', '2.20', '3', '4', '4.0', '4.10', '4.11', '5.0', '42', '4.1.0', '22', '-2.2', '4.2', '2.3'])
    elif what == 'size':
        if ver != '4.1':
            return None
        head[3][2] = rnd.choice([0, 1, 2, 4, 7, 9, 10, 16, 32, 64, 80, 88, -8, 1000])
    elif what == 'endian':
        if not b:
            return None
        head[5][2] = rnd.choice([0, 2, 16777216, 256, 65536, 257, 16777217, -1, 128, 33, 0x01010101])
    elif what == 'type':
        places = []
        for q in secs:
            if q[0][2] != '$Elements':
                continue
            if ver == '4.1':
                i = 5 + b
                for _ in range(q[1 + b][2]):
                    places.append(q[i + 2])
                    i += 4 + q[i + 3][2] * (SIZE[q[i + 2][2] - 1] + 1)
            elif b:
                i = 3
                while i < len(q) - 1:
                    places.append(q[i])
                    i += 3 + q[i + 1][2] * (1 + q[i + 2][2] + SIZE[q[i][2] - 1])
            else:
                i = 2
                while i < len(q) - 1:
                    places.append(q[i + 1])
                    i += 3 + q[i + 2][2] + SIZE[q[i + 1][2] - 1]
        if not places:
            return None
        rnd.choice(places)[2] = rnd.choice(TYPES)
    elif what == 'entities':
        if ver != '2.2':
            return None
        e8 = 8 if b else 0
        q = [[0, 'kw', '$Entities']] + ([[0, 'nl', 0]] if b else []) + [[e8, 'n', 0]] * 4 + [[0, 'kw', '$EndEntities']]
        secs.insert(rnd.randint(0, len(secs)), q)
    else:
        qs = [q for q in secs if q[0][2] in ('$NodeData', '$ElementData', '$ElementNodeData')]
        if not qs:
            return None
        q = rnd.choice(qs)
        i = 1
        i += q[i][2] + 1
        i += q[i][2] + 1
        n = q[i][2]
        keep = rnd.randint(0, 2)
        q[i][2] = keep
        del q[i + 1 + keep:i + 1 + n]
    return secs, head, what


def perturbed(rnd, s):
    """A description with one to three inconsistencies (or changes that keep it consistent)."""
    import copy
    s = copy.deepcopy(s)
    for _ in range(rnd.choice([1, 1, 1, 2, 3])):
        N, E = s['nodes'], s['elems']
        nb, eb = N['blocks'], E['blocks']
        what = rnd.choice(['nb', 'eb', 'nn', 'ne', 'mn', 'mx', 'emn', 'emx', 'bn', 'ben', 'tags', 'data', 'edata', 'tag', 'etag', 'ref', 'type', 'dim', 'par', 'swap', 'lose'])
        d = rnd.choice([1, -1, 1, -1, 2, 7])
        if what in ('nb', 'nn', 'mn', 'mx'):
            N[what] = max(0, N[what] + d)
        elif what in ('eb', 'ne', 'emn', 'emx'):
            k = {'eb': 'nb', 'ne': 'ne', 'emn': 'mn', 'emx': 'mx'}[what]
            E[k] = max(0, E[k] + d)
        elif what == 'bn' and nb:
            x = rnd.choice(nb)
            x['n'] = max(0, x['n'] + d)
        elif what == 'ben' and eb:
            x = rnd.choice(eb)
            x['n'] = max(0, x['n'] + d)
        elif what == 'tags' and nb:
            x = rnd.choice(nb)
            if d > 0 or not x['tags']:
                x['tags'].append(rnd.choice(x['tags'] or [N['mn']]))
            else:
                x['tags'].pop(rnd.randrange(len(x['tags'])))
        elif what == 'data' and nb:
            x = rnd.choice(nb)
            for _ in range(abs(rnd.choice([1, 3, d]))):
                if d > 0 or not x['data']:
                    x['data'].append(0)
                else:
                    x['data'].pop()
        elif what == 'edata' and eb:
            x = rnd.choice(eb)
            for _ in range(abs(rnd.choice([1, 3, d]))):
                if d > 0 or not x['data']:
                    x['data'].append(N['mn'])
                else:
                    x['data'].pop()
        elif what == 'tag' and nb:
            x = rnd.choice(nb)
            if x['tags']:
                x['tags'][rnd.randrange(len(x['tags']))] = max(0, rnd.choice([N['mn'] - 1, N['mx'] + 1, N['mn'], N['mx'], 0]))
        elif what in ('etag', 'ref') and eb:
            x = rnd.choice(eb)
            w = (SIZE[x['type'] - 1] if 1 <= x['type'] <= 31 else 1) + 1
            at = [j for j in range(len(x['data'])) if (j % w == 0) == (what == 'etag')]
            if at:
                R = E if what == 'etag' else N
                x['data'][rnd.choice(at[:1] + at[-1:] + [rnd.choice(at)])] = max(0, rnd.choice([R['mn'] - 1, R['mx'] + 1, R['mn'], R['mx'], 0]))
        elif what == 'type' and eb:
            rnd.choice(eb)['type'] = rnd.choice(list(range(1, 32)) * 3 + [0, -1, 32, 1000])
        elif what == 'dim' and nb:
            rnd.choice(nb)['dim'] = rnd.randint(0, 3)
        elif what == 'par' and nb:
            x = rnd.choice(nb)
            x['par'] = 1 - x['par']
        elif what == 'swap':
            R = rnd.choice([N, E])
            R['mn'], R['mx'] = R['mx'], R['mn']
        elif what == 'lose':
            q = rnd.choice([nb, eb])
            if q:
                q.pop(rnd.randrange(len(q)))
    return s
