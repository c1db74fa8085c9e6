"""From the specification's vectors to executable cases, and how each is judged."""
import json, random, zlib

from . import codec
from .codec import Conc, Style, strings_of, conc_spec, flat, unflat, diff, encode, match_bytes, collect_ordinals, collect_tokens, bits
from .run import Case, Known, dead

QUICK, THOROUGH = 'quick', 'thorough'


# ---------------------------------------------------------------------------
# Vectors.

class Vec:
    def __init__(self, line, k=0):
        self.d = json.loads(json.loads(line))
        d = self.d
        self.kind, self.label, self.ext = d['kind'], d['label'], d['ext']
        self.orig, self.cur = d['orig'], d['cur']
        self.trail, self.file, self.fault = d['trail'] or [], d['file'] or [], d['fault']
        self.out, self.valid = d['out'], d['valid']
        self.h = zlib.crc32(line.encode())

    def modes(self):
        if self.trail:
            return self.trail
        return [self.cur['fmt']]

    def binary(self):
        return any(m['bin'] for m in self.modes())

    def hasdata(self):
        return any(self.orig[k] or self.cur[k] for k in ('nd', 'ed', 'end'))

    def wide_ok(self):
        return not any(m['bin'] and (m['ver'] == '2.2' or self.hasdata()) for m in self.modes())

    def modelled(self):
        """The model says everything about the result."""
        return self.out == 'ok' and self.cur['nsf'] != '?' and not any(g['name'] == -1 for g in self.cur['phys']) and not any(
            -1 in (x['st'] or []) for k in ('nd', 'ed', 'end') for x in self.cur[k])

    def conc(self, profile, seed=0, wide=False, odd=False, strings='plain'):
        C = Conc(profile, seed, wide and self.wide_ok(), odd and all(m['bin'] for m in self.modes()), strings)
        if C.tags is None:
            return C
        T, E = set(), set()
        collect_ordinals(self.orig, T, E)
        collect_ordinals(self.cur, T, E)
        collect_tokens(self.file, T, E)
        return C.fit(T, E)

    def short(self):
        return {'kind': self.kind, 'label': self.label, 'trail': self.trail, 'fault': self.fault, 'out': self.out}


def vec_items(path):
    with open(path) as f:
        return [l.rstrip('\n') for l in f if l.startswith('"{')]


def hx(b):
    return b.hex() if b else '-'


def fmt_of(m):
    return {'ver': m['ver'], 'bin': m['bin'], 'dsz': 8}


def set_line(reg, spec):
    return 'set %s %s' % (reg, flat(spec))


def mode_line(reg, m):
    return 'mode %s %s %d' % (reg, hx(m['ver'].encode()), m['bin'])


# ---------------------------------------------------------------------------
# Views of concrete descriptions.

def nodelist(s):
    r = []
    for b in s['nodes']['blocks']:
        k = 3 + (b['dim'] if b['par'] == 1 else 0)
        for j, t in enumerate(b['tags']):
            r.append([t] + b['data'][j * k:j * k + 3])
    return r


def elemlist(s):
    r = []
    for b in s['elems']['blocks']:
        if not 1 <= b['type'] <= 31:
            r.append(['bad type', b['type']])
            continue
        w = codec.SIZE[b['type'] - 1] + 1
        for j in range(0, len(b['data']), w):
            r.append([b['data'][j], b['type'], b['etag']] + b['data'][j + 1:j + w])
    return r


def normdata(q):
    return [dict(x, entries=[dict(e, npe=0) for e in x['entries']]) for x in q]


def kept(s, ext):
    r = {'nodes': nodelist(s), 'elems': elemlist(s), 'phys': s['phys'], 'nd': normdata(s['nd']), 'ed': normdata(s['ed']),
         'end': s['end']}
    if ext:
        r.update(curves=s['curves'], patches=s['patches'], nsf=s['nsf'])
    return r


def totals(s):
    n, e = s['nodes'], s['elems']
    return {'nn': n['nn'], 'nmin': n['mn'], 'nmax': n['mx'], 'ne': e['ne'], 'emin': e['mn'], 'emax': e['mx'],
            'nsum': sum(b['n'] for b in n['blocks']), 'esum': sum(b['n'] for b in e['blocks']),
            'nb': n['nb'] == len(n['blocks']), 'eb': e['nb'] == len(e['blocks'])}


def want_spec(line, want, view=None, what=''):
    """Compare a `get' result with an expected concrete description."""
    if line.startswith('spec '):
        if line[5:] == flat(want):
            return None
        try:
            got = unflat(line[5:])
        except Exception as x:
            return 'unreadable result %s' % x
        if view:
            return diff(view(want), view(got), what)
        return diff(want, got, what) or 'descriptions differ'
    return '%s: %s instead of a description' % (what, line)


def first_bad(results, allowed=('ok',)):
    for i, r in enumerate(results):
        if dead(r):
            return 'step %d: %s' % (i, r)
    return None


# ---------------------------------------------------------------------------
# C01 / C02 / C03: save and load.

def profiles(ctx, v, base):
    """Concretisations for a vector: the small ones always, the rest rotating with seed."""
    s = ctx['seed'] * 1009 + v.h % 9973
    if ctx['tier'] == QUICK:
        return base(s)
    r = []
    for k in range(4):
        r += base(s + k * 7919)
    return r


def rt_profiles(s):
    return [('plain', s, False, False, 'plain'), ('hard', s, True, False, 'odd'), ('ws', s, True, False, 'blank')]


def save_lines(want, mode, reg='a'):
    return [set_line('a', want), mode_line('a', mode), 'save a f', 'load f b', 'get b']


def c01(ctx, line):
    v = Vec(line)
    if v.out != 'ok' or len(v.trail) != 1:
        return
    m = fmt_of(v.trail[0])
    for p in profiles(ctx, v, rt_profiles):
        C = v.conc(*p)
        o = conc_spec(v.orig, C)
        o['fmt'] = m
        w = conc_spec(v.cur, C)

        def judge(r, w=w):
            if r[1] != 'ok' or r[2] != 'ok':
                return 'load of the saved file: %s / %s' % (r[1], r[2])
            return want_spec(r[3], w, what='loaded')
        yield Case([set_line('a', o), 'save a f', 'load f b', 'get b'], judge, 'round trip %s %s' % (m, C.name), v.ext, vec=v.short())
    yield from scaled(ctx, v, m, None)
    yield from grown(ctx, v, m, None)


def scale_of(ctx, v, rate=12):
    """One vector stands for meshes with K times as many nodes and elements; now and then K, or None."""
    n = max([v.cur['nodes']['nn'], v.cur['elems']['ne']] + [len(x['entries']) for k in ('nd', 'ed', 'end') for x in v.cur[k]])
    if n == 0:
        return None
    quick = ctx['tier'] == QUICK
    if v.label == 'big':
        return 22000 if quick else 90000
    h = v.h + ctx['seed']
    if h % (rate if quick else 3):
        return None
    rnd = random.Random(v.h * 31 + ctx['seed'])
    if h % (rate * 23 if quick else 60) == 0:
        return max(3, rnd.choice([5000, 33000, 66000]) // n)
    return rnd.choice([2, 9, 13, 33, 70, 150]) if quick else rnd.choice([3, 10, 64, 300, 1000, 2000])


def each_scale(rate):
    def deco(f):
        def g(ctx, v, *a, **k):
            if v.label.startswith('lone'):
                Ks = sizes(ctx) if v.cur['nodes']['nn'] + v.cur['elems']['ne'] > 0 else []
            else:
                Ks = [scale_of(ctx, v, rate)]
            for K in Ks:
                if K:
                    yield from f(ctx, v, K, *a, **k)
        return g
    return deco


def rows_ok(v):
    """Tag 0 has no range of its own when scaled."""
    s = v.cur
    return not any(0 in b['tags'] for b in s['nodes']['blocks']) and not any(0 in b['data'] for b in s['elems']['blocks'])


@each_scale(12)
def scaled(ctx, v, K, m, view):
    o = codec.scale_spec(v.orig, None, K)
    o['fmt'] = m
    w = codec.scale_spec(v.cur, None, K)

    def judge(r):
        if r[1] != 'ok' or r[2] != 'ok':
            return 'load of the saved file: %s / %s' % (r[1], r[2])
        return want_spec(r[3], w, view, 'loaded')
    ctx['stat']['scaled'] = ctx['stat'].get('scaled', 0) + 1
    yield Case([set_line('a', o), 'save a f', 'load f b', 'get b'], judge, 'round trip %s, every node and element %d times' % (m, K), v.ext, vec=v.short())


@each_scale(7)
def scaled_file(ctx, v, K, view, style, what='load', control=False):
    if not rows_ok(v):
        return
    w = codec.scale_spec(v.cur, None, K)
    ctx['stat']['scaled'] = ctx['stat'].get('scaled', 0) + 1

    def judge(r):
        if control and (r[1] != 'ok' or want_spec(r[2], w, view)):
            return None
        if r[-2] != 'ok':
            return 'load: ' + r[-2]
        return want_spec(r[-1], w, view, 'loaded')
    ts = codec.scale_file(v.file, K)
    lines = ['bytes f ' + hx(encode(ts, codec.Raw, style)), 'load f b', 'get b']
    if control:
        lines = ['bytes f ' + hx(encode(ts, codec.Raw, Style('plain'))), 'load f b', 'get b'] + lines
    yield Case(lines, judge,
               '%s, every node and element %d times, %s' % (what, K, style.name), v.ext, vec=v.short())


def growth(ctx, v):
    """(K, how), now and then: every list entry, or every record, stands for K."""
    s = v.cur
    D = [d for k in ('nd', 'ed', 'end') for d in s[k]]
    E = [e for k in 'pcsv' for e in s['ents'][k]] if s['fmt']['ver'] == '4.1' else []
    if any(len(d['it']) < 3 for d in D):
        return None
    h = v.h * 7 + ctx['seed']
    quick = ctx['tier'] == QUICK
    lone = v.label.startswith('lone')
    if lone and v.label != 'lonerecords' and not (E or D or s['curves'] or s['patches']):
        return None
    if not lone and h % (9 if quick else 3):
        return None
    how = v.label[4:] if lone else ['lists', 'records'][h // 9 % 2]
    if how == 'lists':
        n = sum(len(e['phys']) + len(e.get('bnd', [])) for e in E) + sum(len(d['st']) + len(d['rt']) + len(d['it']) + sum(len(e['data']) for e in d['entries']) for d in D)
    else:
        n = len(s['phys']) + len(E) + sum(4 + len(d['entries']) for d in D)
        if s['fmt']['ver'] == '4.1':
            n += sum(b['n'] for k in ('nodes', 'elems') for b in s[k]['blocks'])
            if any(0 in b['tags'] for b in s['nodes']['blocks']) or any(0 in b['data'] for b in s['elems']['blocks']):
                return None
    n += sum(len(x['data']) for k in ('curves', 'patches') for x in s[k]) if v.ext else 0
    if n == 0:
        return None
    if lone:
        return sizes(ctx), how
    rnd = random.Random(h)
    K = rnd.choice([2, 7, 40, 150] * 4 + [1100, 5000, 20000]) if quick else rnd.choice([3, 30, 300] * 4 + [1100, 5000, 20000, 70000])
    return [max(2, min(K, (90000 if quick else 400000) // n))], how


def sizes(ctx):
    """Lengths for a single list or block: about and beyond the sizes buffers and counters have."""
    K = [2 ** i + d for i in range(5, 13) for d in (-1, 0, 1)] + [65536, 67000]
    return K if ctx['tier'] == QUICK else K + [2 ** i + d for i in (13, 14, 15, 16, 17) for d in (-1, 0, 1)] + [1000, 10000, 100000, 140000]


def each(f):
    """For every number of times growth asks for."""
    def g(ctx, v, *a, **k):
        Ks, how = growth(ctx, v) or ([], None)
        for K in Ks:
            yield from f(ctx, v, (K, how), *a, **k)
    return g


@each
def grown(ctx, v, g, m, view):
    o, w = codec.grow_spec(v.orig, *g, m['ver']), codec.grow_spec(v.cur, *g, m['ver'])
    o['fmt'] = m

    def judge(r):
        if r[1] != 'ok' or r[2] != 'ok':
            return 'load of the saved file: %s / %s' % (r[1], r[2])
        return want_spec(r[3], w, view, 'loaded')
    ctx['stat']['grown'] = ctx['stat'].get('grown', 0) + 1
    yield Case([set_line('a', o), 'save a f', 'load f b', 'get b'], judge, 'round trip %s, %s %d times' % (m, g[1], g[0]), v.ext, vec=v.short())


@each
def grown_file(ctx, v, g, view, style):
    w = codec.grow_spec(v.cur, *g, v.cur['fmt']['ver'])
    ctx['stat']['grown'] = ctx['stat'].get('grown', 0) + 1

    def judge(r):
        if r[1] != 'ok':
            return 'load: ' + r[1]
        return want_spec(r[2], w, view, 'loaded')
    yield Case(['bytes f ' + hx(encode(codec.grow_file(v.file, *g), codec.Raw, style)), 'load f b', 'get b'], judge,
               'load, %s %d times' % (g[1], g[0]), v.ext, vec=v.short())


@each
def grown_save(ctx, v, g, m):
    o = codec.grow_spec(v.orig, *g, m['ver'])
    o['fmt'] = m
    ts = codec.grow_file(v.file, *g)
    ctx['stat']['grown'] = ctx['stat'].get('grown', 0) + 1

    def judge(r):
        if r[1] != 'ok':
            return 'save: ' + r[1]
        return match_bytes(bytes.fromhex(r[2][6:].replace('-', '')), ts, codec.Raw) if r[2].startswith('bytes ') else r[2]
    yield Case([set_line('a', o), 'save a f', 'getb f'], judge, 'saved bytes %s, %s %d times' % (m, g[1], g[0]), v.ext, vec=v.short())


def kept22(s):
    return dict(kept(s, True), t=totals(s))


@each_scale(12)
def scaled_save(ctx, v, K, m):
    o = codec.scale_spec(v.orig, None, K)
    o['fmt'] = m
    ts = codec.scale_file(v.file, K)
    ctx['stat']['scaled'] = ctx['stat'].get('scaled', 0) + 1

    def judge(r):
        if r[1] != 'ok':
            return 'save: ' + r[1]
        return match_bytes(bytes.fromhex(r[2][6:].replace('-', '')), ts, codec.Raw) if r[2].startswith('bytes ') else r[2]
    yield Case([set_line('a', o), 'save a f', 'getb f'], judge, 'saved bytes %s, every node and element %d times' % (m, K), v.ext, vec=v.short())


def c02(ctx, line):
    v = Vec(line)
    if v.out != 'ok' or len(v.trail) != 1:
        return
    m = fmt_of(v.trail[0])
    view = lambda s: {'fmt': s['fmt'], 'k': kept(s, v.ext), 't': totals(s)}
    for p in profiles(ctx, v, rt_profiles):
        C = v.conc(*p)
        o = conc_spec(v.orig, C)
        o['fmt'] = m
        w = conc_spec(v.cur, C)

        def judge(r, w=w):
            if r[1] != 'ok' or r[2] != 'ok':
                return 'load of the saved file: %s / %s' % (r[1], r[2])
            x = want_spec(r[3], w, view, 'loaded')
            if x:
                return x
            if v.valid and r[4] != 'ok':
                return 'the loaded description does not validate: ' + r[4]
        yield Case([set_line('a', o), 'save a f', 'load f b', 'get b', 'val b'], judge, 'round trip %s %s' % (m, C.name), v.ext, vec=v.short())
    yield from scaled(ctx, v, m, view)
    yield from grown(ctx, v, m, view)


def c03(ctx, line):
    v = Vec(line)
    if v.out != 'ok' or len(v.trail) != 1:
        return
    m = fmt_of(v.trail[0])
    for p in profiles(ctx, v, lambda s: [('plain', s), ('hard', s, True, bool(m['bin']), 'odd')]):
        C = v.conc(*p)
        o = conc_spec(v.orig, C)
        o['fmt'] = m

        def judge(r, C=C):
            if r[1] != 'ok':
                return 'save: ' + r[1]
            if not r[2].startswith('bytes '):
                return r[2]
            b = r[2][6:]
            return match_bytes(b'' if b == '-' else bytes.fromhex(b), v.file, C)
        yield Case([set_line('a', o), 'save a f', 'getb f'], judge, 'saved bytes %s %s' % (m, C.name), v.ext, vec=v.short())
    yield from scaled_save(ctx, v, m)
    yield from grown_save(ctx, v, m)


# ---------------------------------------------------------------------------
# C04 / C05 / C06: files as other programs write them.

def load_case(v, C, style, judge, desc, more=(), **kw):
    b = encode(v.file, C, style, **kw)
    return Case(['bytes f ' + hx(b), 'load f b', 'get b'] + list(more), judge, '%s %s %s' % (desc, C.name, style.name), v.ext, vec=v.short())


SPELL = ['repr', 'e17', 'E17', 'zeros', 'plus', 'long']


def c04(ctx, line):
    v = Vec(line)
    if v.out != 'ok' or v.cur['fmt']['ver'] != '4.1':
        return
    for i, p in enumerate(profiles(ctx, v, lambda s: [('plain', s), ('hard', s, True, True, 'odd'), ('ws', s, True, False, 'blank')])):
        C = v.conc(*p)
        w = conc_spec(v.cur, C)

        def judge(r, w=w):
            if r[1] != 'ok':
                return 'load: ' + r[1]
            return want_spec(r[2], w, what='loaded')
        yield load_case(v, C, Style('plain', p[1], SPELL[(v.h + i) % len(SPELL)]), judge, 'load')
    yield from scaled_file(ctx, v, None, Style('plain', v.h))
    yield from grown_file(ctx, v, None, Style('plain', v.h))


def c05view(s):
    return {k: s[k] for k in s if k != 'ents'}


def c05(ctx, line):
    v = Vec(line)
    if v.out != 'ok' or v.cur['fmt']['ver'] != '2.2':
        return
    for i, p in enumerate(profiles(ctx, v, lambda s: [('plain', s), ('hard', s, True, True, 'plain'), ('ws', s, True, False, 'plain')])):
        C = v.conc(*p)
        w = conc_spec(v.cur, C)

        def judge(r, w=w):
            if r[1] != 'ok':
                return 'load: ' + r[1]
            x = want_spec(r[2], w, c05view, 'loaded')
            if x:
                return x
            if v.valid and r[3] != 'ok':
                return 'the loaded description does not validate: ' + r[3]
        yield load_case(v, C, Style('plain', p[1], SPELL[(v.h + i) % len(SPELL)]), judge, 'load', ['val b'])
    yield from scaled_file(ctx, v, c05view, Style('plain', v.h))
    yield from grown_file(ctx, v, c05view, Style('plain', v.h))
    yield from many_entities(ctx, v, True)


def many_entities(ctx, v, mesh=False):
    """Every copy of an element belongs to entities of its own."""
    K = scale_of(ctx, v, 4)
    if not K or not rows_ok(v) or v.label == 'big':
        return
    ts = codec.scale_file(v.file, K, True)
    if ts is None:
        return
    w = codec.scale_spec(v.cur, None, K)
    for k in 'pcsv':
        w['ents'][k] = sorted([dict(x, tag=codec.away(src['tag'], j, K), phys=[codec.away(o, j, K) for o in src['phys']])
                               for src, x in zip(v.cur['ents'][k], w['ents'][k]) for j in range(K)], key=lambda x: x['tag'])
    etags = [[e[0], codec.away(e[2], i % K, K)] for i, e in enumerate(elemlist(w))]
    want = kept22(w) if mesh else {'ents': w['ents'], 'etags': etags}
    if mesh:
        for e, x in zip(want['elems'], etags):
            e[2] = x[1]
    ctx['stat']['many entities'] = ctx['stat'].get('many entities', 0) + 1

    def judge(r):
        if r[1] != 'ok':
            return 'load: ' + r[1]
        if not r[2].startswith('spec '):
            return r[2]
        got = unflat(r[2][5:])
        if mesh and v.valid and r[3] != 'ok':
            return 'the loaded description does not validate: ' + r[3]
        return diff(want, kept22(got) if mesh else {'ents': got['ents'], 'etags': [[e[0], e[2]] for e in elemlist(got)]}, 'loaded')
    yield Case(['bytes f ' + hx(encode(ts, codec.Raw, Style('plain'))), 'load f b', 'get b', 'val b'], judge,
               'load, every element and its entities %d times' % K, v.ext, vec=v.short())


def c06(ctx, line):
    v = Vec(line)
    if v.out != 'ok' or v.cur['fmt']['ver'] != '2.2':
        return
    view = lambda s: {'ents': s['ents'], 'etags': [[e[0], e[2]] for e in elemlist(s)]}
    for i, p in enumerate(profiles(ctx, v, lambda s: [('plain', s), ('hard', s, True), ('hard', s + 1, False), ('ws', s)])):
        C = v.conc(*p)
        w = conc_spec(v.cur, C)

        def judge(r, w=w):
            if r[1] != 'ok':
                return 'load: ' + r[1]
            return want_spec(r[2], w, view, 'loaded')
        yield load_case(v, C, Style('plain', p[1]), judge, 'load')
    yield from scaled_file(ctx, v, view, Style('plain', v.h))
    yield from many_entities(ctx, v)


# ---------------------------------------------------------------------------
# C07: white space and number spelling.

KINDS = ['lines', 'crlf', 'tabs', 'spaces', 'random', 'random', 'far']
SPELLS = ['repr', 'e17', 'E17', 'fixed', 'zeros', 'plus', 'long', 'int', 'bare', 'lead', 'mixed', 'many']


def c07(ctx, line):
    v = Vec(line)
    if v.out != 'ok' or v.cur['fmt']['bin'] or not v.modelled():
        return
    s = ctx['seed'] * 1009 + v.h % 9973
    n = 3 if ctx['tier'] == QUICK else 12
    for j in range(n):
        C = v.conc(['hard', 'plain'][j % 2], s + j, True, False, 'blank')
        base = encode(v.file, C, Style('plain', 0, 'repr'))
        styles = [Style(KINDS[(s + j) % len(KINDS)], s + j, 'repr'), Style('plain', s + j, SPELLS[(s + j * 4) % len(SPELLS)]),
                  Style(KINDS[(s + j + 2) % len(KINDS)], s + j, 'mixed'),
                  Style('plain', s + j, 'repr', [1, .5, .1][(s + j) % 3])]
        lines = ['bytes f ' + hx(base), 'load f b', 'get b']
        for st in styles:
            lines += ['bytes f ' + hx(encode(v.file, C, st)), 'load f b', 'get b']

        def judge(r, styles=styles):
            if dead(r[1]) or dead(r[2]):
                return None
            for i, st in enumerate(styles):
                x, y = r[4 + 3 * i], r[5 + 3 * i]
                if (x, y) != (r[1], r[2]):
                    if x != r[1]:
                        return 'plain layout: %s, layout %s: %s' % (r[1], st.name, x)
                    return 'layout %s changes the result: %s' % (st.name, diff(unflat(r[2][5:]), unflat(y[5:])))
        yield Case(lines, judge, 'layouts ' + C.name, v.ext, vec=v.short())
    yield from scaled_file(ctx, v, kept22 if v.cur['fmt']['ver'] == '2.2' else None, Style(KINDS[v.h % len(KINDS)], v.h, 'mixed'), 'layout', True)


# ---------------------------------------------------------------------------
# C08: order, repetition, unknown sections.

KNOWN = ['$MeshFormat', '$PhysicalNames', '$Entities', '$Nodes', '$Elements', '$NodeData', '$ElementData', '$ElementNodeData']
SPLINE = ['$NanoSplineFormat', '$Curves', '$Patches']


def split_sections(ts):
    """[(name or None for stray text, tokens)]"""
    r, i = [], 0
    while i < len(ts):
        if ts[i][1] != 'kw':
            r.append((None, [ts[i]]))
            i += 1
            continue
        name = ts[i][2]
        end = '$End' + name[1:]
        j = i + 1
        while not (ts[j][1] == 'kw' and ts[j][2] == end):
            j += 1
        r.append((name, ts[i:j + 1]))
        i = j + 1
    return r


def swollen(secs, h):
    """What the library skips, very long: (how, sections)."""
    how = h % 4
    r, did = [], False
    times = lambda ts, most: max(2, min(most, 1500000 // (1 + len(encode(ts, Conc('plain'), Style('plain'))))))
    for name, ts in secs:
        if name in KNOWN or name and len(ts) == 2 and how != 1:
            r.append((name, ts))
            continue
        did = True
        if name is None:
            r.append((name, ts * times(ts, 150000) if how != 2 else [[0, 'w', 'x' * 1000003]] + ts))
        elif how == 0:
            r.append((name, ts[:1] + ts[1:-1] + [[0, 'w', '1']] * 800000 + ts[-1:]))
        elif how == 1:
            r += [(name, ts)] * times(ts, 20000)
        elif how == 2:
            r.append((name, ts[:1] + [[0, 'w', 'x' * 1000003]] + ts[1:]))
        else:
            r.append((name, ts[:1] + [[0, 'w', '$' + 'y' * (i % 7) ] for i in range(100000)] + ts[1:]))
    return ('words', 'sections', 'long word', 'markers')[how], r if did else None


def c08(ctx, line):
    v = Vec(line)
    if v.out != 'ok':
        return
    s = ctx['seed'] * 1009 + v.h % 9973
    secs = split_sections(v.file)
    style = Style('plain')
    K = scale_of(ctx, v, 7)
    if K and rows_ok(v) and v.label in ('order', 'unknown', 'stray'):
        known = sorted([x for x in secs if x[0] in KNOWN], key=lambda x: KNOWN.index(x[0]))
        files = [encode(codec.scale_file(ts, K), codec.Raw, style) for ts in (v.file, [t for x in known for t in x[1]])]
        ctx['stat']['scaled'] = ctx['stat'].get('scaled', 0) + 1

        def judge(r):
            if r[1] != 'ok':
                return None
            if r[4] != 'ok':
                return 'load: %s (without the change: ok)' % r[4]
            if r[5] != r[2]:
                return 'result changes: ' + str(diff(unflat(r[2][5:]), unflat(r[5][5:])))
        yield Case(['bytes g ' + hx(files[1]), 'load g c', 'get c', 'bytes f ' + hx(files[0]), 'load f b', 'get b'], judge,
                   '%s, every node and element %d times' % (v.label, K), v.ext, vec=v.short())
    how, big = swollen(secs, v.h // 29) if v.label in ('unknown', 'stray') and (v.h + ctx['seed']) % (29 if ctx['tier'] == QUICK else 5) == 0 else (None, None)
    if big:
        C = v.conc('plain', s)
        ctx['stat']['swollen'] = ctx['stat'].get('swollen', 0) + 1
        known = sorted([x for x in secs if x[0] in KNOWN], key=lambda x: KNOWN.index(x[0]))

        def judge(r):
            if r[1] != 'ok':
                return None
            if r[4] != 'ok':
                return 'load: %s (without the change: ok)' % r[4]
            if r[5] != r[2]:
                return 'result changes: ' + str(diff(unflat(r[2][5:]), unflat(r[5][5:])))
        files = [encode([t for x in q for t in x[1]], C, style) for q in (big, known)]
        yield Case(['bytes g ' + hx(files[1]), 'load g c', 'get c', 'bytes f ' + hx(files[0]), 'load f b', 'get b'], judge,
                   '%s, very many or long: %s' % (v.label, how), v.ext, vec=v.short())
    for p in profiles(ctx, v, lambda s: [('plain', s), ('ws' if v.binary() else 'hard', s, False, v.binary(), 'odd' if s % 2 else 'plain')]):
        C = v.conc(*p)
        main = encode(v.file, C, style)
        lines = ['bytes f ' + hx(main), 'load f b', 'get b']
        if v.label in ('order', 'unknown', 'stray'):
            known = [x for x in secs if x[0] in KNOWN]
            known.sort(key=lambda x: KNOWN.index(x[0]))
            ctl = encode([t for x in known for t in x[1]], C, style)
            lines = ['bytes g ' + hx(ctl), 'load g c', 'get c'] + lines

            def judge(r):
                if r[1] != 'ok':
                    return None
                if r[4] != 'ok':
                    return 'load: %s (without the change: ok)' % r[4]
                if r[5] != r[2]:
                    return 'result changes: ' + str(diff(unflat(r[2][5:]), unflat(r[5][5:])))
            yield Case(lines, judge, v.label + ' ' + C.name, v.ext, vec=v.short())
        else:
            head = secs[0][1]
            rest = [x for x in secs[1:]]
            for i, x in enumerate(rest):
                lines[-3:-3] = ['bytes g%d %s' % (i, hx(encode(head + x[1], C, style))), 'load g%d c%d' % (i, i), 'get c%d' % i]

            def judge(r, n=len(rest)):
                parts = []
                for i in range(n):
                    if r[1 + 3 * i] != 'ok':
                        return None
                    parts.append(unflat(r[2 + 3 * i][5:]))
                if r[-2] != 'ok':
                    return 'load: %s (each section alone: ok)' % r[-2]
                got = unflat(r[-1][5:])
                for k in ('nd', 'ed', 'end'):
                    d = diff([x for q in parts for x in q[k]], got[k], k)
                    if d:
                        return 'repeated sections: ' + d
                d = diff([x for q in parts for x in nodelist(q)], nodelist(got), 'nodes') or diff(
                    [x for q in parts for x in elemlist(q)], elemlist(got), 'elements')
                if d:
                    return 'repeated sections: ' + d
                if got['fmt']['ver'] == '2.2':
                    n, e = nodelist(got), elemlist(got)
                    t = totals(got)
                    if t['nn'] != len(n) or t['ne'] != len(e) or t['nsum'] != len(n) or t['esum'] != len(e):
                        return 'repeated sections: totals %r' % t
                    if n and (t['nmin'] != min(x[0] for x in n) or t['nmax'] != max(x[0] for x in n)):
                        return 'repeated sections: node tag range %r' % t
                    if e and (t['emin'] != min(x[0] for x in e) or t['emax'] != max(x[0] for x in e)):
                        return 'repeated sections: element tag range %r' % t
            yield Case(lines, judge, v.label + ' ' + C.name, v.ext, vec=v.short())


# ---------------------------------------------------------------------------
# C09: strings;  C10: payload.   A control with harmless values comes first.

def controlled(v, C0, C1, desc, m):
    o0, o1 = conc_spec(v.orig, C0), conc_spec(v.orig, C1)
    o0['fmt'] = o1['fmt'] = m
    w0, w1 = conc_spec(v.cur, C0), conc_spec(v.cur, C1)

    def judge(r):
        if r[1] != 'ok' or r[2] != 'ok' or want_spec(r[3], w0):
            return None
        if r[5] != 'ok' or r[6] != 'ok':
            return 'load of the saved file: %s / %s' % (r[5], r[6])
        return want_spec(r[7], w1, what='loaded')
    return Case([set_line('a', o0), 'save a f', 'load f b', 'get b', set_line('a', o1), 'save a f', 'load f b', 'get b'],
                judge, desc + ' ' + C1.name, v.ext, vec=v.short())


def c09(ctx, line):
    v = Vec(line)
    if v.out != 'ok' or len(v.trail) != 1:
        return
    m = fmt_of(v.trail[0])
    s = ctx['seed'] * 1009 + v.h % 9973
    n = 4 if ctx['tier'] == QUICK else 24
    for j in range(n):
        yield controlled(v, v.conc('plain', s), v.conc('plain', s + j * 13, strings='odd'), 'strings %s' % m, m)
    # all short strings and many shapes, many at a time
    C = v.conc('plain', s)
    o0, w0 = conc_spec(v.orig, C), conc_spec(v.cur, C)
    o0['fmt'] = m
    many = strings_of(v.h + ctx['seed'], 100 if ctx['tier'] == QUICK else 1500)

    def put(d):
        d = dict(d)
        if d['phys']:
            d['phys'] = [{'dim': i % 4, 'tag': i + 1, 'name': x} for i, x in enumerate(many)]
        for k in ('nd', 'ed', 'end'):
            d[k] = [dict(x, st=many[i:] + many[:i]) if x['st'] else x for i, x in enumerate(d[k])]
        return d
    o1, w1 = put(o0), put(w0)
    if o1 != o0:
        def judge(r):
            if r[1] != 'ok' or r[2] != 'ok' or want_spec(r[3], w0):
                return None
            if r[5] != 'ok' or r[6] != 'ok':
                return 'round trip with these strings: %s / %s' % (r[5], r[6])
            return want_spec(r[7], w1, what='loaded')
        ctx['stat']['many strings'] = ctx['stat'].get('many strings', 0) + 1
        yield Case([set_line('a', o0), 'save a f', 'load f b', 'get b', set_line('a', o1), 'save a f', 'load f b', 'get b'], judge, 'many strings %s' % m, v.ext, vec=v.short())


def c10(ctx, line):
    v = Vec(line)
    if v.out != 'ok':
        return
    s = ctx['seed'] * 1009 + v.h % 9973
    n = 1 if ctx['tier'] == QUICK else 6
    plain = v.conc('plain', s)
    # A control is of no use where a type or a count looks like white space.
    if v.trail and any(t[0] in (4, 8) and t[1] in ('n', 'i') and t[2] in (9, 10, 13, 32) for t in v.file):
        yield from c10count(ctx, line)
        return
    for j in range(n):
        for p in [('ws', s + j, True, False), ('hard', s + j, True, True), ('ws', s + j, False, True)]:
            C = v.conc(*p)
            if v.trail:
                yield controlled(v, plain, C, 'payload %s' % v.trail[0], fmt_of(v.trail[0]))
            b0, b1 = encode(v.file, plain), encode(v.file, C)
            w0, w1 = conc_spec(v.cur, plain), conc_spec(v.cur, C)

            def judge(r, w0=w0, w1=w1):
                if r[1] != 'ok' or want_spec(r[2], w0):
                    return None
                if r[4] != 'ok':
                    return 'load: ' + r[4]
                return want_spec(r[5], w1, what='loaded')
            if (v.h + j) % 2 == 0 or not v.trail:
                yield Case(['bytes f ' + hx(b0), 'load f b', 'get b', 'bytes f ' + hx(b1), 'load f b', 'get b'],
                           judge, 'payload (file) ' + C.name, v.ext, vec=v.short())


def c10count(ctx, line):
    """Counts of 9, 10, 13, 32: the control has another count (model counts 8, 11..)."""
    v = Vec(line)
    if v.out != 'ok' or len(v.trail) != 1:
        return
    m = fmt_of(v.trail[0])
    for p in profiles(ctx, v, lambda s: [('plain', s), ('ws', s, True, True)]):
        C = v.conc(*p)
        o = conc_spec(v.orig, C)
        w = conc_spec(v.cur, C)
        o['fmt'] = m

        def judge(r, w=w):
            if r[1] != 'ok' or r[2] != 'ok':
                return 'load of the saved file: %s / %s' % (r[1], r[2])
            return want_spec(r[3], w, what='loaded')
        yield Case([set_line('a', o), 'save a f', 'load f b', 'get b'], judge, 'counts %s %s' % (m, C.name), v.ext, vec=v.short())


WIDE = [2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 2 ** 33, 2 ** 40 + 3, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 64 - 2 ** 31, 2 ** 64 - 2, 2 ** 64 - 1]


def wide_conc(v, x):
    """Ordinal 100 is a tag beyond 31 bits, 99 the largest of 31 bits."""
    return Conc('ident', tags={100: x, 99: 2 ** 31 - 1})


def c10wide(ctx, line):
    v = Vec(line)
    if v.out != 'ok' or len(v.trail) != 1:
        return
    m = fmt_of(v.trail[0])
    plain = wide_conc(v, 100)
    plain.xtags = {}
    for x in (WIDE if ctx['tier'] == THOROUGH else [WIDE[(v.h + ctx['seed']) % len(WIDE)], 2 ** 64 - 1]):
        yield controlled(v, plain, wide_conc(v, x), 'tag %d %s' % (x, m), m)


# ---------------------------------------------------------------------------
# C12: refusals.

def c12(ctx, line):
    v = Vec(line)
    if v.out == 'ok':
        return
    for p in profiles(ctx, v, lambda s: [('plain', s), ('hard', s)]):
        if v.kind == 'file':
            C = v.conc(*p)

            def judge(r):
                return None if r[1] == 'ex ' + v.out else '%s file: %s instead of %s' % (v.label, r[1], v.out)
            for st in ([Style()] if v.cur['fmt']['bin'] or v.binary() else [Style(), Style('random', p[1])]):
                yield load_case(v, C, st, judge, 'refuse ' + v.label)
        else:
            C = v.conc(*p)
            o = conc_spec(v.orig, C)
            o['fmt'] = dict(v.trail[0])

            def judge(r):
                return None if r[1].startswith('ex ') else 'saving %s: %s instead of an exception' % (v.trail[0], r[1])
            yield Case([set_line('a', o), 'save a f'], judge, 'refuse to save ' + C.name, v.ext, vec=v.short())


def c12wide(ctx, line):
    v = Vec(line)
    if len(v.trail) != 1 or v.out == 'ok':
        return
    for x in (WIDE if ctx['tier'] == THOROUGH else WIDE[v.h % 3::3]):
        o = conc_spec(v.orig, wide_conc(v, x))
        o['fmt'] = fmt_of(v.trail[0])

        def judge(r, x=x):
            return None if r[1].startswith('ex ') else 'saving tag %d as %s: %s instead of an exception' % (x, v.trail[0], r[1])
        yield Case([set_line('a', o), 'save a f'], judge, 'refuse tag %d' % x, v.ext, vec=v.short())


# ---------------------------------------------------------------------------
# C13: validate_spec.

def as_built(v, got):
    """validate_spec's verdict is not the right one: the known deviation, or None."""
    want = {'valid': 'ok', 'CorruptData': 'ex CorruptData'}.get(v.d['built'])
    devs = v.d['devs'] or []
    if devs and (dead(got) if v.d['built'] == 'crash' else got == want):
        return Known(' '.join(devs))


def c13(ctx, line):
    v = Vec(line)
    if v.kind == 'save' and not v.trail:
        badtype = any(not 1 <= b['type'] <= 31 for b in v.orig['elems']['blocks'])
        for p in profiles(ctx, v, lambda s: [('plain', s), ('hard', s, True)]):
            o = conc_spec(v.orig, v.conc(*p))
            lines = [set_line('a', o), 'val a', 'get a']
            good = v.out == 'valid'
            if good:
                for ver in ('4.1', '2.2'):
                    for b in (0, 1):
                        lines += [mode_line('a', {'ver': ver, 'bin': b}), 'save a f']

            def judge(r, o=o):
                if good != (r[1] == 'ok') or dead(r[1]):
                    k = as_built(v, r[1])
                    if k and want_spec(r[2], o) is None:
                        return k
                if good and r[1] != 'ok':
                    return 'consistent description: ' + r[1]
                if not good and r[1] != 'ex CorruptData' and not (badtype and r[1].startswith('ex ')):
                    return 'contradictory description: %s instead of CorruptData' % r[1]
                x = want_spec(r[2], o, what='after validate_spec')
                if x:
                    return 'validate_spec altered the description: ' + x
                for q in r[3:]:
                    if dead(q):
                        return 'saving an accepted description: ' + q
            yield Case(lines, judge, 'validate', v.ext, vec=v.short())
        return
    if v.out not in ('ok', 'valid', 'CorruptData'):
        return
    for p in profiles(ctx, v, lambda s: [('plain', s), ('hard', s, True)]):
        C = v.conc(*p)
        w = conc_spec(v.cur, C)

        def judge(r, w=w):
            if r[1] != 'ok':
                return None
            if v.valid != (r[3] == 'ok') and want_spec(r[2], w) is None and r[4] == r[2]:
                k = as_built(v, r[3])
                if k:
                    return k
            if v.valid and r[3] != 'ok':
                return 'loaded from a consistent file: ' + r[3]
            if not v.valid and r[3] != 'ex CorruptData' and want_spec(r[2], w) is None:
                return 'contradictory description: %s instead of CorruptData' % r[3]
            if r[4] != r[2]:
                return 'validate_spec altered the description'
        yield load_case(v, C, Style(), judge, 'load and validate', ['val b', 'get b'])


# ---------------------------------------------------------------------------
# C16: splines.

def c16(ctx, line):
    v = Vec(line)
    if v.out != 'ok':
        return
    sp = lambda s: {'nsf': s['nsf'], 'curves': s['curves'], 'patches': s['patches']}
    rest = lambda s: {k: s[k] for k in s if k not in ('nsf', 'curves', 'patches')}
    if v.kind == 'save':
        if len(v.trail) != 1:
            return
        m = fmt_of(v.trail[0])
        if v.orig['curves'] or v.orig['patches']:
            yield from grown(ctx, v, m, sp)
        for p in profiles(ctx, v, lambda s: [('plain', s), ('hard', s, True, True), ('ws', s, True, True)]):
            C = v.conc(*p)
            o, w = conc_spec(v.orig, C), conc_spec(v.cur, C)
            o['fmt'] = m
            o0 = dict(o, curves=[], patches=[])

            def judge(r, w=w):
                ctl = r[1] == 'ok' and r[2] == 'ok' and r[3].startswith('spec') and diff(rest(w), rest(unflat(r[3][5:]))) is None
                if r[5] != 'ok' or r[6] != 'ok':
                    return 'load of the saved file: %s / %s' % (r[5], r[6]) if ctl else None
                got = unflat(r[7][5:])
                d = diff(sp(w), sp(got), 'loaded')
                if d is None and ctl:
                    d = diff(rest(w), rest(got), 'loaded')
                return d
            yield Case([set_line('a', o0), 'save a f', 'load f b', 'get b', set_line('a', o), 'save a f', 'load f b', 'get b'],
                       judge, 'splines %s %s' % (m, C.name), v.ext, vec=v.short())
        return
    secs = [x for x in split_sections(v.file) if x[0] not in SPLINE]
    for p in profiles(ctx, v, lambda s: [('plain', s), ('ws' if v.binary() else 'hard', s, False, True)]):
        C = v.conc(*p)
        w = conc_spec(v.cur, C)
        lines = ['bytes g ' + hx(encode([t for x in secs for t in x[1]], C)), 'load g c', 'get c',
                 'bytes f ' + hx(encode(v.file, C)), 'load f b', 'get b']

        def judge(r, w=w):
            if r[1] != 'ok':
                return None
            if r[4] != 'ok':
                return 'file with splines: %s (without: ok)' % r[4]
            got, ctl = unflat(r[5][5:]), unflat(r[2][5:])
            d = diff(rest(ctl), rest(got), 'with splines')
            if d is None and v.ext:
                d = diff(sp(w), sp(got), 'loaded')
            return d
        yield Case(lines, judge, 'spline file, extension %s' % ('on' if v.ext else 'off'), v.ext, vec=v.short())


# ---------------------------------------------------------------------------
# C17: the element table.

def c17(ctx, item):
    if isinstance(item, tuple):
        t = item[0]
        ok = 1 <= t <= 31

        def judge(r):
            want = ('ok %d' % codec.SIZE[t - 1], 'ok %d' % codec.DIM[t - 1]) if ok else ('ex UnsupportedFeature',) * 2
            if (r[0], r[1]) != want:
                return 'type %d: nodes_per_element %s, get_element_dim %s; expected %s, %s' % ((t, r[0], r[1]) + want)
        yield Case(['npe %d' % t, 'dim %d' % t], judge, 'table %d' % t)
        return
    v = Vec(item)
    if v.out != 'ok':
        return
    m = v.cur['fmt']
    C = v.conc('plain')
    w = conc_spec(v.cur, C)
    view = lambda s: {'elems': elemlist(s), 'dims': [b['dim'] for b in s['elems']['blocks']] if m['ver'] == '2.2' else 0,
                      'owners': [(x, b['dim'], b['etag']) for b in s['nodes']['blocks'] for x in b['tags']] if m['ver'] == '2.2' else 0}
    # control: the same kind of file with one point element
    ctl = CONTROL[(m['ver'], m['bin'])]

    def judge(r):
        if r[1] != 'ok':
            return None
        if r[3] != 'ok':
            return 'load: ' + r[3]
        x = want_spec(r[4], w, view, 'loaded')
        if x:
            return x
        if v.trail:
            if r[6] != 'ok' or r[7] != 'ok':
                return 'save and load: %s / %s' % (r[6], r[7])
            return want_spec(r[8], w, view, 'saved and loaded')
    lines = ['bytes g ' + hx(ctl), 'load g c', 'bytes f ' + hx(encode(v.file, C)), 'load f b', 'get b']
    if v.trail:
        o = conc_spec(v.orig, C)
        o['fmt'] = fmt_of(v.trail[0])
        lines += [set_line('a', o), 'save a h', 'load h d', 'get d']
    yield Case(lines, judge, 'element types %s' % m, v.ext, vec=v.short())


def _control():
    import struct
    r = {}
    one = struct.pack('<i', 1)
    u = lambda *q: struct.pack('<%dQ' % len(q), *q)
    i = lambda *q: struct.pack('<%di' % len(q), *q)
    d = struct.pack('<3d', 1, 2, 3)
    r[('4.1', 0)] = b'$MeshFormat\n4.1 0 8\n$EndMeshFormat\n$Nodes\n1 1 1 1\n0 1 0 1\n1\n1 2 3\n$EndNodes\n$Elements\n1 1 1 1\n0 1 15 1\n1 1\n$EndElements\n'
    r[('2.2', 0)] = b'$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n1\n1 1 2 3\n$EndNodes\n$Elements\n1\n1 15 2 1 1 1\n$EndElements\n'
    r[('4.1', 1)] = b'$MeshFormat\n4.1 1 8\n' + one + b'\n$EndMeshFormat\n$Nodes\n' + u(1, 1, 1, 1) + i(0, 1, 0) + u(1, 1) + d + b'\n$EndNodes\n$Elements\n' + u(1, 1, 1, 1) + i(0, 1, 15) + u(1, 1, 1) + b'\n$EndElements\n'
    r[('2.2', 1)] = b'$MeshFormat\n2.2 1 8\n' + one + b'\n$EndMeshFormat\n$Nodes\n1\n' + i(1) + d + b'\n$EndNodes\n$Elements\n1\n' + i(15, 1, 2, 1, 1, 1, 1) + b'\n$EndElements\n'
    return r


CONTROL = _control()


# ---------------------------------------------------------------------------
# C18: chains.

def c18(ctx, line):
    v = Vec(line)
    if v.out != 'ok' or not v.trail:
        return
    narrow = v.hasdata() or any(m['ver'] == '2.2' for m in v.trail)     # both encodings are saved
    for p in profiles(ctx, v, lambda s: [('hard', s, not narrow, False, 'odd'), ('ws', s + 1, False, False, 'blank')]):
        C = v.conc(*p)
        o = conc_spec(v.orig, C)
        lines = [set_line('a', o)]
        for m in v.trail:
            lines += [mode_line('a', m), 'save a f', 'load f a']
        last = fmt_of(v.trail[-1])
        n = len(lines)
        lines += ['get a', 'save a f', 'load f b', 'get b', 'copy a c', mode_line('c', dict(last, bin=1 - last['bin'])), 'save c f', 'load f d',
                  mode_line('d', last), 'get d']
        want = kept(o, v.ext)

        def judge(r, want=want, n=n):
            bad = [x for x in r[1:n] if x != 'ok']
            if bad:
                return 'chain: ' + bad[0]
            if not r[n].startswith('spec '):
                return 'chain: ' + r[n]
            d = diff(want, kept(unflat(r[n][5:]), v.ext), 'after the chain')
            if d:
                return d
            for what, at, st in (('repeating the last conversion', n + 3, (n + 1, n + 2)), ('the other encoding', n + 9, (n + 6, n + 7))):
                for k in st:
                    if r[k] != 'ok':
                        return '%s: %s' % (what, r[k])
                if r[at] != r[n]:
                    return '%s changes: %s' % (what, diff(unflat(r[n][5:]), unflat(r[at][5:])))
        yield Case(lines, judge, 'chain %s %s' % ([(m['ver'], m['bin']) for m in v.trail], C.name), v.ext, vec=v.short())
    K = scale_of(ctx, v)
    if K:
        o = codec.scale_spec(v.orig, None, K)
        lines = [set_line('a', o)]
        for m in v.trail:
            lines += [mode_line('a', m), 'save a f', 'load f a']
        want = kept(o, v.ext)

        def judge(r):
            bad = [x for x in r[1:] if x != 'ok' and not x.startswith('spec ')]
            if bad:
                return 'chain: ' + bad[0]
            return diff(want, kept(unflat(r[-1][5:]), v.ext), 'after the chain')
        ctx['stat']['scaled'] = ctx['stat'].get('scaled', 0) + 1
        yield Case(lines + ['get a'], judge, 'chain %s, every node and element %d times' % ([(m['ver'], m['bin']) for m in v.trail], K), v.ext, vec=v.short())
