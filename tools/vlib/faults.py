"""C11, C14, C15: damage, devices that fail, histories and interleavings."""
import json, os, random, struct, zlib

from . import codec
from .cases import *
from .cases import _control
from .run import Case, dead, execute

# ---------------------------------------------------------------------------
# C11: cuts.  The model gives a verdict per token boundary and token; the
# harness applies it at every byte.

def cut_items(part, path, ctx):
    """One item per file and slice: {'file', 'verdicts', 'ext', ...}"""
    full, cuts = {}, {}
    vecs = [Vec(l) for l in vec_items(path)]
    whole = [v for v in vecs if v.fault[0] == 'none']
    res = []
    for w in whole:
        verdict = {}
        for v in vecs:
            if v.fault[0] == 'none' or v.ext != w.ext or v.trail != w.trail or v.kind != w.kind:
                continue
            k = v.fault[1]
            if v.file[:k - 1] != w.file[:k - 1] or len(v.file) > len(w.file):
                continue
            if v.fault[0] == 'part' and k <= len(w.file) and v.fault[3] != w.file[k - 1][1]:
                continue
            verdict.setdefault('%s %d' % (v.fault[0], k), (v.out, v.cur))
        for sl in range(8):
            res.append({'d': w.d, 'verdict': verdict, 'slice': sl})
    return res


class Obj(Vec):
    def __init__(self, d):
        self.d = d
        self.kind, self.label, self.ext = d['kind'], d['label'], d['ext']
        self.orig, self.cur = d['orig'], d['cur']
        self.trail, self.file, self.fault = d['trail'] or [], d['file'] or [], d['fault']
        self.out, self.valid = d['out'], d['valid']
        self.h = zlib.crc32(json.dumps(d, sort_keys=True).encode())


def c11cut(ctx, item):
    v = Obj(item['d'])
    verdict = item['verdict']
    s = ctx['seed'] * 1009 + v.h % 9973
    n = 1 if ctx['tier'] == QUICK else 4
    profs = []
    for k in range(n):
        profs += [('plain', s + k), ('ws', s + k, True, False, 'odd'), ('hard', s + k, True, False, 'blank')]
    for p in profs:
        C = v.conc(*p)
        spans = []
        b = encode(v.file, C, Style(), spans=spans)
        for at in range(item['slice'], len(b) + 1, 8):
            # the token the cut falls into, or the first one not reached
            key = None
            for k, (lo, hi) in enumerate(spans):
                if at <= lo:
                    key = 'cut %d' % (k + 1)
                    break
                if at < hi:
                    key = 'part %d' % (k + 1)
                    break
            if key is None:
                out, cur = 'ok', v.cur
            else:
                if key not in verdict:
                    ctx['stat']['no verdict'] = ctx['stat'].get('no verdict', 0) + 1
                    continue
                out, cur = verdict[key]
            w = conc_spec(cur, C) if out == 'ok' else None

            def judge(r, at=at, out=out, w=w, key=key):
                if dead(r[1]):
                    return 'cut at byte %d: %s' % (at, r[1])
                if out == 'ok':
                    if r[1] != 'ok':
                        return 'cut at byte %d, between sections: %s' % (at, r[1])
                    return want_spec(r[2], w, what='cut at byte %d' % at)
                if not r[1].startswith('ex '):
                    return 'cut at byte %d, inside a section (%s): accepted' % (at, key)
            yield Case(['bytes f ' + hx(b[:at]), 'load f b', 'get b'], judge, 'cut %d of %d %s' % (at, len(b), C.name), v.ext, vec=v.short())


# Words that are no numbers, and counts that are too big.
NONNUM = ['zz', 'word', '_', 'zq.zz', '-', '+', '$Foo', '"str"', ',', '#']
BIG = [1000, 100000, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 61, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]


def c11text(ctx, line):
    """ASCII files damaged token by token; every value is spelled as itself."""
    v = Vec(line)
    C = Conc('ident')
    refused = v.out not in ('ok', 'unspecified')
    files = []
    s = ctx['seed'] + v.h
    if v.fault[0] == 'word':
        k = v.fault[1] - 1
        n = 3 if ctx['tier'] == QUICK else len(NONNUM)
        for j in range(n):
            x = NONNUM[(s + j) % len(NONNUM)]
            ts = v.file[:k] + [[0, 'w', x]] + v.file[k + 1:]
            files.append((encode(ts, C, Style()), '%r for token %d' % (x, k + 1), refused and v.fault[3] != 'kw' or refused and not x.startswith('$')))
    else:
        files.append((encode(v.file, C, Style()), str(v.fault), refused))
        if v.fault[0] == 'num' and refused and v.fault[3] == 'n':
            k = v.fault[1] - 1
            # one more than announced is refused, so is every bigger number
            t = v.file[k]
            for x in BIG:
                if x > t[2]:
                    files.append((encode(v.file[:k] + [[0, 'n', x]] + v.file[k + 1:], C, Style()), 'count %d for token %d' % (x, k + 1), v.fault[4] > 0))
    for b, what, must in files:
        def judge(r, must=must, what=what):
            if dead(r[1]):
                return '%s: %s' % (what, r[1])
            if dead(r[2]):
                return 'validating after %s: %s' % (what, r[2])
            if must and not r[1].startswith('ex '):
                return '%s: accepted' % what
        yield Case(['bytes f ' + hx(b), 'load f b', 'val b safe'], judge, 'damage %s' % what, v.ext, vec=v.short())


def structured(rnd, b, spans, ts, other):
    """A damaged copy of a file."""
    b = bytearray(b)
    for _ in range(rnd.choice([1, 1, 1, 2, 3, 5])):
        k = rnd.randrange(9)
        if not b:
            break
        if k == 0:
            b[rnd.randrange(len(b))] ^= 1 << rnd.randrange(8)
        elif k == 1:
            b[rnd.randrange(len(b))] = rnd.choice(b'\x00\xff\n $"-19\x80')
        elif k == 2:
            i = rnd.randrange(len(b))
            del b[i:i + rnd.choice([1, 2, 4, 8, 50, 300])]
        elif k == 3:
            i = rnd.randrange(len(b))
            j = i + rnd.choice([1, 4, 8, 40, 200])
            b[i:i] = b[i:j]
        elif k == 4:
            i = rnd.randrange(len(b))
            b[i:i] = bytes(rnd.randrange(256) for _ in range(rnd.choice([1, 4, 8, 33])))
        elif k == 5:
            i = rnd.randrange(len(other))
            b[rnd.randrange(len(b)):] = other[i:]
        elif k == 6:
            i = rnd.randrange(len(b))
            b[i:i + 8] = struct.pack('<q', rnd.choice([0, -1, 1, 2 ** 31, 2 ** 32, 2 ** 61, 2 ** 63 - 1, -2 ** 63, 2 ** 60 + 1, 3]))
        else:
            i = rnd.randrange(len(spans))
            lo, hi = spans[i]
            t = ts[i]
            if hi <= len(b) and t[1] != 'kw' or rnd.random() < .2:
                if t[0] == 4:
                    b[lo:hi] = struct.pack('<i', rnd.choice([0, -1, 1, 2, 15, 31, 32, 99, 2 ** 31 - 1, -2 ** 31, 2 ** 30, -4, -3, 1000000, 65536]))
                elif t[0] == 8:
                    b[lo:hi] = struct.pack('<Q', rnd.choice([0, 1, 2, 3, 10 ** 6, 2 ** 31, 2 ** 32, 2 ** 60, 2 ** 61, 2 ** 61 + 1, 2 ** 62, 2 ** 63, 2 ** 64 - 1, 2 ** 64 - 2, 6148914691236517206, 3074457345618258603, 1537228672809129302]))
                else:
                    b[lo:hi] = rnd.choice([b'0', b'-1', b'1', b'99999999999999999999999', b'18446744073709551615', b'9223372036854775807', b'2147483648', b'-2147483648', b'1e400', b'nan', b'', b'x', b'1000000', b'6148914691236517206', b'3', b'-3', b'4', b'32', b'"', b'"unclosed', b'$End', b'$'])
    return bytes(b)


def random_items(part, path, ctx):
    vs = [json.dumps(Vec(l).d) for l in vec_items(path)]
    n = 300 if ctx['tier'] == QUICK else 6000
    return [(i, vs[i % len(vs)], vs[(i * 7 + 3) % len(vs)]) for i in range(n)]


def c11random(ctx, item):
    i, a, b = item
    rnd = random.Random('%d/%d' % (ctx['seed'], i))
    v, o = Obj(json.loads(a)), Obj(json.loads(b))
    C = v.conc(rnd.choice(['plain', 'hard', 'ws']), i, True, False, rnd.choice(['plain', 'odd']))
    spans = []
    base = encode(v.file, C, Style(), spans=spans)
    other = encode(o.file, o.conc('plain'), Style())
    for _ in range(10):
        x = structured(rnd, base, spans, v.file, other)

        def judge(r):
            for q in r[1:]:
                if dead(q):
                    return 'damaged file: ' + q
        yield Case(['bytes f ' + hx(x), 'load f b', 'val b safe'], judge, 'random damage %d' % i, v.ext)


def c11alive(ctx, line):
    """Whatever the file, loading ends and touches only its own memory."""
    v = Vec(line)
    s = ctx['seed'] * 1009 + v.h % 9973
    for p in [('plain', s), ('hard', s, True, True, 'odd')]:
        C = v.conc(*p)
        if not v.file:
            return

        def judge(r):
            for q in r[1:]:
                if dead(q):
                    return 'load: ' + q
        yield load_case(v, C, Style(), judge, 'undamaged')


def c11contra(ctx, line):
    v = Vec(line)
    for p in profiles(ctx, v, lambda s: [('plain', s), ('hard', s), ('ws', s)]):
        def judge(r):
            if not r[1].startswith('ex '):
                return 'element headers promise more than the section: ' + ('accepted' if r[1] == 'ok' else r[1])
        yield load_case(v, v.conc(*p), Style(), judge, 'contradiction')


def c11dangling(ctx, line):
    v = Vec(line)
    if v.out != 'ok' or len(v.trail) != 1:
        return
    for p in profiles(ctx, v, lambda s: [('plain', s), ('hard', s, True)]):
        C = v.conc(*p)
        w = conc_spec(v.cur, C)

        def judge(r, w=w):
            if r[1] != 'ok':
                return 'a file with references to missing nodes: ' + r[1]
            if dead(r[3]):
                return r[3]
            if not v.valid and r[3] == 'ok' and want_spec(r[2], w) is None:
                return 'references outside the range of node tags pass validation'
        yield load_case(v, C, Style(), judge, 'dangling', ['val b'])


# ---------------------------------------------------------------------------
# C14: devices.

def write_items(part, path, ctx):
    """Per description and mode: the prefix lengths (in tokens) after which writing failed."""
    g = {}
    for line in vec_items(path):
        v = Vec(line)
        key = json.dumps([v.orig, v.trail, v.ext], sort_keys=True)
        g.setdefault(key, []).append(v)
    res = []
    for vs in g.values():
        fails = sorted(v.fault[1] for v in vs if v.fault[0] == 'wfail')
        whole = [v for v in vs if v.fault[0] == 'none']
        if whole and fails:
            res.append({'d': whole[0].d, 'after': fails})
    return res


def c14write(ctx, item):
    v = Obj(item['d'])
    m = fmt_of(v.trail[0])
    s = ctx['seed'] * 1009 + v.h % 9973
    C = v.conc(['plain', 'hard'][s % 2], s)
    o = conc_spec(v.orig, C)
    o['fmt'] = m
    # How many bytes the library needs is its own business (white space): ask it.
    exe = ctx['exes'][('asan', v.ext)]
    r = execute(exe, [Case([set_line('a', o), 'save a f', 'getb f'], None)], ctx['dir'], 'size')[0]
    if r[1] != 'ok':
        return
    total = len(r[2][6:]) // 2
    step = 1 if ctx['tier'] == THOROUGH or total < 700 else 3
    for mode in (0, 1, 2, 3, 4):
        def judge(r):
            if r[1] != 'ok good %d' % total:
                return None
            for k, q in r[2:]:
                if dead(q) or q.startswith('ok good'):
                    return 'the stream failed at byte %d of %d: %s' % (k, total, q)

        ks = list(range(s % step, total, step if mode < 2 or ctx['tier'] == THOROUGH else step * 2 + 1))
        for lo in range(0, len(ks), 100):
            part = ks[lo:lo + 100]
            lines = [set_line('a', o), 'fsave a %d %d' % (total + 10, mode)] + ['fsave a %d %d' % (k, mode) for k in part]

            def judge2(r, part=part, judge=judge):
                return judge(r[:2] + list(zip(part, r[2:])))
            yield Case(lines, judge2, 'stream that fails, mode %d' % mode, v.ext, vec=v.short())
    # files of limited size
    path = os.path.join(ctx['dir'], 'lim-%d.msh' % v.h)
    hp = hx(path.encode())
    ks = sorted({0, 1, total - 1, total // 2, total - 2} | set(range(s % 17, total, 17 if ctx['tier'] == QUICK else 3)))
    ks = [k for k in ks if 0 <= k < total]
    lines = [set_line('a', o), 'save a f', 'savef a ' + hp, 'slurp %s g' % hp, 'eqb f g'] + ['savefl a %s %d' % (hp, k) for k in ks] + ['unlink ' + hp]

    def judge3(r, ks=ks):
        if r[2] != 'ok' or r[4] != 'same':
            return 'saving to a file: %s, content %s' % (r[2], r[4])
        for k, q in zip(ks, r[5:]):
            if not q.startswith('ex '):
                return 'file limited to %d of %d bytes: %s' % (k, total, q)
    yield Case(lines, judge3, 'limited file', v.ext, vec=v.short())
    # places that cannot be written
    full = full_device(ctx)
    bad = [full, os.path.join(ctx['dir'], 'no', 'such', 'x.msh'), ctx['dir'], '']
    lines = [set_line('a', o)] + ['savef a ' + hx(x.encode()) for x in bad]

    def judge4(r):
        for x, q in zip(bad, r[1:]):
            if not q.startswith('ex '):
                return 'saving to %r: %s' % (x, q)
    yield Case(lines, judge4, 'unwritable places', v.ext, vec=v.short())
    # several buffers' worth, failing anywhere
    K = 60
    if v.orig['nodes']['nn']:
        big = codec.scale_spec(v.orig, None, K)
        big['fmt'] = m
        rnd = random.Random(s)
        r = execute(exe, [Case([set_line('a', big), 'save a f', 'getb f'], None)], ctx['dir'], 'size')[0]
        if r[1] == 'ok':
            tot = len(r[2][6:]) // 2
            ks = sorted({tot - 1, tot - 2, tot // 2, 8191, 8192, 4096, 1} | {rnd.randrange(tot) for _ in range(20)})
            ks = [k for k in ks if k < tot]
            lines = [set_line('a', big)] + ['fsave a %d %d' % (k, k % 4) for k in ks] + ['savefl a %s %d' % (hp, k) for k in ks] + [
                'save a f', 'savef a ' + hp, 'slurp %s g' % hp, 'eqb f g', 'unlink ' + hp, 'savef a ' + hx(full.encode())]

            def judge5(r, ks=ks):
                for k, q in zip(ks, r[1:]):
                    if dead(q) or q.startswith('ok good'):
                        return 'the stream failed at byte %d of %d: %s' % (k, tot, q)
                for k, q in zip(ks, r[1 + len(ks):]):
                    if not q.startswith('ex '):
                        return 'file limited to %d of %d bytes: %s' % (k, tot, q)
                q = r[1 + 2 * len(ks):]
                if q[1] != 'ok' or q[3] != 'same':
                    return 'saving to a file: %s, content %s' % (q[1], q[3])
                if not q[5].startswith('ex '):
                    return 'saving to /dev/full: ' + q[5]
            yield Case(lines, judge5, 'big file', v.ext, vec=v.short())


def full_device(ctx):
    """The full device under a name in the scratch folder: whatever replaces or removes that name does not touch the device."""
    p = os.path.join(ctx['dir'], 'full')
    if os.path.islink(p):
        os.unlink(p)
    os.symlink('/dev/full', p)
    return p


def read_items(part, path, ctx):
    seen = {}
    for line in vec_items(path):
        v = Vec(line)
        if v.fault[0] == 'none' and v.out == 'ok':
            seen.setdefault(json.dumps([v.file, v.ext]), {'d': v.d})
    return list(seen.values())


def c14read(ctx, item):
    v = Obj(item['d'])
    s = ctx['seed'] * 1009 + v.h % 9973
    C = v.conc(['plain', 'ws'][s % 2], s)
    b = encode(v.file, C, Style())
    path = os.path.join(ctx['dir'], 'in-%d.msh' % v.h)
    hp = hx(path.encode())
    for chunk, once in ((1, 0), (7, 0), (4096, 0), (1, 1), (16, 1)):
        step = 1 if ctx['tier'] == THOROUGH or len(b) < 900 else 2
        ks = list(range((s + chunk) % step, len(b), step))
        for lo in range(0, len(ks), 100):
            part = ks[lo:lo + 100]
            lines = ['bytes f ' + hx(b), 'fload f b %d %d 0' % (len(b) + 1, chunk)] + ['fload f b %d %d %d' % (k, chunk, once) for k in part]

            def judge(r, part=part):
                if r[1] != 'ok':
                    return None
                for k, q in zip(part, r[2:]):
                    if not q.startswith('ex '):
                        return 'reading failed at byte %d of %d: %s' % (k, len(b), q)
            yield Case(lines, judge, 'input that fails%s, chunks of %d' % (' once' if once else '', chunk), v.ext, vec=v.short())
    bad = [os.path.join(ctx['dir'], 'missing.msh'), ctx['dir'], '', os.path.join(ctx['dir'], 'no', 'x.msh')]
    lines = ['bytes f ' + hx(b), 'load f a', 'spill f ' + hp, 'loadf %s b' % hp, 'eqs a b', 'unlink ' + hp] + ['loadf %s b' % hx(x.encode()) for x in bad] + ['loadf %s b' % hp]

    def judge2(r):
        if r[1] == 'ok' and (r[3] != 'ok' or r[4] != 'same'):
            return 'loading a file: %s, %s' % (r[3], r[4])
        for x, q in zip(bad + [path], r[6:]):
            if not q.startswith('ex '):
                return 'loading %r: %s' % (x, q)
    yield Case(lines, judge2, 'unreadable places', v.ext, vec=v.short())


# ---------------------------------------------------------------------------
# C15: interleavings, histories, forms of the same call.

def par_items(part, path, ctx):
    """Several orders of one pair per case."""
    clients, g = {}, {}
    for line in vec_items(path):
        d = json.loads(json.loads(line))
        if 'clients' in d:
            clients[d['pair']] = d['clients']
        else:
            g.setdefault(d['pair'], []).append(d['order'])
    res = []
    for k, orders in sorted(g.items()):
        orders.sort()
        random.Random(ctx['seed']).shuffle(orders)
        n = 120 if ctx['tier'] == QUICK else len(orders)
        for i in range(0, min(n, len(orders)), 40):
            res.append((clients[k], orders[i:min(i + 40, n)]))
    return res


def slots(order, c):
    return sum(1 for x in order if x == c)


def c15par(ctx, item):
    clients, orders = item
    ext = clients[0]['ext']
    for flavour in ('asan',) if ext else ('asan', 'tsan'):
        C = Conc('hard', ctx['seed'], False, False, 'odd')
        T, E = set(), set()
        for c in clients:
            collect_ordinals(c['spec'], T, E)
            collect_tokens(c['file'] or [], T, E)
        C.fit(T, E)
        lines, ref = [], []
        files = []
        for i, c in enumerate(clients):
            if c['op'] == 'save':
                lines.append(set_line('s%d' % i, conc_spec(c['spec'], C)))
                files.append(None)
            else:
                b = encode(c['file'] or [], C, Style())
                files.append(b)
                lines.append('bytes s%d %s' % (i, hx(b)))
        # alone first
        for i, c in enumerate(clients):
            lines.append(('save s%d r%d' if c['op'] == 'save' else 'load s%d r%d') % (i, i))
            lines.append(('getb r%d' if c['op'] == 'save' else 'get r%d') % i)
        head = len(lines)
        todo = orders if flavour == 'asan' else orders[::4] + [None] * 4
        for order in todo:
            if order is None:      # each at its own pace
                lines.append('par - 1000000 %d %s' % (len(clients), ' '.join('%s s%d p%d' % (c['op'], i, i) for i, c in enumerate(clients))))
                for i, c in enumerate(clients):
                    lines.append(('getb p%d' if c['op'] == 'save' else 'get p%d') % i)
                continue
            order = [x - 1 for x in order]
            # from a few bytes per turn up to a section per turn
            h = zlib.crc32(repr(order).encode()) + ctx['seed']
            n = max(1, min(slots(order, 0), slots(order, 1)))
            size = max([len(b) for b in files if b is not None] + [400])
            chunk = [3, 7, 13, 29, max(1, size // n)][h % 5]
            lines.append('par %s %d %d %s' % (','.join(map(str, order)), chunk, len(clients),
                                             ' '.join('%s s%d p%d' % (c['op'], i, i) for i, c in enumerate(clients))))
            for i, c in enumerate(clients):
                lines.append(('getb p%d' if c['op'] == 'save' else 'get p%d') % i)
        nc = len(clients)

        def judge(r, head=head, todo=todo, flavour=flavour):
            alone = [(r[nc + 2 * i], r[nc + 2 * i + 1]) for i in range(nc)]
            if any(dead(x) for a in alone for x in a):
                return None
            at = head
            for order in todo:
                if dead(r[at]):
                    return 'in parallel, order %s: %s' % (order, r[at])
                res = r[at].split()[1:]
                for i, c in enumerate(clients):
                    mine = res[i].replace('_', ' ')
                    if mine.startswith('ok'):
                        mine = 'ok'
                    if mine != alone[i][0]:
                        return 'in parallel, order %s: client %d %s, alone %s' % (order, i, mine, alone[i][0])
                    if mine == 'ok' and r[at + 1 + i] != alone[i][1]:
                        return 'in parallel, order %s: client %d obtains something else' % (order, i)
                at += 1 + nc
        yield Case(lines, judge, 'two clients, %s' % flavour, ext, flavour=flavour)
        if flavour == 'tsan' or orders[0] != min(orders):
            continue
        # One call within the other, at every point of it, in both roles.
        lines = lines[:head]
        want = []
        for i, k in ((0, 1), (1, 0)):
            for chunk in (1, 5, 17, 64):
                a, b = clients[i], clients[k]
                lines.append('nest %d %s s%d p%d %s s%d q%d' % (chunk, a['op'], i, i, b['op'], k, k))
                lines.append(('getb p%d' if a['op'] == 'save' else 'get p%d') % i)
                lines.append(('getb q%d' if b['op'] == 'save' else 'get q%d') % k)
                want.append((i, k))

        def judge2(r, head=head, want=want):
            alone = [(r[nc + 2 * i], r[nc + 2 * i + 1]) for i in range(nc)]
            if any(dead(x) for a in alone for x in a):
                return None
            for j, (i, k) in enumerate(want):
                q = r[head + 3 * j:head + 3 * j + 3]
                if dead(q[0]):
                    return 'client %d within client %d: %s' % (k, i, q[0])
                w = q[0].split()
                for c, res, content in ((i, w[1], q[1]), (k, w[2], q[2])):
                    res = res.replace('_', ' ')
                    if res == 'none':
                        continue
                    if res != alone[c][0]:
                        return 'client %d within client %d: client %d: %s, alone %s' % (k, i, c, res, alone[c][0])
                    if res == 'ok' and content != alone[c][1]:
                        return 'client %d within client %d: client %d obtains something else' % (k, i, c)
                if w[3] != '0':
                    return 'client %d within client %d: its result changes' % (k, i)
        yield Case(lines, judge2, 'one call within the other', ext)


ALPHA = {}


def call_lines(i, c, C):
    """Lines of call number i of the alphabet; the last lines report its result.
    Whatever the call, its argument is the same object."""
    if c['op'] == 'load':
        return ['bytes f %s' % hx(encode(c['file'] or [], C, Style())), 'load f r', 'get r']
    if c['op'] == 'save':
        return [set_line('d', conc_spec(c['spec'], C)), 'save d b', 'getb b']
    return [set_line('d', conc_spec(c['spec'], C)), 'val d', 'get d']


def call_items(part, path, ctx):
    alpha, hist = {}, []
    for line in vec_items(path):
        d = json.loads(json.loads(line))
        if 'hist' in d:
            hist.append(d['hist'])
        else:
            alpha[d['id']] = d
    C = Conc('hard', ctx['seed'], False, False, 'plain')
    T, E = set(), set()
    for d in alpha.values():
        collect_ordinals(d['call']['spec'], T, E)
        collect_tokens(d['call']['file'] or [], T, E)
    C.fit(T, E)
    # each call in a process of its own
    exe = ctx['exes'][('asan', False)]
    ref, lines = {}, {}
    for i, d in sorted(alpha.items()):
        lines[i] = call_lines(i, d['call'], C)
        r = execute(exe, [Case(lines[i], None)], ctx['work'], 'ref')[0]
        ref[i] = [normal(d['call'], x) for x in r[1:]]
    # every call right after every other, unless there are too many
    n = 6000 if ctx['tier'] == QUICK else 100000
    if len(hist) > n:
        hist = random.Random(ctx['seed']).sample(hist, n)
    return [(h, [lines[i] for i in h], [ref[i] for i in h]) for h in hist]


def normal(call, x):
    return x


def c15calls(ctx, item):
    h, lines, ref = item
    def judge(r):
        for n, (i, want) in enumerate(zip(h, ref)):
            got = r[3 * n + 1:3 * n + 3]
            if any(dead(x) for x in want):
                return None
            if want[0] != 'ok':
                want, got = want[:1], got[:1]
            if got != want:
                return 'call %d after calls %s: %s; in a fresh process: %s' % (i, h[:n], got[0][:100], want[0][:100]) + (
                    '' if got[0] != want[0] else ' (different content)')
    yield Case([x for l in lines for x in l], judge, 'history %s' % h)


def c15forms(ctx, line):
    """Stream or file, in chunks or at once, twice: the same."""
    v = Vec(line)
    if v.out != 'ok' or len(v.trail) != 1:
        return
    s = ctx['seed'] * 1009 + v.h % 9973
    C = v.conc(['hard', 'ws', 'plain'][s % 3], s, True, False, 'odd')
    o = conc_spec(v.orig, C)
    o['fmt'] = fmt_of(v.trail[0])
    p = hx(os.path.join(ctx['dir'], 'form-%d.msh' % v.h).encode())
    lines = [set_line('a', o), 'save a f', 'save a g', 'eqb f g', 'get a',
             'savef a ' + p, 'slurp %s h' % p, 'eqb f h', 'load f x', 'get x', 'load f y', 'get y',
             'loadf %s z' % p, 'get z', 'chload f u 1', 'get u', 'chload f w %d' % (2 + s % 60), 'get w', 'val x', 'get x', 'val x', 'unlink ' + p]
    # what the file held before, and what lies before the file, do not matter
    junk = hx(b'$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n1\n1 0 0 0\n' * (1 + s % 3))
    m = len(lines)
    lines += ['bytes j ' + hx(bytes(range(256)) * (1 + s % 40)), 'spill j ' + p, 'savef a ' + p, 'slurp %s i' % p, 'eqb f i', 'unlink ' + p,
              'osave a k ' + junk, 'eqb f k', 'oload f t ' + junk, 'get t']
    # calls that end early leave no file open, and a file is read anew each time
    n, q = len(lines), hx(os.path.join(ctx['dir'], 'cut-%d.msh' % v.h).encode())
    bad = b'$MeshFormat\n%s 0 8\n$EndMeshFormat\n$Nodes\n1' % o['fmt']['ver'].encode()
    nowhere = hx(os.path.join(ctx['dir'], 'no', 'such.msh').encode())
    lines += ['bytes j ' + hx(bad), 'spill j ' + q, 'few 3', set_line('e', dict(o, fmt=dict(o['fmt'], ver='3.0')))]
    again = ['loadf %s r' % q, 'savef e ' + nowhere, 'savef e ' + q, 'spill j ' + q] * 4
    lines += again + ['spill f ' + q, 'loadf %s r' % q, 'get r', 'savef a ' + q, 'slurp %s k' % q, 'eqb f k', 'few 0', 'unlink ' + q]
    # the same name, another file
    o2 = dict(o, phys=o['phys'] + [{'dim': 1, 'tag': 77, 'name': b'another'}])
    o1 = dict(o, phys=o['phys'] + [{'dim': 1, 'tag': 77, 'name': b'thefirst'[1:]}])      # of the same size
    lines += [set_line('a', o1), 'savef a ' + p, 'loadf %s r' % p]
    m3 = len(lines)
    lines += ['spill f ' + p, 'savef a ' + p, 'loadf %s r' % p, set_line('a', o2), 'save a f2', 'load f2 y', 'get y', 'spill f2 ' + p, 'loadf %s r' % p, 'get r',
              'savef a ' + p, 'slurp %s k' % p, 'eqb f2 k', 'unlink ' + p]
    m2 = n + 4 + len(again)
    # by the name of something that is no regular file
    m4 = len(lines)
    lines += ['psavef a k', 'eqb f2 k', 'ploadf f2 r', 'get r']

    def judge(r):
        if r[1] != 'ok':
            return None
        if r[2] != 'ok' or r[3] != 'same':
            return 'saved twice: %s, bytes %s' % (r[2], r[3])
        x = want_spec(r[4], o, what='after saving')
        if x:
            return 'saving altered the description: ' + x
        if r[5] != 'ok' or r[7] != 'same':
            return 'saved to a file: %s, bytes %s' % (r[5], r[7])
        if r[8] != 'ok':
            return None
        for what, k in (('loaded again', 10), ('loaded from a file', 12), ('loaded byte by byte', 14), ('loaded in chunks', 16)):
            if r[k] != 'ok' or r[k + 1] != r[9]:
                return '%s: %s%s' % (what, r[k], '' if r[k + 1] == r[9] else ', result differs')
        if r[19] != r[9]:
            return 'validating altered the description'
        if r[18] != r[20]:
            return 'validated twice: %s, then %s' % (r[18], r[20])
        if r[m + 2] != 'ok' or r[m + 4] != 'same':
            return 'saved over another file: %s, bytes %s' % (r[m + 2], r[m + 4])
        if r[m + 6] != 'ok' or r[m + 7] != 'same':
            return 'saved to a stream with something in it: %s, bytes %s' % (r[m + 6], r[m + 7])
        if r[m + 8] != 'ok' or r[m + 9] != r[9]:
            return 'loaded from the middle of a stream: %s%s' % (r[m + 8], '' if r[m + 9] == r[9] else ', result differs')
        if r[m2 + 1] != 'ok' or r[m2 + 2] != r[9]:
            return 'loaded from a file after calls that ended early: %s%s' % (r[m2 + 1], '' if r[m2 + 2] == r[9] else ', result differs')
        if r[m2 + 3] != 'ok' or r[m2 + 5] != 'same':
            return 'saved to a file after calls that ended early: %s, bytes %s' % (r[m2 + 3], r[m2 + 5])
        for i in (m3 - 2, m3 - 1, m3 + 1, m3 + 2):
            if dead(r[i]):
                return 'saved and loaded under the same name: ' + r[i]
        if r[m3 + 4] != 'ok' or r[m3 + 5] != 'ok':
            return None
        if r[m3 + 8] != 'ok' or r[m3 + 9] != r[m3 + 6]:
            return 'loaded from a file that was replaced: %s%s' % (r[m3 + 8], '' if r[m3 + 9] == r[m3 + 6] else ', result differs')
        if r[m3 + 10] != 'ok' or r[m3 + 12] != 'same':
            return 'the object saved again after a change: %s, bytes %s' % (r[m3 + 10], r[m3 + 12])
        if r[m4] != 'ok' or r[m4 + 1] != 'same':
            return 'saved to a pipe by its name: %s, bytes %s' % (r[m4], r[m4 + 1])
        if r[m4 + 2] != 'ok' or r[m4 + 3] != r[m3 + 6]:
            return 'loaded from a pipe by its name: %s%s' % (r[m4 + 2], '' if r[m4 + 3] == r[m3 + 6] else ', result differs')
    yield Case(lines, judge, 'forms %s %s' % (v.trail[0], C.name), v.ext, vec=v.short())


FRONTS = [b'', b'\xef\xbb\xbf', b'\xef\xbb\xbf\n', b'\n \r\n', b'\xff\xfe', b'# written by\n', b'\0', b'\x1f\x8b', b'$', b'\x04\x1a\n']
BACKS = [b'', b'\n', b'\0', b'\x1a', b'\r\n\r\n', b'# end', b'\xff']


def c15raw(ctx, line):
    """The same bytes, whatever they are, as a file, a stream, a pipe."""
    v = Vec(line)
    if v.kind != 'file':
        return
    s = ctx['seed'] * 1009 + v.h % 9973
    C = v.conc(['hard', 'ws', 'plain'][s % 3], s, False, False, 'odd')
    whole = encode(v.file, C, Style())
    for k in range(3):
        front, back = (FRONTS[(s + 3 * k) % len(FRONTS)], BACKS[(s // 7 + k) % len(BACKS)]) if k else (b'', b'')
        b = front + whole + back
        if k == 2:
            b = b[:len(front) + (s * 7919) % (len(whole) + 1)] + back
        p = hx(os.path.join(ctx['dir'], 'raw-%d.msh' % v.h).encode())
        lines = ['bytes f ' + hx(b), 'load f a', 'get a', 'spill f ' + p, 'loadf %s b' % p, 'get b', 'ploadf f c', 'get c',
                 'chload f d %d' % (1 + s % 37), 'get d', 'oload f e ' + hx(b'$MeshFormat\n9.9 1'), 'get e', 'unlink ' + p]

        def judge(r):
            if any(dead(x) for x in r[1:3]):
                return None
            for what, n in (('by name', 4), ('from a pipe by name', 6), ('in chunks', 8), ('from the middle of a stream', 10)):
                if r[n] != r[1]:
                    return 'loaded %s: %s; as a stream: %s' % (what, r[n], r[1])
                if r[1] == 'ok' and r[n + 1] != r[2]:
                    return 'loaded %s: the result differs' % what
        yield Case(lines, judge, 'forms of %s' % v.label, v.ext, vec=v.short())
