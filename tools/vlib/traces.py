"""Records executions of the library on random inputs and has TLC check them against spec/TraceMsh.tla."""
import copy, json, os, random, tempfile, traceback
from concurrent.futures import ThreadPoolExecutor

from . import build, codec, tlc
from .cases import hx, mode_line, set_line
from .codec import Conc, Raw, Style, conc_spec, encode, unflat
from .gen import Gen, Ident, damage, perturbed, unsupported
from .lexer import LexError, lex
from .run import Case, execute, dead
from .settings import any_env, any_settings, words

WIDE = 100000


class Abs:
    """Concrete values -> ordinals and identifiers, one map per session."""

    def __init__(self, specs, files):
        T, E = set(), set()
        for s in specs:
            codec.collect_ordinals(s, T, E)
        for f in files:
            codec.collect_tokens(f, T, E)
        low = sorted(v for v in T if 0 < v < 2 ** 31)
        high = sorted(v for v in T if v >= 2 ** 31)
        self.t = {0: 0}
        self.t.update({v: i + 1 for i, v in enumerate(low)})
        self.t.update({v: WIDE + i for i, v in enumerate(high)})
        pos = sorted(v for v in E if v > 1)
        neg = sorted((v for v in E if v < 0), reverse=True)
        self.e = {0: 0, 1: 1}
        self.e.update({v: i + 2 for i, v in enumerate(pos)})
        self.e.update({v: -1 - i for i, v in enumerate(neg)})
        self.d = {0: 0}
        self.s = {}

    def tag(self, v):
        return self.t[v] if v in self.t else -1000000 - len(self.t)

    def eint(self, v):
        return self.e[v] if v in self.e else -1000000 - len(self.e)

    def dbl(self, b):
        return self.d.setdefault(b, len(self.d))
    rdbl = dbl

    def txt(self, b):
        return self.s.setdefault(b, len(self.s) + 1)

    def spec(self, s):
        s = dict(s)
        s['nsf'] = s['nsf'].decode('latin-1') if isinstance(s['nsf'], bytes) else s['nsf']
        r = conc_spec(s, self)
        r['nsf'] = s['nsf']
        return clamp(r)

    def file(self, ts):
        m = {'t': self.tag, 'e': self.eint, 'd': self.dbl, 'r': self.dbl, 's': self.txt}
        return clamp([[e, k, m[k](v) if k in m else v] for e, k, v in ts])


def clamp(x):
    """TLC's integers have 32 bits; anything bigger is a mistake that must show."""
    if isinstance(x, dict):
        return {k: clamp(v) for k, v in x.items()}
    if isinstance(x, list):
        return [clamp(v) for v in x]
    if isinstance(x, int) and not -2 ** 31 < x < 2 ** 31:
        return -999999
    return x


# ---------------------------------------------------------------------------
# Sessions: {'start': spec or tokens, 'ext', 'ops': [...], 'view', 'cmp', 'control': session or None, 'style'}

class Session:
    def __init__(self, ext=False, spec=None, file=None, raws=(), style=None, ops=(), view='all', cmp=False, control=None, label='', desc='', ended=False, ident=False, exact=False, sets=()):
        self.__dict__.update(locals())
        self.events = None

    def lines(self):
        r = []
        if self.spec is not None:
            r.append(set_line('a', self.spec))
        else:
            r.append('bytes f ' + hx(encode(self.file, Conc('ident') if self.ident else Raw, self.style or Style(), raws=list(self.raws))))
        for i, op in enumerate(self.ops):
            x = self.sets[i] if self.sets else None       # glob, settings, env, chunk
            if x:
                x, r = x[1:], r + ['glob ' + x[0]]
            if op[0] == 'save':
                r += [mode_line('a', op[1]), 'ssave a f %s %s %d' % x if x else 'save a f', 'getb f']
            elif op[0] == 'load':
                r += ['sload f a %s %s %d' % x if x else 'load f a', 'get a']
            elif op[0] == 'val':
                r += ['val a safe']
        return r

    def record(self, res):
        """Events observed, concrete: (op, ...)"""
        ev, at = [], 1
        if self.sets:
            res = [x[:-5] if x.endswith(' kept') else x for x in res]
        for op in self.ops:
            if self.sets:
                at += 1
            if op[0] == 'save':
                ev.append(('save', op[1]))
                q, b = res[at + 1], res[at + 2]
                at += 3
                if dead(q):
                    ev.append(('crash', q))
                    break
                if q != 'ok':
                    ev.append(('refused', q))
                    break
                b = b''if b == 'bytes -' else bytes.fromhex(b[6:])
                if self.cmp:
                    try:
                        ev.append(('saved', lex(b)))
                    except Exception as x:       # whatever the reader trips over
                        ev.append(('unreadable', str(x)))
                        break
                else:
                    ev.append(('saved', None))
            elif op[0] == 'load':
                ev.append(('load',))
                q, g = res[at], res[at + 1]
                at += 2
                if dead(q):
                    ev.append(('crash', q))
                    break
                if self.ended:
                    if dead(g):
                        ev.append(('crash', g))
                    else:
                        ev.append(('ended', q != 'ok'))
                    break
                if q != 'ok':
                    ev.append(('threw', q))
                    break
                ev.append(('loaded', unflat(g[5:])))
            elif op[0] == 'val':
                q = res[at]
                at += 1
                if q == 'skipped':
                    continue
                if self.spec and q.startswith('ex ') and any(not 1 <= b['type'] <= 31 for b in self.spec['elems']['blocks']):
                    q = 'ex CorruptData'
                ev.append(('validated', {'ok': 'valid', 'ex CorruptData': 'CorruptData'}.get(q, q)))
        self.events = ev
        return self

    def abstract(self):
        specs = [e[1] for e in self.events if e[0] == 'loaded'] + ([self.spec] if self.spec is not None else [])
        files = [e[1] for e in self.events if e[0] == 'saved' and e[1]] + ([self.file] if self.file is not None else [])
        A = Abs(specs, [] if self.ident else files)
        ev = []
        for e in self.events:
            if e[0] == 'save':
                ev.append({'op': 'save', 'mode': {'ver': e[1]['ver'], 'bin': e[1]['bin'], 'dsz': 8}})
            elif e[0] == 'saved':
                ev.append({'op': 'saved', 'cmp': e[1] is not None, 'file': A.file(e[1] or [])})
            elif e[0] == 'loaded':
                ev.append({'op': 'loaded', 'view': self.view, 'spec': A.spec(e[1])})
            elif e[0] == 'validated':
                ev.append({'op': 'validated', 'out': e[1]})
            elif e[0] == 'refused':
                ev.append({'op': 'refused'})
            elif e[0] == 'threw':
                ev.append({'op': 'threw', 'ex': e[1][3:] if self.exact else ''})
            elif e[0] == 'ended':
                ev.append({'op': 'ended', 'threw': e[1]})
            elif e[0] == 'load':
                ev.append({'op': 'load'})
            else:
                ev.append({'op': 'crash'})
        r = {'ext': self.ext, 'label': self.label, 'events': ev}
        if self.spec is not None:
            r.update(kind='spec', spec=A.spec(self.spec))
        else:
            r.update(kind='file', file=self.file if self.ident else A.file(self.file))
        return r


def plainly(s, what):
    """The same description with harmless values."""
    A = Abs([s], [])
    a = A.spec(s)
    C = Conc('plain')
    if what == 'strings':
        C.tag = C.eint = C.dbl = C.rdbl = lambda v: v
        t = dict(s)
        t['nsf'] = s['nsf'].decode('latin-1')
        C.txt = lambda b: b'name %d' % A.txt(b)
        return conc_spec(t, C)
    # wide ordinals become big but ordinary numbers
    return conc_spec(a, C)


MODES = [{'ver': v, 'bin': b} for v in ('4.1', '2.2') for b in (0, 1)]


def wide_ok(s, modes):
    return not any(m['bin'] and (m['ver'] == '2.2' or s['nd'] or s['ed'] or s['end']) for m in modes)


def spec_session(pid, rnd, big):
    strings = 'odd' if pid == 'C09' or (pid in ('C01', 'C02', 'C03', 'C18') and rnd.random() < .3) else 'plain'
    if pid == 'C01':
        modes = [rnd.choice(MODES[:2])]
    elif pid == 'C02':
        modes = [rnd.choice(MODES[2:])]
    elif pid == 'C10':
        modes = [rnd.choice([MODES[1], MODES[3]])]
    elif pid == 'C18':
        modes = [rnd.choice(MODES) for _ in range(rnd.randint(2, 6))]
    else:
        modes = [rnd.choice(MODES)]
    allbin = all(m['bin'] for m in modes)
    wide = rnd.random() < .4 and not any(m['bin'] and m['ver'] == '2.2' for m in modes)
    ext = pid == 'C16' or pid == 'C18' and rnd.random() < .5
    G = Gen(rnd, wide=wide, odd=allbin and rnd.random() < .5 and pid in ('C03', 'C10', 'C18', 'C16'), strings=strings, splines=ext,
            own_dims=pid == 'C18' or rnd.random() < .6, big=big)
    s = G.spec()
    if wide and not wide_ok(s, modes):
        s['nd'] = s['ed'] = s['end'] = []
    ops = []
    if pid == 'C13':
        ops.append(('val',))
    for m in modes:
        ops.append(('save', m))
        if pid != 'C03':
            ops.append(('load',))
            if pid in ('C13', 'C02'):
                ops.append(('val',))
    view = {'C01': 'all', 'C02': 'kept22', 'C13': 'nothing', 'C18': 'kept', 'C09': 'kept', 'C10': 'kept22' if modes[0]['ver'] == '2.2' else 'all'}.get(pid, 'kept')
    S = lambda d: Session(ext=ext, spec=d, ops=ops, view=view, cmp=pid == 'C03', desc='%s %s' % (pid, [(m['ver'], m['bin']) for m in modes]))
    x = S(s)
    if pid == 'C09':
        x.control = S(plainly(s, 'strings'))
    elif pid == 'C10':
        x.control = S(plainly(s, 'all'))
    elif pid == 'C16':
        x.control = S(dict(s, curves=[], patches=[]))
    return x


def file_session(pid, rnd, big):
    ver = {'C04': '4.1', 'C05': '2.2', 'C06': '2.2'}.get(pid) or rnd.choice(['4.1', '2.2'])
    b = 0 if pid == 'C07' else rnd.choice([0, 1])
    ext = pid == 'C16' and rnd.random() < .6
    G = Gen(rnd, wide=ver == '4.1' and rnd.random() < .5, odd=bool(b) and rnd.random() < .5, strings='odd' if rnd.random() < .3 and pid != 'C07' else 'plain',
            splines=pid == 'C16', own_dims=True, big=big)
    s = G.spec()
    if b and G.wide:
        pass
    if pid == 'C06':
        G.parts = lambda q, p: [q]
    secs = G.sections(s, ver, b)
    head = G.header(ver, b)
    raws = []
    whole = list(secs)
    view = {'C05': 'noents', 'C06': 'ents'}.get(pid, 'all')
    two = ver == '2.2' and sum(x[0][2] == '$Elements' for x in secs) > 1
    if two and pid != 'C06':
        view = 'noents'
    ops = [('load',)] + ([('val',)] if pid == 'C05' else [])
    if pid == 'C08':
        rnd.shuffle(secs)
        # repeated sections keep their order among themselves
        for name in {x[0][2] for x in secs}:
            places = [i for i, x in enumerate(secs) if x[0][2] == name]
            for i, x in zip(places, [x for x in whole if x[0][2] == name]):
                secs[i] = x
        for _ in range(rnd.randint(0, 4)):
            secs.insert(rnd.randint(0, len(secs)), G.unknown(b, raws))
        for _ in range(rnd.randint(0, 2)):
            secs.insert(rnd.randint(0, len(secs)), [[0, 'x', rnd.randint(0, 3)], [0, 'n', 7]])
    elif pid == 'C16':
        rnd.shuffle(secs)
    style = Style()
    if pid == 'C07':
        for _ in range(rnd.randint(0, 3)):
            secs.insert(rnd.randint(0, len(secs)), [[0, 'x', rnd.randint(0, 3)]] * rnd.choice([1, 2, 500]))
        style = Style(rnd.choice(['lines', 'crlf', 'tabs', 'spaces', 'random', 'random']), rnd.randint(0, 10 ** 6), 'mixed')
    elif not b:
        style = Style('plain', rnd.randint(0, 10 ** 6), rnd.choice(['repr', 'e17', 'E17', 'zeros', 'plus', 'long']))
    flat = lambda q: head + [t for x in q for t in x]
    x = Session(ext=ext, file=flat(secs), raws=raws, style=style, ops=ops, view=view, desc='%s file %s' % (pid, (ver, b)))
    if pid in ('C07', 'C08'):
        x.control = Session(ext=ext, file=flat(whole), ops=ops, view=view)
    elif pid == 'C16':
        x.control = Session(ext=ext, file=flat([q for q in whole if q[0][2] not in ('$Curves', '$Patches', '$NanoSplineFormat')]), ops=ops, view=view)
    return x


def damaged_session(rnd, big):
    """C11: a text file, damaged."""
    ver = rnd.choice(['4.1', '2.2'])
    ext = rnd.random() < .3
    G = Ident(rnd, splines=ext)
    secs = G.sections(G.spec(), ver, 0)
    if rnd.random() < .3:
        rnd.shuffle(secs)
    whole = G.header(ver, 0) + [t for q in secs for t in q]
    ts, what = damage(rnd, whole)
    return Session(ext=ext, file=ts, style=Style(), ops=[('load',)], view='nothing', ended=True, ident=True, desc='C11 text %s, %s' % (ver, what))


def refused_session(rnd, big):
    """C12: a file with an unsupported feature; the same file without it is the control."""
    while True:
        ver, b = rnd.choice(['4.1', '2.2']), rnd.choice([0, 1])
        G = Gen(rnd, wide=ver == '4.1' and rnd.random() < .3, big=big)
        secs = G.sections(G.spec(), ver, b)
        head = G.header(ver, b)
        u = unsupported(rnd, secs, head, ver, b)
        if u is None:
            continue
        bad, h2, what = u
        if what not in ('version', 'size', 'endian') and rnd.random() < .3:
            rnd.shuffle(bad)
        flat = lambda q, h: h + [t for x in q for t in x]
        style = Style('plain', rnd.randint(0, 10 ** 6), 'repr') if b else Style(rnd.choice(['plain', 'crlf', 'random']), rnd.randint(0, 10 ** 6), 'repr')
        x = Session(file=flat(bad, h2), style=style, ops=[('load',)], view='nothing', exact=True, desc='C12 %s in a file %s' % (what, (ver, b)))
        x.control = Session(file=flat(secs, head), style=style, ops=[('load',)], view='nothing')
        return x


def unsaved_session(rnd, big):
    """C12: a description that cannot be saved as asked."""
    while True:
        m = dict(rnd.choice(MODES))
        G = Gen(rnd, wide=rnd.random() < .6, big=big)
        G.tstyle = rnd.choice(['far', 'rand', 'mixed', 'seq'])
        s = G.spec()
        ok = dict(s)
        k = rnd.choice(['version', 'type', 'wide', 'wide', 'wide'])
        if k == 'version':
            m['ver'] = rnd.choice(['', '1', '2', '2.0', '3.0', '4', '4.0', '4.10', '5', '2.2 ', ' 4.1', '4.1x', '22'])
        elif k == 'type':
            if not s['elems']['ne']:
                continue
            s['elems']['blocks'][rnd.randrange(len(s['elems']['blocks']))]['type'] = rnd.choice([0, -1, 32, 92, 1000])
        else:
            m['bin'] = 1
            for q in ('nd', 'ed', 'end'):
                for D in s[q]:
                    for e in D['entries']:
                        if rnd.random() < .1:
                            e['tag'] = rnd.choice([2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1])
        return Session(spec=s, ops=[('save', m)], view='nothing', desc='C12 save %s %s' % (k, m))


def verdict_session(rnd, big):
    """C13: a description with a few inconsistencies."""
    G = Gen(rnd, wide=rnd.random() < .3, own_dims=False, big=big)
    G.count = lambda top=None, what=None, f=G.count: f(top, what) or (1 if rnd.random() < .7 else 0)
    return Session(spec=perturbed(rnd, G.spec()), ops=[('val',)], view='nothing', desc='C13 inconsistent description')


def settings_session(rnd, big):
    """C20: any session, with settings at random."""
    p = rnd.choice(['C18', 'C18', 'C03', 'C09', 'C01', 'C04', 'C05', 'C08', 'C16'])
    side = spec_session if p in SPEC_SIDE and (p not in FILE_SIDE or rnd.random() < .5) else file_session
    x = side(p, rnd, big)
    x.control = copy.copy(x)
    x.sets = []
    for _ in x.ops:
        e = any_env(rnd)
        x.sets.append((e[0], words(any_settings(rnd)), ','.join(e), rnd.choice([1, 13, 100, 1000, 100000])))
    x.desc = 'C20 with settings, ' + x.desc
    return x


def given_files(pid):
    """Files that come with the repository."""
    r = []
    d = os.path.join(build.REPO, 'data')
    if pid not in ('C04', 'C05', 'C06') or not os.path.isdir(d):
        return r
    for f in sorted(os.listdir(d)):
        try:
            with open(os.path.join(d, f), 'rb') as h:
                ts = lex(h.read())
        except (LexError, OSError):
            continue
        if ts[1][2] == ('4.1' if pid == 'C04' else '2.2'):
            r.append(Session(file=ts, ops=[('load',)], view={'C05': 'noents', 'C06': 'ents'}.get(pid, 'all'), desc='data/' + f))
    return r


SPEC_SIDE = ('C01', 'C02', 'C03', 'C09', 'C10', 'C13', 'C16', 'C18')
FILE_SIDE = ('C04', 'C05', 'C06', 'C07', 'C08', 'C16')
PROPS = sorted(set(SPEC_SIDE + FILE_SIDE + ('C11', 'C12', 'C20')))


def make(pid, seed, n, big_every=12):
    r = []
    for i in range(seed, seed + n):
        rnd = random.Random('%s/%d' % (pid, i))
        big = i % big_every == 0
        if pid == 'C11':
            r.append(damaged_session(rnd, big))
            continue
        if pid == 'C12':
            r.append((unsaved_session if i % 3 == 0 else refused_session)(rnd, big))
            continue
        if pid == 'C20':
            r.append(settings_session(rnd, big))
            continue
        if pid == 'C13' and i % 2:
            r.append(verdict_session(rnd, big))
            continue
        side = spec_session if pid in SPEC_SIDE and (pid not in FILE_SIDE or i % 2) else file_session
        r.append(side(pid, rnd, big))
    return r


def check(sessions, work, name):
    """TLC's verdict on recorded sessions: {index: None (accepted) or report}."""
    path = os.path.join(work, name + '.ndjson')
    with open(path, 'w') as f:
        for s in sessions:
            f.write(json.dumps(s.abstract()) + '\n')
    c = {'Clients': '<- TraceClients', 'Starts': '<- NoStarts', 'SaveModes': '<- TraceModes', 'MaxSaves': '= 100', 'FaultKinds': '<- NoStarts',
         'WideTags': '<- TraceWide', 'WithValidate': '= FALSE'}
    r = tlc.run(work, name, tlc.cfg('TraceMsh', c, ['Report', 'TraceInv'], spec='TraceSpec'), module='TraceMsh', env={'MSH_TRACE': path}, workers=1, heap='2g')
    verdict = {}
    rej = {}
    with open(r['out'] or os.devnull) as f:
        for line in f:
            if line.startswith('"{'):
                d = json.loads(json.loads(line))
                if 'accepted' in d:
                    verdict[d['accepted'] - 1] = None
                else:
                    rej[d['rejected'] - 1] = d
    for i, s in enumerate(sessions):
        if i not in verdict:
            verdict[i] = explain(s, rej.get(i))
    os.unlink(path)
    return verdict, r


def explain(s, d):
    if d is None:
        return 'the recorded execution is not one of the specification'
    ev = s.events[d['event'] - 1]
    if ev[0] == 'loaded':
        if d['phase'] != 'idle':
            return 'load accepts what it must refuse'
        a = s.abstract()['events'][d['event'] - 1]['spec']
        return 'loaded description differs from the specification: %s' % codec.diff(d['spec'], a, 'loaded')
    if ev[0] == 'saved':
        if d['phase'] == 'failed':
            return 'save accepts what it must refuse'
        a = s.abstract()['events'][d['event'] - 1]['file']
        return 'saved file differs from the specification: %s' % codec.diff(d['want'], a, 'token')
    if ev[0] == 'ended':
        return 'load accepts what it must refuse'
    if ev[0] in ('threw', 'refused', 'crash', 'unreadable'):
        return '%s: %s' % ({'threw': 'load', 'refused': 'save', 'crash': 'call', 'unreadable': 'saved file'}[ev[0]], ev[1])
    return 'validate_spec says %s' % (ev[1],)


def record(sessions, ctx, work, tag):
    for ext in (False, True):
        q = [s for s in sessions if s.ext == ext]
        if not q:
            continue
        exe = ctx['exes'][('asan', ext)]
        res = execute(exe, [Case(s.lines(), None) for s in q], work, tag)
        for s, r in zip(q, res):
            if r is not None:
                s.record(r)
    return [s for s in sessions if s.events is not None]


def chunk(args):
    pid, ctx, seed, n, idx = args
    try:
        work = tempfile.mkdtemp(prefix='tr%d-' % idx, dir=ctx['work'])
        ss = make(pid, seed, n) + (given_files(pid) if idx == 0 else [])
        ss = record(ss, ctx, work, 'rec')
        verdict, r = check(ss, work, 'trace%d' % idx)
        bad = [ss[i] for i in sorted(verdict) if verdict[i] is not None][:6]
        out = {'sessions': len(ss), 'events': sum(len(s.events) for s in ss), 'states': r['states'], 'transitions': r['transitions'], 'fail': [], 'unconfirmed': 0}
        if bad:
            # again, each in a process of its own, with its control
            again = []
            for s in bad:
                for x in [s] + ([s.control] if s.control else []):
                    x.events = None
                    record([x], ctx, work, 'again')
            ctl = [s.control for s in bad if s.control]
            v2, _ = check(bad + ctl, work, 'again%d' % idx)
            j = len(bad)
            for i, s in enumerate(bad):
                ok = True
                if s.control:
                    ok = v2[j] is None
                    j += 1
                if v2[i] is None or not ok:
                    out['unconfirmed'] += 1
                    continue
                out['fail'].append({'msg': v2[i], 'desc': 'recorded execution, ' + s.desc, 'ext': s.ext, 'flavour': 'asan', 'history': [],
                                    'lines': s.lines(), 'vector': {'session': s.abstract()}})
        return out
    except Exception:
        return {'error': traceback.format_exc()}


def run(pid, ctx):
    """All recorded executions for a property."""
    quick = ctx['tier'] == 'quick'
    per, chunks = (50, 3) if quick else (250, 32)
    jobs = [(pid, ctx, ctx['seed'] * 1000000 + i * per, per, i) for i in range(chunks)]
    tot = {'sessions': 0, 'events': 0, 'states': 0, 'transitions': 0, 'unconfirmed': 0, 'fail': []}
    with ThreadPoolExecutor(3 if quick else 8) as ex:
        for r in ex.map(chunk, jobs):
            if 'error' in r:
                raise RuntimeError(r['error'])
            for k in tot:
                tot[k] += r[k]
    return tot
