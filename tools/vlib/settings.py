"""C20: locales and stream settings."""
import json, os, random, zlib

from .cases import *
from .codec import Conc, Style, collect_ordinals, collect_tokens, conc_spec, encode
from .run import Case, dead

KINDS = ['classic', 'comma', 'ones', 'space', 'native', 'cnative']
ENVS = KINDS + ['native', 'cnative']


def words(g):
    return '%s %d %d %s %s' % ('+'.join(g['flags']) or '-', g['prec'], g['width'], hx(g['fill'].encode()), g['loc'])


def any_settings(rnd):
    """Random settings of a stream."""
    fl = [f for f in ('hex', 'oct', 'showbase', 'showpos', 'showpoint', 'uppercase', 'boolalpha', 'scientific', 'fixed', 'left', 'right', 'internal',
                      'unitbuf', 'noskipws') if rnd.random() < .2]
    return {'flags': fl, 'prec': rnd.choice([0, 1, 2, 5, 6, 6, 17, 30, 400]), 'width': rnd.choice([0, 0, 1, 3, 8, 30]),
            'fill': rnd.choice([' ', '0', '*', '-', '\n']), 'loc': rnd.choice(KINDS[:-1])}


def any_env(rnd, n=6):
    return [rnd.choice(ENVS) for _ in range(rnd.randint(1, n))] if rnd.random() < .5 else [rnd.choice(ENVS)]


def settings_items(part, path, ctx):
    calls, ways = {}, {}
    for line in vec_items(path):
        d = json.loads(json.loads(line))
        if 'op' in d:
            calls[d['which']] = d
        else:
            ways.setdefault(d['which'], []).append(d)
    res = []
    for k, q in sorted(ways.items()):
        q.sort(key=lambda d: json.dumps(d, sort_keys=True))
        random.Random(ctx['seed']).shuffle(q)
        for i in range(0, len(q), 40):
            res.append((calls[k], q[i:i + 40]))
    return res


def same(what, ref, got, content=True):
    """ref, got: [outcome, content]"""
    if dead(got[0]):
        return '%s: %s' % (what, got[0])
    if got[0] != ref[0]:
        return '%s: %s, plainly: %s' % (what, got[0], ref[0])
    if content and ref[0] == 'ok' and got[1] != ref[1]:
        return '%s: another result' % what


def settled(what, ref, line, content):
    if dead(line):
        return '%s: %s' % (what, line)
    out, kept = line.rsplit(' ', 1)
    x = same(what, ref, [out, content])
    if not x and kept != 'kept':
        return '%s: the call leaves the stream with other settings (%s)' % (what, kept)
    return x


def c20calls(ctx, item):
    call, ways = item
    h = zlib.crc32(json.dumps([call['which'], ways[0]], sort_keys=True).encode()) + ctx['seed']
    C = Conc(['hard', 'plain', 'ws'][h % 3], h, False, False, 'odd')
    T, E = set(), set()
    collect_ordinals(call['spec'], T, E)
    collect_tokens(call['file'] or [], T, E)
    C.fit(T, E)
    save = call['op'] == 'save'
    p = hx(os.path.join(ctx['dir'], 'set-%d.msh' % h).encode())
    if save:
        lines = [set_line('a', conc_spec(call['spec'], C)), 'save a b', 'getb b']
        size = 400
    else:
        b = encode(call['file'] or [], C, Style())
        size = len(b)
        lines = ['bytes b ' + hx(b), 'load b a', 'get a']
    at = []
    for i, w in enumerate(ways):
        lines.append('glob ' + w['envs'][0])
        at.append((len(lines), w))
        if w['form'] == 'file' and save:
            lines += ['savef a ' + p, 'slurp %s c' % p, 'getb c', 'save a d', 'getb d']
        elif w['form'] == 'file':
            lines += ['spill b ' + p, 'loadf %s c' % p, 'get c', 'load b d', 'get d']
        else:
            chunk = [3, 11, max(1, size // len(w['envs']))][(h + i) % 3]
            lines += ['ssave a c %s %s %d' % (words(w['given']), ','.join(w['envs']), chunk), 'getb c'] if save else [
                'sload b c %s %s %d' % (words(w['given']), ','.join(w['envs']), chunk), 'get c']
    if any(w['form'] == 'file' for w in ways):
        lines.append('unlink ' + p)

    def judge(r):
        ref = r[1:3]
        if any(dead(x) for x in ref):
            return None
        for k, w in at:
            what = 'global locale %s, %s' % (w['envs'], 'file' if w['form'] == 'file' else w['given'])
            if w['form'] == 'file':
                x = same(what, ref, [r[k], r[k + 2]] if save else r[k + 1:k + 3]) or same(what + ' as a stream', ref, r[k + 3:k + 5])
            else:
                x = settled(what, ref, r[k], r[k + 1])
            if x:
                return call['op'] + ' with ' + x
    yield Case(lines, judge, 'settings, %s' % call['op'], call['ext'], vec={'call': call['which'], 'ways': ways[:3]})


def c20(ctx, line):
    """Any vector, with settings at random."""
    v = Vec(line)
    if len(v.trail) > 1:
        return
    s = ctx['seed'] * 1009 + v.h % 9973
    rnd = random.Random(s)
    C = v.conc(['hard', 'ws', 'plain'][s % 3], s, True, False, 'odd')
    lines = []
    if v.kind == 'save':
        o = conc_spec(v.orig, C)
        o['fmt'] = fmt_of(v.trail[0])
        lines += [set_line('a', o), 'save a f', 'getb f']
    else:
        lines += ['bytes f ' + hx(encode(v.file, C, Style())), 'load f x', 'get x']
    ways = []
    for _ in range(2 if ctx['tier'] == QUICK else 8):
        g, e, n = any_settings(rnd), any_env(rnd), rnd.choice([1, 5, 31, 100000])
        lines.append('glob ' + e[0])
        ways.append((len(lines), 'ssave', g, e))
        if v.kind == 'save':
            lines += ['ssave a g %s %s %d' % (words(g), ','.join(e), n), 'getb g']
            ways.append((len(lines), 'sload', g, e))
        lines += ['sload f y %s %s %d' % (words(g), ','.join(e), n), 'get y', 'val y safe', 'npe 99']
    base = len(lines)
    lines += ['glob classic', 'load f z', 'get z', 'val z safe']

    def judge(r):
        if any(dead(x) for x in r[1:3]) or any(dead(x) for x in r[base:]):
            return None
        for k, op, g, e in ways:
            if v.kind == 'file':
                op = 'sload'
            what = '%s with global locale %s, %s' % (op[1:], e, g)
            ref = r[1:3] if op == 'ssave' or v.kind == 'file' else r[base + 1:base + 3]
            x = settled(what, ref, r[k], r[k + 1])
            if x:
                return x
            if op == 'sload' and r[k].startswith('ok') and r[k + 2] != r[base + 3]:
                return 'validated with global locale %s: %s, plainly: %s' % (e, r[k + 2], r[base + 3])
            if op == 'sload' and r[k + 3] != 'ex UnsupportedFeature':
                return 'nodes_per_element with global locale %s: %s' % (e, r[k + 3])
    yield Case(lines, judge, 'settings %s' % (v.trail or v.label), v.ext, vec=v.short())
