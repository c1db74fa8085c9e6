"""C19: the Python module, compiled against a stand-in for nanobind."""
import json, os, random, shutil, struct, subprocess, sys, tempfile, zlib

from . import build
from .cases import *
from .codec import Conc, Style, conc_spec, encode
from .run import Case, dead, execute

TABLE = {}
DEFAULT = {('MeshFormat', 'version'): ' ' + b'4.1'.hex(), ('MeshFormat', 'data_size'): ' 8'}


def scalar(kind, rnd):
    if kind == 'int':
        return ' %d' % rnd.choice([rnd.randint(-2 ** 31, 2 ** 31 - 1), rnd.randint(2, 99), -rnd.randint(1, 99)])
    if kind == 'size':
        return ' %d' % rnd.choice([rnd.randint(0, 2 ** 64 - 1), rnd.randint(1, 99), rnd.randint(2 ** 31, 2 ** 33)])
    if kind == 'real':
        return ' %x' % rnd.choice([struct.unpack('<Q', struct.pack('<d', rnd.uniform(-9, 9)))[0], rnd.randint(1, 0x7fefffffffffffff)])
    return ' ' + hx(bytes(rnd.choice(b'abc "\\\n\xc3\xa4$') for _ in range(rnd.randint(1, 6))))


def text(f, rnd):
    """A value of a field, as text."""
    kind = f[1]
    if kind in ('int', 'size', 'real', 'str'):
        return scalar(kind, rnd)
    if kind == 'class':
        return ''.join(text(g, rnd) for g in TABLE['classes'][f[2]])
    n = rnd.randint(1, 3)
    if kind == 'list':
        return ' %d' % n + ''.join(text(g, rnd) for _ in range(n) for g in TABLE['classes'][f[2]])
    return ' %d' % n + ''.join(scalar(kind[:-1], rnd) for _ in range(n))


def default(c, f):
    if (c, f[0]) in DEFAULT:
        return DEFAULT[(c, f[0])]
    return {'int': ' 0', 'size': ' 0', 'real': ' 0', 'str': ' -'}.get(f[1], ' 0')


def field_of(c, path):
    f = next(g for g in TABLE['classes'][c] if g[0] == path[0])
    if len(path) == 1:
        return c, f
    return field_of(f[2], path[1:])


def value(c, path, v, seed):
    cc, f = field_of(c, path)
    if v == 0:
        return default(cc, f)
    return text(f, random.Random('%s/%s/%s/%d' % (c, path, v, seed)))


def package(ctx):
    """The package re-exports the module; the module exports every class and function."""
    exe = ctx['exes'][('py', False)]
    r = execute(exe, [Case(['names'], None)], ctx['work'], 'names')[0][0]
    if dead(r):
        return 'loading the module: ' + r
    mod, names = r.split()[1], set(r.split()[2:])
    need = set(TABLE['classes']) | set(TABLE['functions'])
    if need - names:
        return 'not in the module: %s' % ', '.join(sorted(need - names))
    d = tempfile.mkdtemp(prefix='pkg-', dir=ctx['work'])
    shutil.copytree(os.path.join(build.REPO, 'python', 'mshio'), os.path.join(d, 'mshio'))
    with open(os.path.join(d, 'mshio', mod + '.py'), 'w') as f:
        f.write(''.join('%s = "%s"\n' % (n, n) for n in sorted(names)))
    q = subprocess.run([sys.executable, '-B', '-c', 'import mshio\nfor n in %r:\n    assert getattr(mshio, n, None) == n, n' % sorted(need)],
                       cwd=d, env={'PATH': os.environ.get('PATH', '')}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if q.returncode:
        return 'import mshio: ' + q.stdout.strip().split('\n')[-1][:200]


def object_items(part, path, ctx):
    res = []
    for line in vec_items(path):
        d = json.loads(json.loads(line))
        if 'classes' in d:
            TABLE.update(d)
        else:
            res.append(d)
    res.append({'pkg': package(ctx)})
    n = 40000
    if len(res) > n:
        res = random.Random(ctx['seed']).sample(res[:-1], n) + res[-1:]
    return [dict(d, table=dict(TABLE)) for d in res] if ctx['tier'] == QUICK else [dict(d) for d in res]


def c19objects(ctx, d):
    if 'pkg' in d:
        yield Case(['names'], lambda r: d['pkg'], 'the module and the package', flavour='py')
        return
    if 'table' in d:
        TABLE.update(d['table'])
    c, seed = d['cls'], ctx['seed']
    lines = ['new %s o' % c]
    for i, s in enumerate(d['hist']):
        if s['by'] == 'passign':
            m, mc = s['path']
            lines.append('new %s x' % mc)
            for f in TABLE['classes'][mc]:
                lines.append('nset x %s%s' % (f[0], value(c, [m, f[0]], i + 1, seed)))
            lines.append('passign o %s x' % m)
        else:
            lines.append('%s o %s%s' % (s['by'], '.'.join(s['path']), value(c, s['path'], i + 1, seed)))
    head = len(lines)
    want = []
    for p, v in sorted(d['val']):
        x = 'value' + value(c, p, v, seed)
        for side in ('pget', 'nget'):
            lines.append('%s o %s' % (side, '.'.join(p)))
            want.append((len(lines) - 1, side, '.'.join(p), x))
    asked = []
    for m, ans in d['answers']:
        lines += ['new %s fresh' % c, '%s fresh' % m, '%s o' % m]
        asked.append((len(lines) - 1, m, 'value 1' if ans else 'value 0'))
    lines.append('repr o')

    def judge(r):
        for x in r[:head]:
            if x != 'ok':
                return '%s: %s' % (c, x)
        for k, m, x in asked:
            if r[k - 1] != 'value 1' or r[k] != x:
                return '%s.%s() answers %s for a fresh object, %s instead of %s for this one' % (c, m, r[k - 1], r[k][:80], x)
        for k, side, p, x in want:
            if r[k] != x:
                return '%s.%s %s is %s instead of %s' % (c, p, 'read from Python' if side == 'pget' else 'in C++', r[k][:80], x[:80])
        if r[-1] != 'ok':
            return '%s.__repr__: %s' % (c, r[-1])
    yield Case(lines, judge, 'object %s, %s' % (c, [(s['by'], s['path']) for s in d['hist']]), flavour='py', vec={k: d[k] for k in ('cls', 'hist', 'val', 'answers')})


def vec_groups(part, path, ctx):
    """Vectors in groups, so that the executor for C++ need not be started for each."""
    lines = vec_items(path)
    return [lines[i:i + 40] for i in range(0, len(lines), 40)]


def c19calls(ctx, lines):
    """Module functions do what the library's do."""
    todo = [x for x in (c19call(ctx, line) for line in lines) if x]
    # what C++ does, in the other executable
    direct = execute(ctx['exes'][('asan', False)], [Case(ref, None) for ref, _ in todo], ctx['dir'], 'ref')
    for (_, make), d in zip(todo, direct):
        if d is not None and not any(dead(x) for x in d):
            yield make(d)


def c19call(ctx, line):
    v = Vec(line)
    if v.kind == 'save' and len(v.trail) != 1:
        return
    s = ctx['seed'] * 1009 + v.h % 9973
    C = v.conc(['hard', 'plain', 'ws'][s % 3], s, False, False, 'odd')
    p = hx(os.path.join(ctx['dir'], 'py-%d.msh' % v.h).encode())
    q = hx(os.path.join(ctx['dir'], 'cpp-%d.msh' % v.h).encode())
    t = (s % 45) - 6
    lines = []
    if v.kind == 'save':
        o = conc_spec(v.orig, C)
        o['fmt'] = fmt_of(v.trail[0])
        lines += [set_line('a', o), 'save a ' + p, 'slurp ' + p, 'get a']
        ref = [set_line('a', o), 'savef a ' + p, 'slurp %s b' % p, 'getb b', 'loadf %s r' % p, 'get r', 'val r safe']
    else:
        b = encode(v.file, C, Style())
        lines += ['spill %s %s' % (hx(b), p)]
        ref = ['bytes b ' + hx(b), 'spill b ' + p, 'loadf %s r' % p, 'get r', 'val r safe']
    k = len(lines)
    lines += ['load %s r' % p, 'get r']
    valid = v.modelled() and v.valid and v.out == 'ok'
    if valid:
        lines += ['val r', 'get r', 'repr r']
    j = len(lines)
    lines += ['npe %d' % t, 'dim %d' % t, 'unlink ' + p]
    ref += ['npe %d' % t, 'dim %d' % t, 'unlink ' + p]

    def judge(direct, r):
        for x in r:
            if dead(x):
                return 'called from Python: ' + x
        if v.kind == 'save':
            if r[1] != direct[1]:
                return 'save_msh from Python: %s, from C++: %s' % (r[1], direct[1])
            if r[1] == 'ok' and r[2] != direct[3]:
                return 'save_msh from Python writes another file'
            if r[3] != 'spec ' + flat(o):
                return 'save_msh from Python alters the description'
        at = 4 if v.kind == 'save' else 2
        if r[k] != direct[at]:
            return 'load_msh from Python: %s, from C++: %s' % (r[k], direct[at])
        if r[k + 1] != direct[at + 1]:
            return 'load_msh from Python gives another description'
        if valid:
            if r[k + 2] != direct[at + 2]:
                return 'validate_spec from Python: %s, from C++: %s' % (r[k + 2], direct[at + 2])
            if r[k + 3] != r[k + 1] or r[k + 4] != 'ok':
                return 'validate_spec or repr from Python alters the description'
        for i in (0, 1):
            if r[j + i] != direct[-3 + i]:
                return '%s(%d) from Python: %s, from C++: %s' % (('nodes_per_element', 'get_element_dim')[i], t, r[j + i], direct[-3 + i])
    return ref, lambda d: Case(lines, lambda r: judge(d, r), 'calls from Python, %s' % (v.trail or v.label), flavour='py', vec=v.short())
