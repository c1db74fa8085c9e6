"""Replays cases in the executor, in parallel; attributes crashes and hangs to their case."""
import json, os, random, select, subprocess, tempfile, time, traceback, multiprocessing
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=1048576:'
                       'malloc_fill_byte=190:handle_abort=1:detect_stack_use_after_return=0:detect_container_overflow=1',
       'TSAN_OPTIONS': 'exitcode=97:halt_on_error=1', 'UBSAN_OPTIONS': 'print_stacktrace=1'}


def make_locale(work):
    """A locale of the system with a decimal comma, for the executor alone; False if it cannot be made."""
    d = os.path.join(work, 'locale')
    os.makedirs(d, exist_ok=True)
    try:
        subprocess.run(['localedef', '-i', 'de_DE', '-f', 'UTF-8', os.path.join(d, 'de_DE.UTF-8')], stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=120)
    except (OSError, subprocess.TimeoutExpired):
        return False
    ENV['LOCPATH'] = d
    return os.path.exists(os.path.join(d, 'de_DE.UTF-8', 'LC_NUMERIC'))


class Known(str):
    """A judgement that matches a recorded finding (its ids), not a violation."""


class Case:
    """lines: what the executor does; judge(results): None or what is wrong."""
    __slots__ = ('lines', 'judge', 'desc', 'ext', 'flavour', 'vec')

    def __init__(self, lines, judge, desc='', ext=False, flavour='asan', vec=None):
        self.lines, self.judge, self.desc, self.ext, self.flavour, self.vec = lines, judge, desc, bool(ext), flavour, vec


def watch(cmd, env, err, work, fout, patience=240):
    """Runs the executor; None if it had to be ended because nothing came from it for long (its own alarm did not help)."""
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=err, cwd=work)
    size, since = -1, time.monotonic()
    fd = os.pidfd_open(p.pid)
    try:
        while not select.select([fd], [], [], 10)[0]:
            now = os.path.getsize(fout) if os.path.exists(fout) else 0
            if now != size:
                size, since = now, time.monotonic()
            elif time.monotonic() - since > patience:
                p.kill()
                p.wait()
                return None
        return p.wait()
    finally:
        os.close(fd)


def execute(exe, cases, work, tag, alarm=10, maxdead=50):
    """Results per case: list of lines; a crash or hang shows as a line 'crash ...' / 'hang'.
    None for cases that were not run because too many before them died."""
    res = [None] * len(cases)
    start = 0
    ndead = 0
    while start < len(cases) and ndead < maxdead:
        fin = os.path.join(work, tag + '.in')
        fout = os.path.join(work, tag + '.out')
        with open(fin, 'w') as f:
            for i in range(start, len(cases)):
                f.write('case %d\n%s\nend\n' % (i, '\n'.join(cases[i].lines)))
        if os.path.exists(fout):
            os.unlink(fout)
        e = dict(os.environ)
        e.update(ENV)
        with open(os.path.join(work, tag + '.err'), 'w+b') as err:
            code = watch([exe, fin, fout, str(alarm)], e, err, work, fout)
            err.seek(0)
            etext = err.read()[:3000].decode('latin-1')
        cur, at = None, None
        n = start
        if os.path.exists(fout):
            with open(fout, errors='replace') as f:
                for line in f:
                    line = line.rstrip('\n')
                    if line.startswith('case '):
                        at = int(line[5:])
                        cur = []
                    elif line == 'end':
                        res[at] = cur
                        n = at + 1
                        cur = None
                    elif cur is not None:
                        cur.append(line)
        if n >= len(cases):
            break
        if code == 0:
            raise RuntimeError('executor stopped early')
        r_ = cur if cur is not None and at == n else []
        if code is None:
            r_.append('hang')
        elif not r_ or r_[-1] != 'hang':
            why = [l for l in etext.split('\n') if 'ERROR' in l or 'runtime error' in l or 'WARNING: Thread' in l]
            r_.append('crash %d %s' % (code, (why or [''])[0][:300]))
        # pad so that judges can index
        r_ += [r_[-1]] * (len(cases[n].lines) - len(r_))
        res[n] = r_
        start = n + 1
        ndead += 17 if r_[-1] == 'hang' else 1
    return res


def dead(x):
    return x == 'hang' or x.startswith('crash')


def _replay(ctx, case, prefix, work, tag):
    """Runs a case again in a fresh process, by itself or after the cases before it."""
    exe = ctx['exes'][(case.flavour, case.ext)]
    r = execute(exe, prefix + [case], work, tag, alarm=30, maxdead=17 * (1 + len(prefix)))
    return r[-1]


def worker(args):
    fn, ctx, items, wid = args
    try:
        work = tempfile.mkdtemp(prefix='w%d-' % wid, dir=ctx['work'])
        groups = {}
        st = {'cases': 0, 'items': len(items), 'fail': [], 'samples': [], 'stat': {}, 'known': {}}
        ctx = dict(ctx)
        ctx['stat'] = st['stat']
        ctx['dir'] = work
        for it in items:
            for c in fn(ctx, it):
                groups.setdefault((c.flavour, c.ext), []).append(c)
        for key, cases in groups.items():
            for lo in range(0, len(cases), 2000):
                part = cases[lo:lo + 2000]
                res = execute(ctx['exes'][key], part, work, 'batch')
                st['cases'] += sum(r is not None for r in res)
                for i, (c, r) in enumerate(zip(part, res)):
                    if r is None:
                        continue
                    msg = c.judge(r)
                    if msg is None:
                        continue
                    if isinstance(msg, Known):
                        for k in msg.split():
                            st['known'][k] = st['known'].get(k, 0) + 1
                        continue
                    # again, alone; then with what ran before it
                    again = None
                    hist = []
                    for hist in ([], part[max(0, i - 50):i], part[:i]):
                        again = c.judge(_replay(ctx, c, hist, work, 'again'))
                        if again is not None and not isinstance(again, Known):
                            break
                    if again is None or isinstance(again, Known):
                        st['stat']['unconfirmed'] = st['stat'].get('unconfirmed', 0) + 1
                        continue
                    lines = []
                    for h in hist:
                        lines += h.lines
                    st['fail'].append({'msg': again, 'desc': c.desc, 'ext': c.ext, 'flavour': c.flavour,
                                       'history': lines, 'lines': c.lines, 'vector': c.vec})
                    if len(st['fail']) >= ctx.get('maxfail', 3):
                        return st
                if len(st['samples']) < 1 and part:
                    c = part[len(part) // 2]
                    st['samples'].append({'case': c.desc, 'steps': [l[:160] for l in c.lines][:12],
                                          'results': [x[:160] for x in res[len(part) // 2] or []][:12]})
        return st
    except Exception:
        return {'error': traceback.format_exc()}


class Failed(Exception):
    pass


def run_all(ctx, fn, items, procs=8, chunk=None):
    """fn(ctx, item) -> iterable of Case."""
    items = list(items)
    random.Random(ctx['seed']).shuffle(items)
    chunk = chunk or max(1, min(400, (len(items) + procs * 3 - 1) // (procs * 3)))
    jobs = [(fn, ctx, items[i:i + chunk], i // chunk) for i in range(0, len(items), chunk)]
    tot = {'cases': 0, 'items': 0, 'fail': [], 'samples': [], 'stat': {}, 'known': {}}
    done = set()
    for n in (procs, max(1, procs // 4), 1):      # again, with fewer at a time, if a process is ended from outside
        try:
            with ProcessPoolExecutor(n, mp_context=multiprocessing.get_context('fork')) as pool:
                fs = {pool.submit(worker, j): i for i, j in enumerate(jobs) if i not in done}
                for f in as_completed(fs):
                    r = f.result()
                    if 'error' in r:
                        pool.shutdown(wait=True, cancel_futures=True)
                        raise Failed(r['error'])
                    done.add(fs[f])
                    tot['cases'] += r['cases']
                    tot['items'] += r['items']
                    tot['fail'] += r['fail']
                    tot['samples'] += r['samples']
                    for w in ('stat', 'known'):
                        for k, v in r[w].items():
                            tot[w][k] = tot[w].get(k, 0) + v
                    if len(tot['fail']) >= 5:
                        pool.shutdown(wait=True, cancel_futures=True)
                        return tot
            return tot
        except BrokenProcessPool:
            tot['stat']['restarted'] = tot['stat'].get('restarted', 0) + 1
    raise Failed('worker processes are ended again and again')
