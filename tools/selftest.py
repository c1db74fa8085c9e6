#!/usr/bin/env python3
"""Recorded executions, each falsified in one place, must be rejected by spec/TraceMsh.tla.

selftest.py [N]: prints how many of N falsified recordings per property were rejected."""
import copy, os, random, shutil, sys, tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, traces      # noqa: E402


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    elif isinstance(x, int) and not isinstance(x, bool):
        yield path


def seen(view, p):
    """Whether the view of the recording shows this field."""
    if view == 'all':
        return True
    if view == 'noents':
        return p[0] != 'ents'
    if view == 'ents':
        return p[0] == 'elems' and p[-1] == 'etag'
    if view == 'nothing':
        return False
    return p[0] in ('phys', 'nd', 'ed', 'end') and not (p[0] in ('nd', 'ed') and p[-1] == 'npe')


class Falsified:
    def __init__(self, s, rnd):
        self.s, self.a = s, copy.deepcopy(s.abstract())
        self.events = s.events
        ok = []
        for i, e in enumerate(self.a['events']):
            if e['op'] == 'loaded':
                ok += [(i, 'spec') + p for p in leaves(e['spec']) if seen(e['view'], p) and p[0] != 'fmt']
            elif e['op'] == 'saved' and e['cmp']:
                ok += [(i, 'file') + p for p in leaves(e['file']) if len(p) == 2 and p[1] == 2 and e['file'][p[0]][1] != 'nl']
            elif e['op'] == 'validated':
                ok += [(i, 'out')]
        self.at = rnd.choice(ok) if ok else None
        if self.at:
            x = self.a['events']
            for k in self.at[:-1]:
                x = x[k]
            if self.at[-1] == 'out':
                x['out'] = 'valid' if x['out'] != 'valid' else 'CorruptData'
            else:
                x[self.at[-1]] += rnd.choice([1, -1])

    def abstract(self):
        return self.a


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    work = tempfile.mkdtemp(prefix='mshio-selftest-')
    bad = 0
    try:
        ctx = {'work': work, 'tier': 'quick', 'seed': 1, 'exes': build.build(work + '/build', [('asan', False), ('asan', True)])}
        for pid in traces.PROPS:
            rnd = random.Random(pid)
            ss = traces.record(traces.make(pid, 77000000, n), ctx, work, 'rec')
            fs = [f for f in (Falsified(s, rnd) for s in ss) if f.at]
            v, _ = traces.check(fs, work, 'self')
            kept = [i for i in v if v[i] is None]
            bad += len(kept)
            print('%s: %d of %d falsified recordings rejected' % (pid, len(fs) - len(kept), len(fs)))
            for i in kept:
                print('   accepted:', fs[i].s.desc, fs[i].at)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
