"""Runs TLC on a family of the specification."""
import os, re, subprocess

from .build import VERIF

SPEC = os.path.join(VERIF, 'spec')


class ModelError(Exception):
    pass


def cfg(module, consts, invariants, properties=(), spec='Spec', constraint=None):
    t = ['SPECIFICATION ' + spec, 'CONSTANTS']
    for k, v in consts.items():
        t.append('  %s %s' % (k, v))
    if invariants:
        t.append('INVARIANTS ' + ' '.join(invariants))
    for p in properties:
        t.append('PROPERTY ' + p)
    if constraint:
        t.append('CONSTRAINT ' + constraint)
    t.append('CHECK_DEADLOCK FALSE')
    return '\n'.join(t) + '\n'


def consts(fams, modes='AllModes', saves=1, faults='NoFaults', wide='NoWide', validate=False, clients='One'):
    return {'Clients': '<- ' + clients, 'Starts': '<- FamStarts', 'SaveModes': '<- ' + modes, 'MaxSaves': '= %d' % saves,
            'FaultKinds': '<- ' + faults, 'WideTags': '<- ' + wide, 'WithValidate': '= ' + ('TRUE' if validate else 'FALSE'),
            'FamNames': '= {%s}' % ', '.join('"%s"' % f for f in fams)}


def run(work, name, text, module='MC', env=None, tier='quick', workers=8, heap='6g', timeout=3000):
    """Returns {'states': distinct, 'transitions': generated, 'out': vector file or None}."""
    d = os.path.join(work, 'tlc-' + name)
    os.makedirs(d, exist_ok=True)
    c = os.path.join(d, name + '.cfg')
    with open(c, 'w') as f:
        f.write(text)
    out = os.path.join(d, 'vectors')
    e = dict(os.environ)
    e.update({'MSH_TIER': tier, 'MSH_FAMILY': name, 'JAVA_TOOL_OPTIONS': '-Xss256m -Xmx%s -XX:+UseParallelGC -Djava.io.tmpdir=%s' % (heap, d)})
    e['JDK_JAVA_OPTIONS'] = '-Xss512m'      # the launcher's own thread
    e.update(env or {})
    cmd = ['tlc', '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-config', c,
           os.path.join(SPEC, module + '.tla')]
    with open(out, 'w') as o:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=o, stderr=subprocess.STDOUT, timeout=timeout)
    log = []
    n = 0
    with open(out, errors='replace') as f:
        for line in f:
            if line.startswith('"{'):
                n += 1
            else:
                log.append(line)
    log = ''.join(log)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', log)
    if r.returncode != 0 or 'No error has been found' not in log or not m:
        errors = ''.join(x + '\n' for x in log.split('\n') if x.startswith('Error:'))
        raise ModelError('%s: TLC ended with %d\n%s...\n%s' % (name, r.returncode, errors[:2000], log[-4000:]))
    return {'states': int(m.group(2)), 'transitions': int(m.group(1)), 'out': out if n else None, 'vectors': n, 'log': log}
