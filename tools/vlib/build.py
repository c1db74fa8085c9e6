"""Builds the executor from the library sources in /repo's working tree."""
import glob, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('MSH_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
HARNESS = os.path.join(VERIF, 'harness')

COMMON = ['-O1', '-g1', '-DNDEBUG', '-std=gnu++17', '-w', '-I' + REPO + '/include', '-I' + REPO + '/src']
FLAVOURS = {
    'asan': ['-fsanitize=address,bounds,null,return,unreachable', '-fno-sanitize-recover=all',
             '-D_GLIBCXX_SANITIZE_VECTOR=1', '-ftrivial-auto-var-init=pattern', '-fno-omit-frame-pointer'],
    'tsan': ['-fsanitize=thread'],
    'plain': ['-O2'],
}
# the Python module, against a stand-in for nanobind
FLAVOURS['py'] = FLAVOURS['asan'] + ['-I' + os.path.join(HARNESS, 'standin'), '-I' + HARNESS]


class BuildError(Exception):
    pass


def _cc(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-4000:])


def build(outdir, variants):
    """variants: list of (flavour, ext).  Returns {(flavour, ext): path}."""
    jobs, links, res = [], [], {}
    for fl, ext in variants:
        d = os.path.join(outdir, '%s-%d' % (fl, ext))
        os.makedirs(d, exist_ok=True)
        flags = COMMON + FLAVOURS[fl] + (['-DMSHIO_EXT_NANOSPLINE'] if ext else [])
        objs = []
        srcs = sorted(glob.glob(REPO + '/src/*.cpp')) + [os.path.join(HARNESS, 'exec.cpp')]
        if fl == 'py':
            srcs[-1:] = [os.path.join(HARNESS, 'pyexec.cpp'), os.path.join(REPO, 'python', 'pymshio.cpp')]
        for s in srcs:
            o = os.path.join(d, os.path.basename(s) + '.o')
            objs.append(o)
            jobs.append(['g++'] + flags + ['-c', s, '-o', o])
        exe = os.path.join(d, 'exec')
        links.append(['g++'] + FLAVOURS[fl] + objs + ['-lpthread', '-o', exe])
        res[(fl, ext)] = exe
    # the big one first
    jobs.sort(key=lambda j: -os.path.getsize(j[-3]))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(_cc, jobs))
        list(ex.map(_cc, links))
    return res
