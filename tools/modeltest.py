#!/usr/bin/env python3
"""The specification, changed in one place, must either violate its own
invariants or be contradicted by the library as it is.  A change nothing
notices is a fact of the specification that is not bound.

modeltest.py [NAME ...]: runs the checks listed with each change in a copy."""
import os, re, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# name, file, text, replacement, checks of which each must notice
CHANGES = [
    ('w-range', 'MshWriter', 'Tok(e8, "t", N.mn), Tok(e8, "t", N.mx)', 'Tok(e8, "t", N.mx), Tok(e8, "t", N.mn)', 'C01 C03'),
    ('w-par', 'MshWriter', 'Tok(e4, "i", b.dim), Tok(e4, "e", b.etag), Tok(e4, "i", b.par)', 'Tok(e4, "i", b.dim), Tok(e4, "e", b.etag), Tok(e4, "i", 0)', 'C01 C03'),
    ('w-el22', 'MshWriter', 'Tok(4, "i", b.type), Tok(4, "n", b.n), Tok(4, "i", 1)', 'Tok(4, "n", b.n), Tok(4, "i", b.type), Tok(4, "i", 1)', 'C02 C03'),
    ('w-ents', 'MshWriter', 'Higher(G.c) \\o Higher(G.s)', 'Higher(G.s) \\o Higher(G.c)', 'C01 C03'),
    ('w-phys', 'MshWriter', 'Tok(0, "i", s.phys[i].dim), Tok(0, "e", s.phys[i].tag)', 'Tok(0, "e", s.phys[i].tag), Tok(0, "i", s.phys[i].dim)', 'C03 C09'),
    ('w-ents22', 'MshWriter', 'IF ~NoEnts(s) /\\ s.fmt.ver = "4.1"', 'IF ~NoEnts(s)', 'C02 C03 C18'),
    ('w-nodes0', 'MshWriter', 'IF s.nodes.nn > 0', 'IF s.nodes.nn >= 0', 'C03'),
    ('w-curve', 'MshWriter', 'Tok(0, "n", c.ncp), Tok(0, "n", c.nk)', 'Tok(0, "n", c.nk), Tok(0, "n", c.ncp)', 'C16'),
    ('w-type', 'MshWriter', '~IsElementType(s.elems.blocks[i].type)', 'FALSE', 'C12'),
    ('w-wide', 'MshWriter', 'Ds[i].entries[j].tag \\in WideTags', 'FALSE', 'C12'),
    ('r-tags', 'MshReader', 'IF Len(etags) > 1 THEN etags[2]', 'IF Len(etags) > 2 THEN etags[2]', 'C05'),
    ('r-notag', 'MshReader', 'IF Len(etags) = 1 THEN etags[1] ELSE 1', 'IF Len(etags) = 1 THEN etags[1] ELSE 0', 'C05'),
    ('r-phys', 'MshReader', '{ els[i].etags[1] : i \\in { i', '{ els[i].etags[2] : i \\in { i', 'C06'),
    ('r-owner', 'MshReader', '<< blocks[Max(users)].dim, blocks[Max(users)].etag >>', '<< blocks[Min(users)].dim, blocks[Min(users)].etag >>', 'C05 C02'),
    ('r-key', 'MshReader', 'Key(b) == << b.dim, b.etag, b.type >>', 'Key(b) == << b.dim, b.type >>', 'C05 C02'),
    ('r-key2', 'MshReader', 'Key(b) == << b.dim, b.etag, b.type >>', 'Key(b) == << b.dim, b.etag, b.type, b.data[1] >>', 'C05 C02'),
    ('r-min', 'MshReader', 'mn |-> IF B = <<>> THEN 0 ELSE Min(tags)', 'mn |-> IF B = <<>> THEN 0 ELSE B[1].data[1]', 'C05 C02'),
    ('r-dsz', 'MshReader', 'ver = "4.1" /\\ h.v[2] # 8', 'FALSE', 'C12'),
    ('r-unsupp', 'MshReader', 'ELSE IF ~IsElementType(h.v[3]) THEN Stop(UNSUPP)', 'ELSE IF ~IsElementType(h.v[3]) THEN Stop(FAIL)', 'C12'),
    ('r-ints', 'MshReader', 'IF Len(it.v) < 3 THEN Stop(INVALID)', 'IF Len(it.v) < 2 THEN Stop(INVALID)', 'C12'),
    ('r-rep-n', 'MshReader', '!.nodes.blocks = Append(@, b), !.nodes.nn = @ + n', '!.nodes.blocks = <<b>>, !.nodes.nn = n', 'C08'),
    ('r-rep-e', 'MshReader', '!.elems.blocks = @ \\o [i', '!.elems.blocks = [i', 'C08'),
    ('r-rep-d', 'MshReader', '!.ed = Append(@, r.v)', '!.ed = <<r.v>> \\o @', 'C08'),
    ('r-end', 'MshReader', 'ts[i] = KW(EndMarker(name))', 'IsKW(ts[i])', 'C08'),
    ('r-npe', 'MshReader', 'LET npe == IF perNode THEN h.v[2] ELSE 0', 'LET npe == IF perNode THEN h.v[2] ELSE 1', 'C01 C04'),
    ('r-par', 'MshReader', 'IF h.v[3] = 1 THEN h.v[1] ELSE 0', 'IF h.v[3] = 1 THEN 2 ELSE 0', 'C04'),
    ('r-ext', 'MshReader', 'name = "$Curves"  /\\ ext', 'name = "$Curves"', 'C16'),
    ('r-over', 'MshReader', 'Stop(INVALID)      \\*', 'Stop(UNSPEC)      \\*', 'C11'),
    ('r-post', 'MshReader', 'IF s.fmt.ver = "2.2" THEN [s EXCEPT !.nodes = RegroupNodes(s)', 'IF TRUE THEN [s EXCEPT !.nodes = RegroupNodes(s)', 'C01 C04'),
    ('i-stale', 'MshIO', '!.pos = 1, !.acc = EmptySpec', '!.pos = 1, !.acc = s.cur', 'C15 C01 C18'),
    ('i-wfail', 'MshIO', '/\\ "wfail" \\in FaultKinds /\\ s.phase = "writing"\n    /\\ Set(c, [s EXCEPT !.phase = "failed", !.out = "io"', '/\\ "wfail" \\in FaultKinds /\\ s.phase = "writing"\n    /\\ Set(c, [s EXCEPT !.phase = "file", !.out = "ok"', 'C14'),
    ('i-rfail', 'MshIO', '/\\ Set(c, [s EXCEPT !.phase = "failed", !.out = "io", !.fault = << "rfail"', '/\\ Set(c, [s EXCEPT !.phase = "idle", !.out = "ok", !.fault = << "rfail"', 'C14'),
    ('i-valid', 'MshIO', 'IF IsValid(s.cur) THEN "valid" ELSE "CorruptData"', '"valid"', 'C13'),
    ('b-valid', 'MshBase', 'IsValid(s) == NodesConsistent(s.nodes) /\\ ElemsConsistent(s.nodes, s.elems)', 'IsValid(s) == NodesConsistent(s.nodes)', 'C13'),
    ('b-built', 'MshBase', '/\\ Len(b.data) = b.n * Stride(b)\n          /\\ \\A j', '/\\ \\A j', 'C13'),
    ('b-strict', 'MshBase', 'HeadersAgree(N, E) == N.nb = Len(N.blocks)', 'HeadersAgree(N, E) == N.nn = SumN(N.blocks) /\\ N.nb = Len(N.blocks)', 'C13'),
    ('c-result', 'Calls', 'IF SaveRefused(c.spec, {})', 'IF FALSE', 'C15'),
    ('s-unguarded', 'Settings', 'ELSE IF Guarded THEN Inside(strm) ELSE strm', 'ELSE strm', 'C20'),
    ('s-norestore', 'Settings', 'IF CallEnded(sess\'[C]) THEN [given EXCEPT !.width = 0]', 'IF CallEnded(sess\'[C]) THEN Inside(strm)', 'C20'),
    ('p-copy', 'PyMsh', '[p \\in DOMAIN val |-> IF p[1] = f[1] THEN n ELSE val[p]]', 'val', 'C19'),
    ('p-name', 'PyMsh', '<<"max_x", "real">>', '<<"xmax", "real">>', 'C19'),
    ('p-last', 'PyMsh', 'val\' = [val EXCEPT ![p] = n]', 'val\' = [val EXCEPT ![p] = IF @ = 0 THEN n ELSE @]', 'C19'),
]


def run(change, pid):
    name, module, old, new, _ = change
    d = tempfile.mkdtemp(prefix='mshio-model-')
    try:
        for x in ('spec', 'tools', 'harness', 'known-findings.txt'):
            p = os.path.join(ROOT, x)
            (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, os.path.join(d, x))
        f = os.path.join(d, 'spec', module + '.tla')
        with open(f) as h:
            t = h.read()
        if t.count(old) != 1:
            return 'not applicable (%d times)' % t.count(old), False
        with open(f, 'w') as h:
            h.write(t.replace(old, new))
        r = subprocess.run([sys.executable, 'tools/check.py', pid, '--tier', 'quick'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 1:
            lines = r.stdout.strip().split('\n')
            k = next(i for i, x in enumerate(lines) if x.startswith('VIOLATION'))
            return 'contradicted by the library: ' + lines[k - 1].strip()[:150], True
        m = re.search(r'Error: (Invariant|Action property|Temporal propert\w+) \S* ?(is|was|were) violated|TLC ended with \d+', r.stdout)
        if r.returncode == 2 and m:
            return 'violated in the model: ' + m.group(0), True
        return 'NOT NOTICED (rc %d)' % r.returncode, False
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    bad = 0
    for c in CHANGES:
        if len(sys.argv) > 1 and c[0] not in sys.argv[1:]:
            continue
        for pid in c[4].split():
            what, ok = run(c, pid)
            bad += not ok
            print('%-12s %s  %s' % (c[0], pid, what), flush=True)
    return 1 if bad else 0


sys.exit(main())
