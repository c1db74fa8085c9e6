"""Per property: which parts of the specification TLC explores, and which cases follow."""
from . import cases, faults, pymod, settings, tlc

ALLINV = ['EmitVectors']


class Part:
    """One TLC run and the cases made from its vectors."""

    def __init__(self, name, fams, inv, fn, modes='AllModes', saves=1, faults='NoFaults', wide='NoWide', validate=False,
                 thorough_saves=None, workers=2, module='MC', consts=None, prep=None, keep=None):
        self.__dict__.update(locals())


SAVE = ['nodes', 'elems', 'ents', 'phys', 'data', 'combo', 'count', 'long', 'big', 'lone']
SAVE22 = ['nodes', 'elems', 'phys', 'data', 'combo', 'count', 'regroup', 'long', 'big', 'lone']


def plan(pid):
    c = cases
    if pid == 'C01':
        return [Part('save41', SAVE, ['RoundTrip41', 'Conserved', 'OwnAccepted', 'LoadedValid'], c.c01, modes='Modes41')]
    if pid == 'C02':
        return [Part('save22', SAVE22, ['Conserved', 'OwnAccepted', 'Grouped22', 'LoadedValid'], c.c02, modes='Modes22')]
    if pid == 'C03':
        return [Part('save', SAVE + ['regroup'], ['Conserved', 'OwnAccepted'], c.c03)]
    if pid == 'C04':
        return [Part('save41', SAVE, ['RoundTrip41'], c.c04, modes='Modes41'),
                Part('files41', ['presence41'], [], c.c04, modes='NoModes', saves=0)]
    if pid == 'C05':
        return [Part('files22', ['files22', 'phys22', 'types22', 'pairs22', 'manytags22', 'presence22'], ['Grouped22'], c.c05, modes='NoModes', saves=0),
                Part('save22', ['regroup', 'count', 'combo', 'data', 'long', 'big'], ['Grouped22', 'Conserved', 'OwnAccepted'], c.c05, modes='Modes22')]
    if pid == 'C06':
        return [Part('files22', ['files22', 'phys22', 'types22', 'pairs22', 'manytags22'], ['Grouped22'], c.c06, modes='NoModes', saves=0)]
    if pid == 'C07':
        return [Part('text', ['phys', 'combo', 'ents', 'count'], ['Conserved', 'OwnAccepted'], c.c07, modes='ModesText'),
                Part('files', ['files22', 'manytags22', 'presence41', 'presence22', 'stray'], ['Grouped22', 'UnknownIgnored'], c.c07, modes='NoModes', saves=0)]
    if pid == 'C08':
        return [Part('files', ['order', 'repeat', 'unknown', 'like', 'stray'], ['Grouped22', 'OrderIrrelevant', 'UnknownIgnored', 'RepeatAddsUp'], c.c08, modes='NoModes', saves=0)]
    if pid == 'C09':
        return [Part('strings', ['strings', 'phys'], ['Conserved', 'OwnAccepted'], c.c09)]
    if pid == 'C10':
        return [Part('payload', ['nodes', 'elems', 'ents', 'data', 'combo'], ['Conserved', 'OwnAccepted'], c.c10, modes='ModesBin'),
                Part('counts', ['count', 'long', 'big'], ['Conserved', 'OwnAccepted'], c.c10count, modes='ModesBin'),
                Part('wide', ['wide'], ['Conserved', 'OwnAccepted'], c.c10wide, modes='ModesBin', wide='WideOrd')]
    if pid == 'C11':
        F = faults
        return [Part('cuts', ['small', 'small0'], ['CutNoticed', 'Total'], F.c11cut, faults='Cuts', prep=F.cut_items),
                Part('cutfiles', ['cutfiles'], ['CutNoticed', 'Total'], F.c11cut, modes='NoModes', saves=0, faults='Cuts', prep=F.cut_items),
                Part('text', ['small', 'small0'], ['WordNoticed', 'Total'], F.c11text, modes='ModesText', faults='TextFaults'),
                Part('textfiles', ['cutfilestext'], ['WordNoticed', 'Total'], F.c11text, modes='NoModes', saves=0, faults='TextFaults'),
                Part('random', ['small', 'small0'], ['Total'], F.c11random, prep=F.random_items),
                Part('randomfiles', ['cutfiles'], ['Total'], F.c11random, modes='NoModes', saves=0, prep=F.random_items),
                Part('dangling', ['dangling'], ['LoadedValid', 'OwnAccepted'], F.c11dangling),
                Part('contra', ['contra22'], ['ContraRefused'], F.c11contra, modes='NoModes', saves=0),
                Part('alive', ['elems', 'data', 'count', 'ents', 'nodes'], ['Conserved', 'OwnAccepted'], F.c11alive),
                Part('alivefiles', ['files22', 'types22', 'pairs22', 'phys22', 'manytags22', 'presence22', 'presence41', 'refuse', 'unknown', 'stray', 'repeat', 'splinefiles'],
                     [], F.c11alive, modes='NoModes', saves=0),
                Part('randomtypes', ['types22', 'contra22', 'manytags22', 'repeat'], ['Total'], F.c11random, modes='NoModes', saves=0, prep=F.random_items)]
    if pid == 'C12':
        return [Part('files', ['refuse'], ['Refused'], c.c12, modes='NoModes', saves=0),
                Part('types', ['badtype'], ['OwnAccepted'], c.c12),
                Part('versions', ['badver'], ['OwnAccepted'], c.c12, modes='OddModes'),
                Part('wide', ['wide'], ['OwnAccepted'], c.c12wide, modes='ModesBin', wide='WideOrd')]
    if pid == 'C13':
        return [Part('perturb', ['perturb', 'badtype', 'combo'], ['VerdictRight', 'BuiltDeviates'], c.c13, modes='NoModes', saves=0, validate=True),
                Part('loaded', ['files22', 'phys22', 'presence22', 'presence41', 'repeat'], ['VerdictRight', 'Grouped22'], c.c13, modes='NoModes', saves=0, validate=True),
                Part('saved', ['dangling', 'regroup', 'combo', 'elems'], ['VerdictRight', 'LoadedValid'], c.c13, validate=False)]
    if pid == 'C14':
        F = faults
        return [Part('write', ['small', 'small0', 'base0', 'last', 'last0'], ['FailureReported'], F.c14write, faults='WriteFaults', prep=F.write_items),
                Part('read', ['small', 'small0', 'base0'], ['FailureReported'], F.c14read, faults='ReadFaults', prep=F.read_items),
                Part('readfiles', ['cutfiles'], ['FailureReported'], F.c14read, modes='NoModes', saves=0, faults='ReadFaults', prep=F.read_items)]
    if pid == 'C15':
        F = faults
        return [Part('calls', ['alphabet'], [], F.c15calls, module='Calls', consts='calls', prep=F.call_items),
                Part('parallel', ['pairs'], [], F.c15par, module='MCPar', consts='par', prep=F.par_items),
                Part('forms', ['combo', 'regroup', 'small', 'small0', 'chain', 'data'], ['Conserved', 'OwnAccepted', 'Independent'], F.c15forms),
                Part('raw', ['stray', 'refuse', 'unknown', 'presence22', 'presence41', 'pairs22', 'cutfiles'], [], F.c15raw, modes='NoModes', saves=0)]
    if pid == 'C16':
        return [Part('splines', ['spline', 'longspline', 'lonespline'], ['Conserved', 'OwnAccepted'], c.c16),
                Part('files', ['splinefiles'], ['SplineHarmless'], c.c16, modes='NoModes', saves=0)]
    if pid == 'C17':
        return [Part('types', ['elems'], ['Conserved', 'OwnAccepted'], c.c17),
                Part('files', ['types22', 'pairs22'], ['Grouped22'], c.c17, modes='NoModes', saves=0)]
    if pid == 'C18':
        return [Part('chains', ['chain', 'chain0'], ['Conserved', 'OwnAccepted', 'Grouped22', 'Idempotent', 'LoadedValid'], c.c18, saves=3, thorough_saves=4)]
    if pid == 'C19':
        G = pymod
        return [Part('objects', ['attributes'], [], G.c19objects, module='PyMsh', consts='py', prep=G.object_items),
                Part('calls', ['small0', 'base0', 'combo', 'badtype', 'regroup', 'data'], ['Conserved', 'OwnAccepted'], G.c19calls, prep=G.vec_groups),
                Part('files', ['presence41', 'presence22', 'refuse', 'pairs22'], [], G.c19calls, modes='NoModes', saves=0, prep=G.vec_groups)]
    if pid == 'C20':
        G = settings
        return [Part('settings', ['calls'], [], G.c20calls, module='Settings', consts='settings', prep=G.settings_items, workers=4),
                Part('save', ['combo', 'data', 'ents', 'strings', 'count', 'badtype'], ['Conserved', 'OwnAccepted'], G.c20),
                Part('files', ['presence41', 'presence22', 'pairs22', 'stray', 'unknown', 'refuse'], ['Grouped22', 'UnknownIgnored'], G.c20,
                     modes='NoModes', saves=0)]
    raise KeyError(pid)


def extra_items(pid, tier):
    if pid == 'C17':
        r = [(t,) for t in range(-300, 1200)]
        for k in (31, 16, 24, 8, 12, 20):
            for d in range(-40, 41):
                for s in (1, -1):
                    t = s * 2 ** k + d
                    if -2 ** 31 <= t < 2 ** 31:
                        r.append((t,))
        return r, cases.c17
    return [], None


def variants(pid):
    if pid == 'C19':
        return [('asan', False), ('py', False)]
    if pid in ('C16', 'C18', 'C11', 'C14', 'C15', 'C20'):
        v = [('asan', False), ('asan', True)]
        if pid == 'C15':
            v.append(('tsan', False))
        return v
    return [('asan', False)]


def items(part, path, ctx):
    if part.prep:
        return part.prep(part, path, ctx)
    return cases.vec_items(path)


def model_cfg(kind, tier):
    if kind == 'par':
        return tlc.cfg('MCPar', tlc.consts(['small'], clients='Two'), ['Isolated', 'EmitPar'], ['ParFinishes'], spec='ParSpec')
    if kind == 'py':
        return tlc.cfg('PyMsh', {'MaxSteps': '= %d' % (2 if tier == 'quick' else 3)}, ['LastWriteWins', 'EmptyIffUntouched', 'EmitPy'], ['Framed'], spec='PySpec')
    if kind == 'settings':
        c = tlc.consts(['small'])
        c.update(MaxChanges='= %d' % (1 if tier == 'quick' else 2), Guarded='= TRUE')
        return tlc.cfg('Settings', c, ['Unaffected', 'Restored', 'PlainInside', 'EmitSettings'], ['CallEnds'], spec='SetSpec')
    c = tlc.consts(['small'])
    c['MaxCalls'] = '= %d' % (2 if tier == 'quick' else 3)
    return tlc.cfg('Calls', c, ['EmitCalls'], spec='CallSpec')


ASSUMPTIONS = [
    'tags and free integers behave alike for every order-preserving choice of values (several are executed)',
    'doubles and strings are only copied and compared (several injective choices are executed, bit for bit)',
    'bounds: the families of spec/Families.tla and spec/Files.tla',
]
