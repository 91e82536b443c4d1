"""Which scripts, builds, labels and models decide which property."""

PLAIN = dict(name='plain')
ASAN = dict(name='asan', cxx='g++', flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DASAN', '-DNO_MALLOC_HOOK', '-g1'],
            link=['-fsanitize=address,undefined'])
TSAN = dict(name='tsan', cxx='g++', flags=['-fsanitize=thread', '-DNO_MALLOC_HOOK', '-g1'], link=['-fsanitize=thread'])
NOEXC = dict(name='noexc', flags=['-DIIR1_NO_EXCEPTIONS'], libflags=['-fno-exceptions'])
FAST = dict(name='O3', opt='-O3')
CLANG = dict(name='clang', cxx='clang++', opt='-O2')


def T(profile, focus, build=PLAIN, **k):
    return dict(profile=profile, focus=focus, build=build, **k)


SPEC = ['SPECIFICATION Spec', 'CHECK_DEADLOCK FALSE']


def M(module, constants, inv='', prop='', cfg=(), **k):
    """A model to be checked completely."""
    return dict(module=module, constants=constants,
                cfg=SPEC + list(cfg) + ['INVARIANT ' + i for i in inv.split()] + ['PROPERTY ' + i for i in prop.split()], **k)


def engine(n, len0, values, inv):
    return M('MC_Engine', {'N': n, 'Len0': len0, 'Coefs': '<- ' + values, 'Inputs': '<- ' + values}, inv)


def life(inv, prop, depth=3):
    return [M('MC_Life', {'Names': '{1, 2}', 'Depth': depth, 'Pole': pole, 'Top': '"%s"' % st}, inv, prop, ['CONSTRAINT Bounded', 'VIEW View'])
            for st, pole in (('D1', 'FALSE'), ('D2', 'TRUE'), ('T2', 'TRUE'))]


def cache(inv, prop='', keyed='"n", "g", "r"', **k):
    return M('MC_Cache', {'Cap': 3, 'Keyed': '{%s}' % keyed}, inv, prop, ['VIEW View'], **k)


def threads(top, common='', inv='Alone', prop='', calls=2, **k):
    return M('MC_Threads', {'Threads': '{1, 2}', 'Calls': calls, 'Top': '"%s"' % top, 'Common': '{%s}' % common}, inv, prop, **k)


def layout(cap):
    return M('MC_Layout', {'Cap': cap}, 'Fits Real NoNan Full Edge', 'Grows')


def laws(inv):
    return [M('MC_Laws', {'MaxOrder': 6, 'Step': 40}, inv, thorough=dict(constants={'MaxOrder': 10, 'Step': 200}))]


def only(fam, kinds):
    return [(fam, k) for k in kinds.split()]


PASS = 'LP HP BP BS'
SHELVES = [(f, k) for f in ('BW', 'C1', 'C2') for k in ('LS', 'HS', 'BH')]


def law(profile, which):
    """A family's own designs, and the designs of its filters in the life of long used objects."""
    return [T(profile, ['law', 'ref', 'stab', 'resp'])] + [T(p, ['law', 'ref', 'stab', 'resp'], only=which) for p in ('C04', 'C05')]


P = {
    'C01': dict(traces=[T('C01', ['out', 'fresh', 'fexc']), T('C03', ['out', 'fexc']), T('C25', ['out'])],
                models=[engine(1, 4, 'Trits', 'Equivalent Linear Causal Delayed'), engine(2, 3, 'Bits', 'Equivalent Linear Causal Delayed')]),
    'C02': dict(traces=[T('C02', ['out', 'keep', 'fexc']), T('C24', ['out', 'keep'])],
                models=[engine(1, 4, 'Trits', 'Restart'), engine(2, 3, 'Bits', 'Restart')] + life('TypeOK', 'Silent KeepsTuning')),
    'C03': dict(traces=[T('C03', ['out', 'fexc', 'nst']), T('C16', ['out', 'fexc'])],
                models=[engine(1, 4, 'Trits', 'Retuned')] + life('TypeOK', 'KeepsHistory')),
    'C04': dict(traces=[T('C04', ['memo', 'pz', 'resp', 'nst']), T('CACHE', ['memo', 'pz', 'resp', 'nst'])],
                models=[cache('Same LastGood Passing')] + [cache('Same', keyed=k, fails='Same') for k in ('"g", "r"', '"n", "r"', '"n", "g"')]),
    'C05': dict(traces=[T('C05', ['memo', 'nst', 'out', 'dec']), T('ARGS', ['memo', 'nst'])]),
    'C06': dict(traces=[T('C06', ['out', 'copy', 'snap', 'pz', 'resp', 'guard', 'keep', 'idx', 'memo']), T('LIFE', ['out', 'copy', 'snap', 'pz', 'resp', 'keep', 'guard', 'memo'])],
                models=life('TypeOK Alone', 'Silent OnlyOne')),
    'C07': dict(traces=[T('C07', ['out', 'snap', 'guard', 'keep', 'copy']), T('C07', ['out', 'snap'], ASAN), T('C07T', ['out', 'snap', 'keep'], TSAN, threads=True)],
                models=life('TypeOK Alone', 'OnlyOne') + [threads('D1'), threads('D2', calls=1, prop='Ends', thorough=dict(cfg=SPEC + ['INVARIANT Alone'], constants={'Threads': '{1, 2, 3}', 'Calls': 2, 'Top': '"D2"', 'Common': '{}'})),
                                                         threads('T2', '"value"', fails='Alone'), threads('D2', '"design"', fails='Alone')]),
    'C08': dict(traces=[T('C08', ['alloc', 'fexc'])]),
    'C09': dict(traces=law('C09', only('BW', PASS)),
                models=laws('Butterworth Mapped Judged')),
    'C10': dict(traces=law('C10', only('C1', PASS)),
                models=laws('Chebyshev1 Mapped')),
    'C11': dict(traces=law('C11', only('C2', PASS)),
                models=laws('Chebyshev2 Mapped')),
    'C12': dict(traces=law('C12', SHELVES),
                models=laws('Shelves Mapped')),
    'C13': dict(traces=law('C13', [('RBJ',)]),
                models=laws('Rbj')),
    'C14': dict(traces=[T('C14', ['stab', 'die', 'bnd']), T('C04', ['stab']), T('ARGS', ['stab'])]),
    'C15': dict(traces=[T('C15', ['dec', 'exc']), T('ARGS', ['dec', 'exc']), T('C16', ['dec', 'exc']), T('CACHE', ['dec', 'exc'])],
                models=[cache('Same', 'Agree')]),
    'C16': dict(traces=[T('C16', ['keep', 'out', 'snap', 'resp']), T('CACHE', ['keep', 'out']), T('C15', ['keep'])],
                models=[cache('LastGood', 'Refused')] + life('TypeOK', 'KeepsTuning KeepsHistory')),
    'C17': dict(traces=[T('C17', ['nan', 'exc']), T('ARGS', ['nan', 'exc']), T('C16', ['nan'])]),
    'C18': dict(traces=[T('C18', ['resp', 'out']), T('C24', ['resp']), T('C16', ['resp'])]),
    'C19': dict(traces=[T('C19', ['pz']), T('C04', ['pz']), T('C24', ['pz'])]),
    'C20': dict(traces=[T('C20', ['imp', 'dec', 'out', 'get', 'fresh']), T('C17', ['imp', 'dec'])]),
    'C21': dict(traces=[T('C21', ['out'])]),
    'C22': dict(traces=[T('C22', ['lay', 'guard']), T('LAY', ['lay', 'guard'])],
                models=[layout(c) for c in range(5)]),
    'C23': dict(traces=[T('C23', ['same', 'abort'], pair=NOEXC)]),
    'C24': dict(traces=[T('C24', ['keep', 'snap', 'out', 'resp', 'state', 'pz', 'get', 'idx']), T('C18', ['keep', 'resp', 'out'])],
                models=life('TypeOK', 'KeepsTuning KeepsHistory')),
    'C25': dict(traces=[T('C25', ['nst', 'idx', 'get', 'cap', 'snap', 'out']), T('C24', ['nst', 'idx', 'get', 'snap']), T('C04', ['nst'])],
                models=[cache('LastGood Passing')]),
    'C26': dict(traces=[T('C26', ['ana', 'dig', 'adec'])]),
}
