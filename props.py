"""What each check does; read by check.py and gen_manifest.py."""
PROPS = {}

def prop(id, **kw):
    PROPS[id] = kw


SEQ = 'TLA+ specification checked with TLC; traces of the real code validated against it by TLC'
CONC = 'TLA+ specification checked with TLC; concurrent histories of the real code under controlled schedules validated by TLC'
SEQNOTE = 'Every recorded behaviour of the current code was validated against the specification: all small cases and many random large ones. Assumes the driver records what the code returned; inputs beyond the bounds are sampled.'
CONCNOTE = 'All schedules with few preemptions of small programs and many random schedules of larger ones, interleaved at statements of the instrumented code under a sequentially consistent memory; every history validated against the specification.'

def seq(id, driver, spec, init, post, **kw):
    prop(id, driver=driver, trace=dict(spec=spec, init=init, post=post), technique=kw.pop('technique', SEQ), note=kw.pop('note', SEQNOTE), **kw)

def conc(id, driver, instr, **kw):
    prop(id, driver=driver, instr=instr, technique=kw.pop('technique', CONC), note=kw.pop('note', CONCNOTE), **kw)

# memory accesses of the same programs against the Go memory model
HBMC = dict(module='HbCheck', consts=dict(T=3, Locs=1, Objs=1, N=4), thorough=dict(N=5), inv=['Agree'])
def race(id, driver, instr, **kw):
    return dict(driver=driver, instr=instr, race=True, trace=dict(spec='HappensBefore', init='HbInit', post='HbPost'), **kw)

# the algorithm of sync.Map; alone (N = 0) also the calls that lead to each of its states, for the driver
MAPOPS = '{"load", "store", "swap", "los", "lad", "delete", "cas", "cad", "range"}'
def mapalgo(k, t, n, conc, **thorough):
    return dict(module='SyncMapAlgo', cfg='INIT Init\nNEXT Next\nVIEW View\n', inv=['Judged', 'Structure', 'Contents'], workers=6,
                consts=dict(K=k, T=t, N=n, SeqOps=MAPOPS, ConcOps=conc, Script='FALSE'), thorough=thorough)
def mapgen(k, **thorough):
    return [dict(module='SyncMapAlgo', cfg='VIEW View\nINVARIANT Emit\n', consts=dict(K=k, T=1, N=0, SeqOps=MAPOPS, ConcOps='{}', Script='TRUE'), thorough=thorough)]
CONCOPS = '{"load", "store", "swap", "los", "lad", "cas", "cad"}'
SYNC = ['gogenerics/gconcurrent/sync']
conc('C01', 'syncmap', SYNC, trace=dict(spec='GoMap', base='LinBase', init='MapInit', post='MapPost'),
     gen=mapgen(2, K=3), mc=[mapalgo(2, 2, 1, CONCOPS, N=2), mapalgo(1, 3, 1, '{"load", "swap", "lad", "cas"}', K=2)])
seq('C02', 'syncmap', 'GoMap', 'MapInit', 'MapPost', gen=mapgen(3), mc=[mapalgo(3, 1, 0, '{}', K=4)])
conc('C03', 'syncmap', SYNC, trace=dict(spec='LinRange', base='LinRange'),
     gen=mapgen(2, K=3), mc=[mapalgo(2, 2, 1, MAPOPS, N=2), mapalgo(1, 3, 1, '{"range", "swap", "los", "lad", "cad"}', K=2)])
seq('C28', 'containers', 'Heap', 'HeapInit', 'HeapPost')
seq('C29', 'containers', 'List', 'ListInit', 'ListPost')
seq('C30', 'containers', 'Ring', 'RingInit', 'RingPost')
seq('C31', 'containers', 'Queue', 'QueueInit', 'QueuePost')
seq('C33', 'containers', 'SetMap', 'SetMapInit', 'SetMapPost')
seq('C34', 'containers', 'Slices', 'SlicesInit', 'SlicesPost')
seq('C35', 'containers', 'Numerics', 'NumInit', 'NumPost')
# the algorithm of the red-black tree, and the calls that lead to each of its trees, for the driver
RBMC = [dict(module='RbAlgo', cfg='INIT Init\nNEXT Next\nVIEW View\n', inv=['Parents', 'Sentinel', 'Shape', 'Lookups'], consts=dict(K=9, Script='FALSE'), thorough=dict(K=11), workers=4)]
RBGEN = [dict(module='RbAlgo', cfg='VIEW View\nINVARIANT Emit\n', consts=dict(K=8, Script='TRUE'))]
seq('C23', 'trees', 'RbTree', 'RbInit', 'RbPost', mc=RBMC, gen=RBGEN)
seq('C24', 'trees', 'RbTree', 'ShapeInit', 'ShapePost', mc=RBMC, gen=RBGEN)
seq('C25', 'trees', 'RbTree', 'RbInit', 'RbPost', mc=RBMC, gen=RBGEN)
# the algorithm of the skip list, and the calls that lead to each of its structures, for the driver
SKIPMC = [dict(module='SkipAlgo', cfg='INIT Init\nNEXT Next\nVIEW View\n', inv=['Structure', 'Lookups'], consts=dict(K=6, L=4, Script='FALSE'), thorough=dict(K=7, L=4))]
SKIPGEN = [dict(module='SkipAlgo', cfg='VIEW View\nINVARIANT Emit\n', consts=dict(K=5, L=4, Script='TRUE'))]
seq('C26', 'trees', 'SkipMap', 'SkipInit', 'SkipPost', mc=SKIPMC, gen=SKIPGEN)
seq('C27', 'trees', 'SkipMap', 'SkipInit', 'SkipPost', mc=SKIPMC, gen=SKIPGEN)
seq('C50', 'trees', 'Texts', 'TxInit', 'TxPost', mc=SKIPMC, gen=SKIPGEN)
seq('C20', 'bits', 'BitSet', 'BitInit', 'BitPost')
seq('C21', 'bits', 'BitSet', 'BitInit', 'BitPost')
# the order of locks when bit sets are combined
def bitlocks(t, n, args, *ops, **thorough):
    return dict(module='BitLocks', cfg='INIT Init\nNEXT Next\n', inv=['Judged', 'Contents'], workers=6, thorough=thorough,
                consts=dict(S=2, T=t, N=n, Order='"address"', Args=args, Ops='{%s}' % ', '.join('"%s"' % o for o in ops)))
conc('C22', 'bits', ['library/bitset'], trace=dict(spec='BitSet', base='LinBase', init='LinInit', post='LinPost'),
     mc=[bitlocks(3, 1, 1, 'clear', 'get', 'and', T=4), bitlocks(2, 2, 2, 'set', 'andnot', T=3, N=1)])
seq('C10', 'lru', 'Lru', 'LruInit', 'LruPost')
seq('C11', 'lru', 'Lru', 'LruInit', 'LruPost')
conc('C12', 'lru', ['library/cachex'], trace=dict(spec='Lru', base='LinBase', init='LruInit', post='LruPost'))
seq('C13', 'chain', 'Chain', 'ChainInit', 'ChainPost')
seq('C14', 'chain', 'Chain', 'ChainInit', 'ChainPost')
seq('C15', 'chain', 'Chain', 'ChainInit', 'ChainPost')
seq('C49', 'chain', 'CacheMap', 'CmInit', 'CmPost',
    mc=[dict(module='ChainMap', cfg='INIT Init\nNEXT Next\n', inv=['One', 'Agree'], consts=dict(N=4, K=2, V=2), thorough=dict(N=4, K=3, V=2))])
CACHE = ['library/cachex']
conc('C16', 'filestore', CACHE, trace=dict(spec='FileStore', init='FsInit', post='FsPost'), technique=SEQ, note=SEQNOTE)
# the algorithm of FileStore, one file system call per step
FSOPS = '{"get", "set", "brief", "del", "purge"}'
def filealgo(k, t, n, ticks, collects, fails, crashes, **thorough):
    return dict(module='FileAlgo', cfg='INIT Init\nNEXT Next\n', inv=['Judged', 'Contents'], workers=6,
                consts=dict(K=k, T=t, N=n, Ops=FSOPS, Ticks=ticks, Collects=collects, Fails=fails, Crashes=crashes, Locked='TRUE'), thorough=thorough)
conc('C17', 'filestore', CACHE, trace=dict(spec='FileStore', base='LinBase', init='LinInit', post='LinPost'),
     mc=[filealgo(2, 2, 1, 1, 1, 0, 0, N=2), filealgo(1, 3, 1, 1, 1, 0, 0, Ticks=2)])
conc('C18', 'filestore', CACHE, trace=dict(spec='FileStore', init='CrInit', post='CrPost'),
     mc=[filealgo(1, 2, 1, 1, 0, 1, 1, Collects=1), filealgo(2, 1, 2, 0, 1, 1, 1, Crashes=2)])
conc('C19', 'filestore', CACHE, trace=dict(spec='FileStore', init='ClInit', post='ClPost'))

MRI = ['gogenerics/gconcurrent/mr', 'gogenerics/gconstraints']
for c in ('C04', 'C05', 'C06', 'C07', 'C08'):
    conc(c, 'mr', MRI, trace=dict(spec='MapReduce', init='MrInit', post='MrPost'), procs=1)
conc('C09', 'mr', MRI, trace=dict(spec='AtomicError', base='LinBase', init='ErrInit', post='ErrPost'))
conc('C32', 'mr', ['gogenerics/gcontainers/gpool'], trace=dict(spec='Pool', base='LinBase', init='PoolInit', post='PoolPost'))
seq('C36', 'rnd', 'Rand', 'RandInit', 'RandPost', linked=True)
AESMC = dict(module='AesCheck', inv=['Known', 'Inverse', 'Codes', 'Padding'])
seq('C37', 'cryptox', 'Crypto', 'CryptoInit', 'CryptoPost', mc=[AESMC])
seq('C38', 'cryptox', 'Crypto', 'CryptoInit', 'CryptoPost', mc=[AESMC])
seq('C44', 'cryptox', 'Digest', 'DigestInit', 'DigestPost')
seq('C39', 'password', 'Password', 'PwInit', 'PwPost')
TEXTMC = dict(module='TextCheck', consts=dict(N=5), thorough=dict(N=7), inv=['OneResult', 'OnlySpaces', 'Stable'])
for c in ('C40', 'C41', 'C42', 'C43'):
    seq(c, 'stringx', 'Text', 'TextInit', 'TextPost', mc=[TEXTMC])
seq('C45', 'stringx', 'ZeroCopy', 'ZcInit', 'ZcPost')

RACES = [race('C01', 'syncmap', SYNC), race('C03', 'syncmap', SYNC), race('C12', 'lru', CACHE), race('C17', 'filestore', CACHE),
         race('C22', 'bits', ['library/bitset']), race('C09', 'mr', MRI)]
for i, c in enumerate(('C01', 'C03', 'C12', 'C17', 'C22', 'C09')):
    PROPS[c]['also'] = [RACES[i]]
    PROPS[c]['mc'] = PROPS[c].get('mc', []) + [HBMC]
# the algorithm of package mr, step by step, judged by MapReduce.tla
def S(*xs): return '{%s}' % ', '.join(str(x) if isinstance(x, int) else '"%s"' % x for x in xs)
def algo(kinds, ns, ws, ge, mo, ro, cx, **thorough):
    return dict(module='MrAlgo', cfg='INIT Init\nNEXT Next\n', inv=['Judged', 'AtEnd'], workers=8,
                consts=dict(Kinds=S(*kinds), Ns=S(*ns), Ws=S(*ws), GenEnds=S(*ge), MapOps=S(*mo), RedOps=S(*ro), Ctxs=S(*cx)),
                thorough={k: S(*v) for k, v in thorough.items()})
MRMC = {
    'C04': algo(['mr', 'void'], [0, 1, 2], [1, 2], [0], ['', 'w'], ['', 'R', 'w', 'Rw'], [0],
                Ns=[0, 1, 2, 3], Ws=[1, 2, 3], MapOps=['', 'w', 'ww'], RedOps=['', 'r', 'R', 'w', 'Rw', 'rw', 'wR']),
    'C05': algo(['mr', 'void'], [0, 2], [1], [0], ['w', 'c'], ['Rw', 'qw'], [0, 1],
                Ws=[1, 2], MapOps=['', 'w', 'c', 'wc'], RedOps=['Rw', 'w', 'rc', 'qw', 'Rqw', 'cqw', 'Rxw'], Ctxs=[0, 1, 2]),
    'C06': algo(['mr', 'void', 'foreach', 'finishvoid'], [0, 1, 2], [1, 2], [0, 1], ['w', 'p'], ['Rw', 'Rp', 'Rww'], [0],
                MapOps=['', 'w', 'p', 'c', 'wp', 'cp'], RedOps=['Rw', 'Rp', 'Rww', 'wR', 'rp', 'rc'], Ctxs=[0, 1]),
    'C07': algo(['mr', 'foreach', 'finish', 'finishvoid'], [0, 1], [1], [0, 1], ['w', 'p', 'c', 'x'], ['', 'Rw', 'p', 'ww', 'x'], [0, 1],
                Kinds=['mr', 'void', 'foreach', 'finish', 'finishvoid'], Ns=[0, 1, 2], Ws=[1, 2], RedOps=['', 'Rw', 'p', 'c', 'ww', 'x', 'Rc']),
    'C08': algo(['foreach', 'finish', 'finishvoid'], [0, 1, 2], [1, 2], [0, 1], ['', 'p', 'c'], [''], [0, 1],
                Ns=[0, 1, 2, 3], Ws=[1, 2, 3], MapOps=['', 'p', 'c', 'x']),
}
for c in ('C04', 'C05', 'C06', 'C07', 'C08'):
    PROPS[c]['also'] = [race(c, 'mr', MRI, procs=1)]
    PROPS[c]['mc'] = [HBMC, MRMC[c]]

ALL = ['gogenerics/gconcurrent/mr', 'gogenerics/gconcurrent/sync', 'gogenerics/gconstraints'] + \
      ['gogenerics/gcontainers/' + x for x in ('gheap', 'glist', 'gmap', 'gpool', 'gqueue', 'gring', 'gset', 'gslice')] + \
      ['gogenerics/gds/grbt', 'gogenerics/gds/gskiplist', 'gogenerics/gnumerics', 'hack/fastrand', 'hack/unsafex'] + CACHE + \
      ['library/bitset', 'library/cryptox', 'library/password', 'library/stringx']
r46 = [race('', d, i, **dict(dict(as_=c), **({'procs': 1} if d == 'mr' else {}))) for c, d, i in
       (('C01', 'syncmap', SYNC), ('C03', 'syncmap', SYNC), ('C12', 'lru', CACHE), ('C17', 'filestore', CACHE), ('C22', 'bits', ['library/bitset']),
        ('C09', 'mr', MRI), ('C04', 'mr', MRI), ('C07', 'mr', MRI), ('C08', 'mr', MRI), ('C32', 'mr', ['gogenerics/gcontainers/gpool']))]
PROPS['C46'] = dict(r46[0], also=r46[1:], mc=[HBMC], technique='TLA+ specification of happens-before checked with TLC against its definition; recorded memory accesses of the real code validated against it by TLC',
                    note='Programs of the concurrency checks, under controlled schedules; every access of the library to memory that goroutines may share, and every synchronisation, is recorded. Accesses inside the standard library other than container/list are not seen, except that slices passed to it count as read. What the recording does not know exactly counts as ordered.')
conc('C48', 'indep', ALL, trace=dict(spec='Alone', init='AloneInit', post='AlonePost'), also=[race('C48', 'indep', ALL)], mc=[HBMC])
