"""The checks of the properties."""
import gen_archive, gen_codec, gen_ext, gen_iter, gen_storage, gen_struct, gen_vec, gen_view, gen_wide


def impl(c, module, bugs):
    """An implementation-shaped model, which has to satisfy its properties, and its defective variants, which must not."""
    c.model_check(module, module if c.quick else module + 'Big', workers='8')
    for b in bugs:
        c.model_check(module, module + '_' + b, expect='violation')


def codec(c):
    c.model_check('Window', 'Window' if c.quick else 'WindowWide')
    c.model_check('Window', 'WindowF1', expect='violation')
    c.model_check('Window', 'WindowF2', expect='violation')
    c.validate('Codec', gen_codec.sequences(c.prop, c.quick), 'accesses by read_bytes! and write_bytes!')
    c.validate('Struct', gen_struct.sequences(c.prop, c.quick), 'accesses by generated getters and setters')


def struct(c):
    suffix = [{'op': 'get', 'r': 0}, {'op': 'get', 'r': 1}]
    c.validate('Struct', c.generate('StructGen', suffix=suffix), 'all transitions of two handles of S6')
    if not c.quick:
        c.validate('Struct', c.generate('StructGen', 'StructGenS2', suffix=suffix), 'all transitions of two handles of S2')
    c.validate('Struct', gen_struct.sequences(c.prop, c.quick), 'random histories of three handles')
    c.validate('Views', gen_view.compared(c.quick), 'comparisons of similar elements and items')


CHECKS = {'C01': codec, 'C02': codec, 'C03': codec, 'C04': struct}


def vec(c):
    c.prove('Growth', ['wraps', 'total'])
    suffix = [{'op': 'state', 'r': 0}, {'op': 'state', 'r': 1}]
    c.validate('Vector', c.generate('VectorGen', None if c.quick else 'VectorGenBig', suffix=suffix), 'all transitions of two vectors')
    c.validate('Vector', gen_vec.sequences(c.quick), 'random histories of vectors')
    c.validate('Wide', gen_wide.vectors(c.quick), 'vectors of 2^32 bytes', jobs=2, gb=14)


CHECKS['C05'] = vec


def ext(c):
    impl(c, 'ExtImpl', ['count', 'nopad', 'dirty'])
    c.prove('Buffer', ['last', 'partial', 'dropped'])
    c.validate('ExtVector', c.generate('ExtVectorGen', None if c.quick else 'ExtVectorGenBig'), 'all transitions of an external vector in memory')
    c.validate('ExtVector', c.generate('ExtVectorGen', 'ExtVectorGenFile'), 'all transitions of an external vector in files')
    c.validate('ExtVector', gen_ext.vectors(c.quick), 'external vectors, also larger than the buffer')
    c.validate('ExtVector', gen_ext.wide_vectors(c.quick), 'external vectors of more than 2^32 bytes', gb=14, jobs=1)
    if not c.quick:
        c.validate('ExtVector', gen_ext.many_elements(), 'an external vector of more than 2^32 elements', profile='release')


def mv(c):
    impl(c, 'MvImpl', ['flushed', 'early', 'tag', 'sentinel', 'narrow', 'start'])
    c.prove('Buffer', ['last', 'start', 'narrow'])
    c.model_check('MvImpl', 'MvImplInst' if c.quick else 'MvImplInstBig', workers='8')
    c.validate('MultiVector', c.generate('MultiVectorGen', None if c.quick else 'MultiVectorGenBig'), 'all transitions of a multivector in memory')
    c.validate('MultiVector', c.generate('MultiVectorGen', 'MultiVectorGenFile'), 'all transitions of a multivector in files')
    c.validate('MultiVector', gen_ext.multivectors(c.quick), 'multivectors, also larger than the buffer')
    c.validate('MultiVector', gen_ext.wide_multivectors(c.quick), 'multivectors of more than 2^32 bytes', gb=14, jobs=1)


CHECKS['C06'] = ext
CHECKS['C07'] = mv


def views(c):
    c.prove('Slices', ['wraps', 'unchecked', 'end'])
    c.prove('Buckets', ['wraps', 'empty', 'inverted', 'last'])
    for cfg in ['ViewsGen', 'ViewsGenMulti']:
        q = c.generate('ViewsGen', cfg if c.quick else cfg + 'Big')
        c.validate('Views', q, 'all slices of all slices')
    c.validate('Views', gen_view.sequences(c.quick), 'random accesses and slices')
    c.validate('Views', gen_view.damaged(c.quick), 'accesses and slices of damaged multivectors')
    c.validate('Wide', gen_wide.arrays(c.quick), 'views of more than 2^32 elements or bytes')


CHECKS['C08'] = views


def iters(c):
    c.prove('Slices', ['rest'])
    c.prove('Buckets', ['empty'])
    for cfg in ['IteratorsGen', 'IteratorsGenMulti']:
        q = c.generate('IteratorsGen', cfg if c.quick else cfg + 'Big')
        c.validate('Iterators', q, 'all interleavings of two iterators')
    c.validate('Iterators', gen_iter.sequences(c.quick), 'random steps, clones and adapters')
    c.validate('Wide', gen_wide.arrays(c.quick), 'iterators of more than 2^32 elements or bytes')


def debug(c):
    for cfg in ['DebugGen', 'DebugGenMulti']:
        c.validate('Iterators', c.generate('DebugGen', cfg), 'debug output of all parts of a sequence')
    c.validate('Iterators', gen_iter.debugs(c.quick), 'debug output after random steps')
    c.validate('ExtVector', gen_ext.debugs(c.quick), 'debug output of external vectors')
    c.validate('Archive', gen_archive.debugs(c.quick), 'debug output of archives')
    c.validate('Wide', gen_wide.arrays(c.quick, True), 'debug output of more than 2^32 elements or bytes')


CHECKS['C09'] = iters
CHECKS['C20'] = debug


def storage_walks(c, n='StorageGen'):
    for st in ['', 'Mem']:
        c.validate('Storage', c.generate('StorageGen', 'StorageGen' + st + ('' if c.quick else 'Big')), 'all transitions of a storage with two resources')


def frames(c):
    storage_walks(c)
    c.validate('Storage', gen_storage.roundtrips(c.quick), 'written resources of all sizes')
    # data may be copied
    c.validate('Storage', gen_storage.wide(c.quick), 'data of more than 2^32 bytes', gb=9 if c.quick else 18)


def damages(c):
    c.prove('Framing', ['wraps', 'atleast', 'half'])
    storage_walks(c)
    c.validate('Storage', gen_storage.damaged(c.quick), 'damaged resources')
    c.validate('Storage', gen_storage.large(c.quick), 'resources larger than 2^31 and 2^32 bytes')


def rewriting(c):
    for m in ['', 'Mem']:
        c.model_check('StorageImpl', 'StorageImpl' + m)
    for b in ['append', 'remember', 'stale', 'truncate', 'unshared']:
        c.model_check('StorageImpl', 'StorageImpl_' + b, expect='violation')
    for m in ['', 'Mem']:
        c.validate('Storage', c.generate('StorageImpl', 'StorageImplGen' + m), 'rewriting and reading through two handles')
    c.validate('Storage', gen_storage.rewrites(c.quick), 'random rewriting with data handed out')
    c.validate('Storage', gen_storage.many(c.quick), 'data of many resources at once')
    c.validate('Storage', gen_storage.appended(c.quick), 'data read early while more is appended')
    c.validate('Storage', gen_storage.faulty_reads(c.quick), 'reads after reads which failed')
    c.validate('Storage', gen_storage.replaced(c.quick), 'many versions of a resource, and versions which differ little')
    c.validate('Storage', gen_storage.anything(c.quick), 'random operations on storages')
    c.validate('Archive', gen_archive.builds(c.quick, 'c18'), 'archives opened while resources are written again')


def explained(c):
    impl(c, 'DiffImpl', ['newline', 'swapped', 'changes', 'trimmed'])
    pairs = c.generate('DiffImpl', 'DiffGen' if c.quick else 'DiffGenBig')
    c.validate('Storage', gen_storage.pairs(pairs), 'differences of all pairs of short texts')
    c.validate('Storage', gen_storage.diffs(c.quick), 'differences of schemas')


CHECKS['C10'] = frames
CHECKS['C11'] = damages
CHECKS['C18'] = rewriting
CHECKS['C19'] = explained


def opening(c):
    for cfg, a in [('OpenGen', 'Mid'), ('OpenGenVecs', 'Vecs'), ('OpenGenOpt', 'Opt')] + ([] if c.quick else [('OpenGenDeep', 'Deep'), ('OpenGenFull', 'Full')]):
        c.validate('Archive', gen_archive.cases(c.generate('OpenGen', cfg), a), 'all combinations of damage of ' + a)
    c.validate('Archive', gen_archive.opens(c.quick), 'damaged archives')
    c.validate('Archive', gen_archive.large(c.quick), 'archives with large resources')


def creating(c):
    for st in ['', 'Mem']:
        c.validate('Archive', c.generate('ArchiveGen', 'ArchiveGen' + st), 'all transitions of three archives in common directories')
    c.validate('Archive', gen_archive.builds(c.quick), 'random operations on builders')
    c.validate('Archive', gen_archive.existing(c.quick), 'archives created over damaged ones')


def crashing(c):
    impl(c, 'WriterImpl', ['zero', 'inplace', 'update', 'position', 'headerfirst', 'schemabefore', 'schemafirst', 'dataclosed'])
    if not c.quick:
        for g in ['temporary', 'lateindex']:
            c.model_check('WriterImpl', 'WriterImpl_' + g)
    for x in 'vm':
        c.validate('Archive', gen_archive.faulty_ops(c.generate('FaultGen', 'CrashGen_' + x)), 'files before each change, in all states of a resource')
    c.validate('Archive', gen_archive.snapshots(c.quick), 'files before each change')
    c.validate('Archive', gen_archive.unfinished(c.quick), 'archives opened while they are written')


def failing(c):
    c.prove('Buffer', ['partial', 'dropped'])
    impl(c, 'WriterImpl', ['short', 'ignored', 'inplace', 'position', 'schemabefore', 'dataclosed'])
    for x in 'vm':
        c.validate('Archive', gen_archive.faulty_ops(c.generate('FaultGen', 'FaultGen_' + x)), 'a fault in each call, in all states of a resource')
    c.validate('Archive', gen_archive.faults(c.quick), 'a fault in each call of each operation')
    c.validate('Archive', gen_archive.directories(c.quick), 'faults while directories are created')
    c.validate('Archive', gen_archive.big_faults(c.quick), 'faults while the buffer is flushed')
    c.validate('Storage', gen_storage.faulty_reads(c.quick), 'faults while resources are read')
    c.validate('Archive', gen_archive.faulty_opens(c.quick), 'faults while archives are opened')


def living(c):
    c.model_check('WriterImpl', 'WriterImplLive')
    for b in ['half', 'stuck', 'silent', 'double']:
        c.model_check('WriterImpl', 'WriterImpl_' + b, expect='violation')
    for cfg in ['LifeGen' if c.quick else 'LifeGenBig', 'LifeGenMem']:
        c.validate('Archive', c.generate('ArchiveGen', cfg), 'all transitions of two writers')
    c.validate('Archive', gen_archive.lives(c.quick), 'random histories of writers')
    c.validate('Archive', gen_archive.big_lives(c.quick), 'writers with data which is stored already')
    c.validate('Archive', gen_archive.failed_lives(c.quick), 'writers dropped or closed after an error')
    c.validate('MultiVector', gen_ext.narrow(c.quick), 'multivectors closed with more data than the index can address')


CHECKS['C12'] = opening
CHECKS['C13'] = creating
CHECKS['C15'] = crashing
CHECKS['C16'] = failing
CHECKS['C17'] = living


def untouched(c):
    """Reading changes nothing"""
    for g in ['StorageGen', 'StorageImplGen']:
        c.validate('Storage', gen_storage.watched(c.generate(g.replace('ImplGen', 'Impl'), g)), 'all transitions of a storage, watched')
    c.validate('Storage', gen_storage.untouched(c.quick), 'reads of resources, also without permission to write')
    c.validate('Storage', gen_storage.watched(gen_storage.damaged(True)[::17 if c.quick else 2]), 'reads of damaged resources')
    c.validate('Archive', gen_archive.untouched(c.quick), 'opened archives, also without permission to write')
    c.validate('Archive', gen_storage.watched(gen_archive.existing(c.quick)), 'archives which exist already')
    c.validate('Archive', gen_storage.watched(gen_archive.builds(c.quick, 'c21')), 'archives opened while resources are written')
    if not c.quick:
        c.validate('Archive', gen_storage.watched(gen_archive.opens(c.quick)), 'damaged archives')


def alone(c):
    """Writing changes nothing else"""
    for g in ['StorageGen', 'StorageGenMem', 'StorageImplGen', 'StorageImplGenMem']:
        c.validate('Storage', gen_storage.framed(c.generate(g[:11 if g.startswith('StorageI') else 10], g)), 'all transitions of a storage')
    c.validate('Storage', gen_storage.alone(c.quick), 'resources of similar names and with common files')
    c.validate('Storage', gen_storage.framed(gen_storage.anything(c.quick)), 'random operations on storages')
    for g in ['ArchiveGen', 'ArchiveGenMem', 'LifeGen', 'LifeGenMem']:
        c.validate('Archive', gen_archive.framed(c.generate('ArchiveGen', g)), 'all transitions of archives and writers')
    c.validate('Archive', gen_archive.framed(gen_archive.full(c.quick)), 'resources of complete archives written again')
    c.validate('Archive', gen_archive.framed(gen_archive.builds(c.quick, 'c23')), 'random operations on builders')
    c.validate('Archive', gen_archive.framed(gen_archive.faults(c.quick)), 'a fault in each call of each operation')
    c.validate('Archive', gen_archive.framed(gen_archive.big_lives(c.quick)), 'writers with data which is stored already')


CHECKS['C23'] = alone


def small(c):
    """Memory does not depend on the amount of data"""
    c.prove('Buffer', ['never'])
    impl(c, 'ExtImpl', ['keeps'])
    impl(c, 'MvImpl', ['keeps', 'ikeeps'])
    big = gen_ext.bounded(c.quick)
    for kind, module in [('ev', 'ExtVector'), ('mv', 'MultiVector')]:
        c.validate(module, [q for q in big if q[0]['kind'] == kind], 'memory needed to write', profile='both' if not c.quick else 'release', jobs=4)
    c.validate('Storage', gen_storage.bounded(c.quick), 'memory needed to read large files')
    c.validate('Archive', gen_archive.bounded(c.quick), 'memory needed to open an archive')
    c.validate('Wide', [gen_ext.metered(q, 'read') for q in gen_wide.arrays(True)], 'memory needed by views and iterators')


CHECKS['C21'] = untouched
CHECKS['C22'] = small


def equal(c):
    """Each history is executed with both storages"""
    for m in ['', 'Mem']:
        c.model_check('StorageImpl', 'StorageImpl' + m)
    for what, seqs in [
            ('all transitions of a storage with two resources', c.generate('StorageGen', 'StorageGen' if c.quick else 'StorageGenBig')),
            ('rewriting and reading through two handles', c.generate('StorageImpl', 'StorageImplGen')),
            ('all transitions of three archives in common directories', c.generate('ArchiveGen', 'ArchiveGen')),
            ('all transitions of two writers', c.generate('ArchiveGen', 'LifeGen' if c.quick else 'LifeGenBig')),
            ('all transitions of an external vector', c.generate('ExtVectorGen')),
            ('all transitions of a multivector', c.generate('MultiVectorGen')),
            ('random operations on storages', gen_storage.anything(c.quick)),
            ('data of many resources at once', gen_storage.many(True)),
            ('rewriting with data handed out', gen_storage.rewrites(c.quick)),
            ('damaged resources', gen_storage.damaged(True)[::7 if c.quick else 1]),
            ('builders and writers of archives', gen_archive.builds(c.quick, 'c14', True)),
            ('damaged archives', gen_archive.opens(c.quick)),
            ('archives opened while they are written', gen_archive.unfinished(c.quick)),
            ('external vectors', gen_ext.vectors(True)),
            ('multivectors', gen_ext.multivectors(True))]:
        c.validate('Pair', seqs, what)


CHECKS['C14'] = equal
