"""Catalogue of the instantiations under test, in chunks of up to three subjects.

A chunk is one translation unit. Chunk 'a' of a container is its core; the letters
after it add element types, allocators and sizes."""

SEQ_EL = {  # element type, allocator flags
    'a': [('ObT', '0'), ('ObN', 'POCCA|POCMA|POCS|SOCCC'), ('Tc', 'FANCY|POCS|POCMA')],
    'b': [('ObMo', 'POCMA'), ('CopyOnly', 'POCCA'), ('ObN', 'FANCY|ALWAYS_EQ|POCCA|POCMA|POCS')],
    'c': [('ObT', 'POCS|POCCA'), ('ObMoT', 'ALWAYS_EQ|SOCCC'), ('int', 'STD')],
}
# container -> {letter: (element letter, N)}
SEQ = {
    'vector': {'a': ('a', None), 'b': ('b', None), 'c': ('c', None)},
    'compact_vector': {'a': ('a', None), 'b': ('b', None), 'c': ('c', None)},
    'devector': {'a': ('a', None), 'b': ('b', None), 'c': ('c', None)},
    'small_vector': {'a': ('a', 4), 'b': ('b', 1), 'c': ('c', 0), 'd': ('a', 9), 'e': ('b', 4), 'f': ('c', 5), 'g': ('a', 1), 'h': ('b', 0)},
    'static_vector': {'a': ('a', 13), 'b': ('b', 4), 'c': ('c', 2), 'd': ('a', 1), 'e': ('b', 13), 'f': ('c', 13)},
    'segmented_vector': {'a': ('a', 3), 'b': ('b', 2), 'c': ('c', 1), 'd': ('a', 8), 'e': ('b', 3), 'f': ('c', 2), 'g': ('a', 1), 'h': ('b', 8)},
    'segmented_devector': {'a': ('a', 3), 'b': ('b', 2), 'c': ('c', 1), 'd': ('a', 8), 'e': ('b', 3), 'f': ('c', 2), 'g': ('a', 1), 'h': ('b', 8)},
}
ASSOC_SMALL = {  # key, mapped, allocator flags, transparent comparator, N
    'a': [('ObT', 'ObT', '0', True, 4), ('ObN', 'ObN', 'POCCA|POCMA|POCS|SOCCC', False, 0), ('Tc', 'Tc', 'FANCY|POCS|POCMA', True, 9)],
    'b': [('ObN', 'ObT', 'ALWAYS_EQ|POCCA|POCMA|POCS', True, 1), ('ObMo', 'ObMo', 'POCMA', True, 4), ('CopyOnly', 'ObN', 'POCCA', False, 3)],
    'c': [('ObN', 'ObMo', 'FANCY', True, 2), ('ObMoT', 'ObMoT', 'ALWAYS_EQ|SOCCC', False, 2), ('int', 'int', 'STD', True, 5)],
}
ASSOC_STATIC = {
    'a': [('ObT', 'ObT', '', True, 13), ('ObN', 'ObN', '', False, 4), ('Tc', 'Tc', '', True, 24)],
    'b': [('ObMo', 'ObMo', '', True, 7), ('CopyOnly', 'ObN', '', False, 13), ('ObN', 'ObMo', '', True, 24)],
    'c': [('Tc', 'Tc', '', True, 2), ('int', 'int', '', False, 1), ('ObT', 'ObN', '', False, 5)],
}
ASSOC_NAMES = ['flat_set', 'flat_map', 'flat_multiset', 'flat_multimap',
               'unordered_flat_set', 'unordered_flat_map', 'unordered_flat_multiset', 'unordered_flat_multimap']
ASSOC = [p + '_' + n for n in ASSOC_NAMES for p in ('small', 'static')]


def alloc(T, flags):
    return 'std::allocator<%s>' % T if flags == 'STD' else 'Tal<%s, %s>' % (T, flags)


def seq_chunk(cont, letter):
    el, n = SEQ[cont][letter]
    out = []
    for T, fl in SEQ_EL[el]:
        args = [T]
        if n is not None:
            args.append(str(n))
        if cont != 'static_vector':
            args.append(alloc(T, fl))
        out.append('%s<%s>' % (cont, ', '.join(args)))
    return list(dict.fromkeys(out))


def assoc_chunk(cont, letter):
    kind, name = cont.split('_', 1)
    is_map = name.endswith('map')
    fn = 'Eq' if name.startswith('unordered') else 'Less'
    out = []
    for K, M, fl, tr, n in (ASSOC_SMALL if kind == 'small' else ASSOC_STATIC)[letter]:
        args = [K] + ([M] if is_map else []) + [str(n), '%s<%s>' % (fn, 'true' if tr else 'false')]
        if kind == 'small':
            args.append(alloc('std::pair<%s, %s>' % (K, M) if is_map else K, fl))
        out.append('%s<%s>' % (cont, ', '.join(args)))
    return out


CPLX_N = {'small_vector': [8, 40], 'static_vector': [2048], 'segmented_vector': [4, 32], 'segmented_devector': [4, 32]}


def cplx_chunk(cont):
    """Instantiations for the operation counts: a counted type and a plain one."""
    if cont in SEQ:
        out = []
        for n in CPLX_N.get(cont, [None]):
            for T, fl in (('ObN', '0'), ('int', 'STD')):
                out.append('%s<%s>' % (cont, ', '.join([T] + ([str(n)] if n else []) + ([alloc(T, fl)] if cont != 'static_vector' else []))))
        return out
    kind, name = cont.split('_', 1)
    fn = 'Eq' if name.startswith('unordered') else 'Less'
    out = []
    for T, fl in (('ObN', '0'), ('int', 'STD')):
        args = [T] + ([T] if name.endswith('map') else []) + ['16' if kind == 'small' else '600', fn + '<true>']
        if kind == 'small':
            args.append(alloc('std::pair<%s, %s>' % (T, T) if name.endswith('map') else T, fl))
        out.append('%s<%s>' % (cont, ', '.join(args)))
    return out


PRE_N = {'small_vector': [0, 3, 10], 'static_vector': [1, 4, 20], 'segmented_vector': [1, 4], 'segmented_devector': [1, 4]}


def pre_chunk(cont):
    """Instantiations for the preconditions: plain elements, allocators that differ."""
    if cont in SEQ:
        return ['%s<%s>' % (cont, ', '.join(['int'] + ([str(n)] if n is not None else []) + ([alloc('int', '0')] if cont != 'static_vector' else []))) for n in PRE_N.get(cont, [None])]
    kind, name = cont.split('_', 1)
    fn = 'Eq' if name.startswith('unordered') else 'Less'
    is_map = name.endswith('map')
    out = []
    for n in ((0, 4) if kind == 'small' else (1, 4, 20)):
        args = ['int'] + (['int'] if is_map else []) + [str(n), fn + '<true>']
        if kind == 'small':
            args.append(alloc('std::pair<int, int>' if is_map else 'int', '0'))
        out.append('%s<%s>' % (cont, ', '.join(args)))
    return out


def chunk_types(chunk):
    cont, letter = chunk.split(':')
    if letter == 'P':
        return pre_chunk(cont)
    if letter == 'X':
        return cplx_chunk(cont)
    return seq_chunk(cont, letter) if cont in SEQ else assoc_chunk(cont, letter)


def chunk_source(chunk, only=None, extra=''):
    cont = chunk.split(':')[0]
    macro, hdr = ('SEQ', 'seq.hpp') if cont in SEQ else ('ASSOC', 'assoc.hpp')
    if chunk.endswith(':X'):
        macro, hdr = 'CPLX_' + macro, 'cplx.hpp'
    if chunk.endswith(':P'):
        macro, hdr = 'PRE_' + macro, 'pre.hpp'
    lines = ['#include "%s"' % hdr, 'using namespace ob;']
    for i, t in enumerate(chunk_types(chunk)):
        if only is None or i in only:
            lines.append('%s("%s", sfl::%s);' % (macro, t, t))
    return '\n'.join(lines) + '\n' + extra


def seq(letters, conts=None):
    return [c + ':' + l for c in (conts or SEQ) for l in letters if l in SEQ[c] or l in 'XP']


def assoc(letters, conts=None):
    return [c + ':' + l for c in (conts or ASSOC) for l in letters]
