"""The properties and how their checks explore them."""
import subjects as S

CAT = dict(CONTENT=1 << 0, LIFE=1 << 1, CAP=1 << 2, ALLOC=1 << 3, REF=1 << 4, STRONG=1 << 5, ITER=1 << 6, CMP=1 << 7,
           ERRS=1 << 8, CPLX=1 << 9, ALIAS=1 << 10, RANGE=1 << 11, COPY=1 << 12, ARGS=1 << 13, HET=1 << 14, HINT=1 << 15,
           STATE=1 << 16, ERASE=1 << 17, VALID=1 << 18, CONF=1 << 19, PRECOND=1 << 20)
PROFILE_NAMES = ['general', 'capacity', 'alias', 'range', 'copy', 'error', 'iterator', 'comparison', 'erase', 'het', 'hint', 'map', 'insert', 'copy layouts']
GENERAL, CAPP, ALIAS, RANGE, COPY, ERR, ITER, CMPP, ERASE, HET, HINT, MAP, INS, COPYL = range(14)


def mask(s):
    m = 0
    for w in s.split():
        m |= CAT[w]
    return m


# What a model-based check of the contents reports.
MODEL = 'CONTENT ERASE RANGE COPY ALIAS ARGS HET HINT STATE LIFE ITER'
GEN = 'A case is a configuration row plus a random sequence of up to 60 operations over three to four containers of one instantiation, drawn by weight from the whole public interface; '

CONTIG = ['vector', 'small_vector', 'static_vector', 'compact_vector']
SEG = ['segmented_vector', 'segmented_devector']
ALLC = list(S.SEQ) + S.ASSOC


def both(letters):
    return S.seq(letters) + S.assoc(letters)


ASSOC_ORD = [c for c in S.ASSOC if 'unordered' not in c]
ASSOC_UNORD = [c for c in S.ASSOC if 'unordered' in c]
MULTI = [c for c in S.ASSOC if 'multi' in c]
UNIQ = [c for c in S.ASSOC if 'multi' not in c]
UMAPS = [c for c in UNIQ if c.endswith('map')]
ORD_U = [c for c in ASSOC_ORD if c in UNIQ]
ORD_M = [c for c in ASSOC_ORD if c in MULTI]
UN_U = [c for c in ASSOC_UNORD if c in UNIQ]
UN_M = [c for c in ASSOC_UNORD if c in MULTI]

EXPL = 'exploration'
FE = 'fault_enumeration'

# runs: (profile, weight, faults); `time` is the intended run time (s) of the quick tier on 8 cores.
PROPS = {}


def prop(pid, quick, thorough, mask_, runs, nontrivial, level=EXPL, **kw):
    PROPS[pid] = dict(id=pid, quick=quick, thorough=thorough, mask=mask(mask_), runs=runs, level=level, rule=GEN + nontrivial, **kw)


N_MODEL = 'a case is non-trivial when at least one growth by reallocation or spill out of internal storage and one removal or replacement took effect on a non-empty container (for associative containers: a rejected duplicate or an equivalent key, and a removal). Distinct = distinct hash of the executed operations.'

prop('C01', S.seq('abcd', CONTIG), S.seq('abcdefgh', CONTIG), MODEL + ' CMP ERRS', [(GENERAL, 3, 0), (RANGE, 1, 0), (ERASE, 1, 0)], N_MODEL, report_compile=True)
prop('C02', S.seq('abc', ['devector']), S.seq('abc', ['devector']), MODEL + ' CMP ERRS', [(GENERAL, 3, 0), (RANGE, 1, 0), (CAPP, 1, 0)], N_MODEL, report_compile=True)
prop('C03', S.seq('abcd', SEG), S.seq('abcdefgh', SEG), MODEL + ' CMP ERRS', [(GENERAL, 3, 0), (RANGE, 1, 0), (CAPP, 1, 0)], N_MODEL, report_compile=True)
for pid, cs in (('C04', ORD_U), ('C05', ORD_M), ('C06', UN_U), ('C07', UN_M)):
    prop(pid, S.assoc('abc', cs), S.assoc('abc', cs), MODEL + ' CMP ERRS', [(GENERAL, 3, 0), (RANGE, 1, 0), (ERASE, 1, 0)] + ([(MAP, 1, 0)] if pid in ('C04', 'C06') else []), N_MODEL, report_compile=True)
prop('C08', both('ab'), both('abc'), 'VALID', [(GENERAL, 2, 1), (RANGE, 1, 1), (COPY, 1, 1)],
     'in each case the last and one random operation are re-run once per fault point (element copy/move/construct, comparison, predicate, allocation): the k-th point of the operation throws, for every k until the operation completes. A case is non-trivial when the fault fired.', level=FE)
prop('C09', both('ab'), both('abc'), 'STRONG', [(GENERAL, 1, 1), (CAPP, 2, 1)],
     'every fault point of the last and of one random operation is enumerated. A case is non-trivial when the fault fired.', level=FE)
prop('C10', both('ab'), both('abc'), 'LIFE ALLOC', [(GENERAL, 1, 0), (COPY, 1, 0), (GENERAL, 2, 1)],
     'half of the run enumerates the fault points of operations. ' + N_MODEL, level=FE)
prop('C11', S.seq('ab', [c for c in S.SEQ if c != 'static_vector']) + S.seq('c', ['vector', 'small_vector', 'devector', 'segmented_vector', 'segmented_devector', 'compact_vector']) + S.assoc('ab', [c for c in S.ASSOC if c.startswith('small')]),
     S.seq('abcdefgh', [c for c in S.SEQ if c != 'static_vector']) + S.assoc('abc', [c for c in S.ASSOC if c.startswith('small')]),
     'ALLOC', [(COPY, 3, 0), (GENERAL, 1, 0), (COPY, 1, 1)], N_MODEL)
prop('C12', both('a') + S.seq('bd', ['small_vector', 'static_vector', 'segmented_vector', 'segmented_devector', 'devector', 'vector', 'compact_vector']), both('abc'), 'CAP', [(CAPP, 3, 0), (GENERAL, 1, 0), (COPY, 1, 0)], N_MODEL)
prop('C13', S.seq('ab'), S.seq('abcdefgh'), 'REF', [(GENERAL, 1, 0), (CAPP, 1, 0), (COPY, 1, 0)], N_MODEL)
prop('C14', both('ab'), both('abc'), 'ALIAS', [(ALIAS, 1, 0)], 'argument of the operation is an element of the container itself. ' + N_MODEL)
prop('C15', both('ab'), both('abc'), 'CMP', [(CMPP, 1, 0)], N_MODEL)
prop('C16', both('ab'), both('abc'), 'ITER', [(ITER, 1, 0)], N_MODEL)
prop('C17', S.assoc('ab'), S.assoc('abc'), 'HET', [(HET, 1, 0)], N_MODEL)
prop('C18', S.assoc('ab'), S.assoc('abc'), 'HINT', [(HINT, 1, 0)], N_MODEL)
prop('C19', both('ab'), both('abc'), 'COPY', [(COPY, 1, 0)], N_MODEL)
prop('C20', both('ab'), both('abc'), 'ERRS', [(ERR, 1, 0)], N_MODEL)
prop('C21', both('ab'), both('abc'), 'RANGE', [(RANGE, 1, 0)], N_MODEL)
prop('C22', both('X'), both('X'), 'CPLX', [(GENERAL, 1, 0)], 'a case is non-trivial when at least three measured operations ran on a container of 200 (associative: 100) or more elements. Distinct = distinct hash of the executed operations.', mode='cov', rate=2000.0)
PROPS['C22']['rule'] = 'A case builds one container of up to 3000 elements and measures up to 24 operations drawn from the public interface against the documented complexity; ' + PROPS['C22']['rule'][len(GEN):]
prop('C23', S.assoc('ab'), S.assoc('abc'), 'STATE', [(COPY, 1, 0)], N_MODEL)
prop('C24', [], [], '', [], '')
PROPS['C24'].update(module='confcheck', rule='A case is one random history of up to 40 operations over two containers of one instantiation, run in every configuration (compiler, language standard, optimisation, NDEBUG, SFL_NO_EXCEPTIONS) and compared by a digest of everything observed after each operation (results, contents, capacity, allocator, live elements, allocations). An evaluation is a history in one configuration; a history is non-trivial when a container held more than three elements; distinct = distinct digest.')
prop('C25', both('P'), both('P'), 'PRECOND', [(GENERAL, 1, 0)], 'a case is non-trivial when at least three violating calls were made. Distinct = distinct hash of the executed operations.', rate=60000.0)
PROPS['C25']['rule'] = 'A case brings containers of one instantiation into random states and makes up to 60 calls, each violating one documented precondition; ' + PROPS['C25']['rule'][len(GEN):]
prop('C26', S.assoc('ab', UNIQ), S.assoc('abc', UNIQ), 'ARGS', [(MAP, 1, 0), (GENERAL, 1, 0)], N_MODEL)

prop('C27', both('a'), both('abc'), '', [(GENERAL, 2, 0), (RANGE, 1, 0), (ERASE, 1, 0), (GENERAL, 1, 1)], 'every operation runs under AddressSanitizer and UndefinedBehaviorSanitizer; a second part runs histories with up to 3000 elements under both and under MemorySanitizer. ' + N_MODEL, mode='san', rate=40000.0, fault_rate=1500.0, extra='confcheck')

for pid in ('C28', 'C29'):
    prop(pid, [], [], '', [], '')
PROPS['C28'].update(module='confcheck', rule='A case is one random history of up to 40 operations over two containers of one instantiation; every read-only operation in it (accessors, lookups, iteration, comparisons, copying from it) runs while the container object and its allocated blocks are write-protected pages. An evaluation is a history in one build (with and without protection); a history is non-trivial when a container held more than three elements; distinct = distinct digest of all observations.')
PROPS['C29'].update(module='confcheck', rule='A case is one random history of up to 40 operations over two containers of one instantiation, run with ordinary element, comparator and allocator types and with unusual but conforming ones, and compared by a digest of everything observed. An evaluation is a history with one set of types; a history is non-trivial when a container held more than three elements; distinct = distinct digest.')


for pid, cs in (('C01', CONTIG), ('C02', ['devector']), ('C03', SEG), ('C04', ORD_U), ('C05', ORD_M), ('C06', UN_U), ('C07', UN_M)):
    PROPS[pid].update(extra='hugecheck', huge=cs, types=cs, judged='1')
PROPS['C11'].update(extra='hugecheck', types=[c for c in S.SEQ if c != 'static_vector'] + [c for c in S.ASSOC if c.startswith('small')], judged='4')
PROPS['C15'].update(extra='hugecheck', types=list(S.SEQ) + S.ASSOC, judged='2')
PROPS['C29'].update(types=list(S.SEQ) + S.ASSOC, judged='7')

prop('C30', [], [], '', [], '')
PROPS['C30'].update(module='hugecheck', conts=list(S.SEQ) + S.ASSOC, rule='A case is one random history of up to 60 standard algorithms (iterator and ranges forms, on iterators, const and reverse iterators, insert iterators, views and spans) on two containers of one instantiation and on two std::vectors with the same elements; results and elements are compared after each. A case is non-trivial when the container held more than two elements; distinct = distinct hash of the executed algorithms, sizes and positions.')


LAYOUTS = ('C08', 'C10', 'C11', 'C12', 'C13', 'C19', 'C23')


def plan(pid, tier):
    """The engine runs of one check: same binary, one run per profile."""
    p = PROPS[pid]
    out = []
    wsum = sum(w for _, w, _ in p['runs'])
    if tier == 'quick':
        chunks = p['quick']
        subjects = sum(len(S.chunk_types(c)) for c in chunks)
        secs = p.get('time', 14)
        # measured: about 75000 plain cases per second, and 2500 cases with all their fault points
        for prof, w, faults in p['runs']:
            rate = (p.get('fault_rate') if faults else None) or p.get('rate') or (2500.0 if faults else 75000.0)
            cases = int(secs * w / wsum * rate * 1.0 / subjects)
            cases = max(cases, 20)
            part = dict(chunks=chunks, mode=p.get('mode', 'plain'), mask=p['mask'], profile=prof, cases=cases, faults=bool(faults), rows=60)
            if faults:
                # most fault points are enumerated in short histories
                out.append(dict(part, cases=max(20, cases // 2)))
                out.append(dict(part, cases=max(20, cases * 3), rows=10))
            else:
                out.append(part)
        if pid in ('C08', 'C09', 'C10'):
            # every fault point of single insertions into chosen layouts; devector has the most cases to distinguish
            base = dict(mode=p.get('mode', 'plain'), mask=p['mask'], profile=INS, faults=True, rows=3)
            out.append(dict(base, chunks=S.seq('ab', ['devector']), cases=3000))
            out.append(dict(base, chunks=S.seq('ab', [c for c in S.SEQ if c != 'devector']), cases=400))
            out.append(dict(base, chunks=S.assoc('ab'), cases=400))
        if pid in LAYOUTS:
            # copying, moving, assigning and swapping containers whose sizes are near N and whose storage is chosen
            base = dict(mode=p.get('mode', 'plain'), mask=p['mask'], profile=COPYL, rows=3, chunks=[c for c in chunks if c[-1] in 'abc'])
            if pid in ('C08', 'C10', 'C11'):
                out.append(dict(base, cases=500, faults=True))
            if pid not in ('C08',):
                out.append(dict(base, cases=1500, faults=False))
        return out
    chunks = p['thorough']
    subjects = sum(len(S.chunk_types(c)) for c in chunks)
    for mode, secs in ((p['mode'], 600),) if 'mode' in p else (('san', 240), ('opt', 600)):
        for prof, w, faults in p['runs']:
            rate = (p.get('fault_rate') if faults else None) or p.get('rate') or (3000.0 if faults else 150000.0) * (0.15 if mode == 'san' else 1)
            cases = max(20, int(secs * w / wsum * rate / subjects))
            out.append(dict(chunks=chunks, mode=mode, mask=p['mask'], profile=prof, cases=cases, faults=bool(faults), rows=60, wall=1500, fault_cap=400))
            out.append(dict(chunks=chunks, mode=mode, mask=p['mask'], profile=prof, cases=max(20, cases // 12), faults=bool(faults), rows=300, wall=900, fault_cap=400))
        if pid in ('C08', 'C09', 'C10'):
            out.append(dict(chunks=S.seq('abcdefgh') + S.assoc('abc'), mode=mode, mask=p['mask'], profile=INS, cases=1000 if mode == 'san' else 5000, faults=True, rows=3, wall=600, fault_cap=400))
        if pid in LAYOUTS:
            out.append(dict(chunks=chunks, mode=mode, mask=p['mask'], profile=COPYL, cases=1000 if mode == 'san' else 5000, faults=pid in ('C08', 'C10', 'C11'), rows=4, wall=600, fault_cap=400))
    return out
