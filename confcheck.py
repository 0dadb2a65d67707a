"""C24: the same histories in several configurations of compiler, language standard,
optimisation, NDEBUG and SFL_NO_EXCEPTIONS give the same observations."""
import hashlib
import json
import os
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import hugecheck
import run as R
import subjects as S

NOEXC = ['-fno-exceptions', '-DSFL_NO_EXCEPTIONS']
# The first one is the reference.
CONFIGS = [
    ('clang++', ['-std=c++17', '-O0']),
    ('g++', ['-std=c++11', '-O2', '-DNDEBUG']),
    ('g++', ['-std=c++14', '-O1'] + NOEXC),
    ('clang++', ['-std=c++11', '-O1', '-DNDEBUG'] + NOEXC),
    ('clang++', ['-std=c++20', '-O2', '-DNDEBUG']),
    ('g++', ['-std=c++23', '-O3', '-DNDEBUG', '-fno-strict-aliasing']),
]
MORE = [
    ('clang++', ['-std=c++14', '-O3']),
    ('g++', ['-std=c++17', '-O3']),
    ('g++', ['-std=c++20', '-O2']),
    ('clang++', ['-std=c++23', '-O1'] + NOEXC),
    ('g++', ['-std=c++17', '-O3', '-DNDEBUG'] + NOEXC),
    ('g++', ['-std=gnu++11', '-Os']),
    ('clang++', ['-std=c++17', '-O3', '-DNDEBUG', '-fsanitize=undefined', '-fno-sanitize-recover=all', '-fno-sanitize=nonnull-attribute']),
    ('g++', ['-std=c++20', '-O2', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_DEBUG']),
]
# C27: sanitizers instead of configurations.
SANITIZERS = [
    ('clang++', ['-std=c++17', '-O0']),
    ('clang++', ['-std=c++17', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=nonnull-attribute']),
    ('clang++', ['-std=c++17', '-O1', '-g1', '-fsanitize=memory']),
]
# C28: the container is read-only memory while it is only read.
FREEZE = [
    ('clang++', ['-std=c++17', '-O0']),
    ('clang++', ['-std=c++17', '-O0', '-DCONF_FREEZE']),
]
# C29: the reference types, and unusual ones.
VARIANTS = [
    ('clang++', ['-std=c++17', '-O0']),
    ('clang++', ['-std=c++17', '-O1', '-DVARIANT=1']),
    ('g++', ['-std=c++11', '-O1', '-DVARIANT=2']),
    ('clang++', ['-std=c++17', '-O0', '-DVARIANT=3']),
]
MORE_VARIANTS = [
    ('g++', ['-std=c++20', '-O1', '-DVARIANT=1']),
    ('clang++', ['-std=c++20', '-O1', '-DVARIANT=2']),
    ('g++', ['-std=c++20', '-O1', '-DVARIANT=3']),
    ('g++', ['-std=c++11', '-O1', '-DVARIANT=3']),
    ('clang++', ['-std=c++11', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=nonnull-attribute', '-DVARIANT=1']),
]
ROWS = 40

KIND = {'vector': 'K_VEC', 'small_vector': 'K_SMALL', 'static_vector': 'K_STATIC', 'compact_vector': 'K_COMPACT',
        'devector': 'K_DEV', 'segmented_vector': 'K_SEG', 'segmented_devector': 'K_SEGDEV'}
SEQ_N = {'small_vector': (4, 9), 'static_vector': (13, 5), 'segmented_vector': (3, 8), 'segmented_devector': (2, 5)}


def cname(cfg):
    return cfg[0] + ' ' + ' '.join(cfg[1])


def cont_subjects(cont):
    """[(name, macro-free C++ line)] of one container."""
    out = []
    for i, (T, prop) in enumerate((('El', 'true'), ('int' if cont in ('vector', 'devector', 'segmented_vector', 'small_vector') else 'Elt', 'false'), ('Elt' if cont in ('vector', 'devector', 'segmented_vector', 'small_vector') else 'int', 'true'))):
        if cont in S.SEQ:
            T = {'El': 'Es', 'Elt': 'Est'}.get(T, T)
            args = [T] + ([str(SEQ_N[cont][i % 2])] if cont in SEQ_N else [])
            if cont != 'static_vector':
                args.append('Al<%s,%s>' % (T, prop))
            t = 'sfl::%s<%s>' % (cont, ', '.join(args))
            d = 'Seq<T%d_%s, %s, %s>' % (i, cont, KIND[cont], prop)
        else:
            kind, name = cont.split('_', 1)
            fn = 'Eq' if name.startswith('unordered') else 'Less'
            is_map = name.endswith('map')
            M = ('int', 'El', 'Elt')[i]
            args = [T] + ([M] if is_map else []) + [str((13, 24, 7)[i] if kind == 'static' else (3, 0, 6)[i]), fn]
            if kind == 'small':
                args.append('Al<%s,%s>' % ('std::pair<%s,%s>' % (T, M) if is_map else T, prop))
            t = 'sfl::%s<%s>' % (cont, ', '.join(args))
            flags = ' | '.join(['M_SET'] + (['M_MAP'] if is_map else []) + (['M_MULTI'] if 'multi' in name else []) + (['M_UNORD'] if fn == 'Eq' else []) + (['M_STATIC'] if kind == 'static' else []))
            d = 'Assoc<T%d_%s, %s, %s, %s>' % (i, cont, fn, flags, prop)
        out.append((t, 'typedef %s T%d_%s; static Reg r%d_%s("%s", &%s::run);' % (t, i, cont, i, cont, t, d)))
    return out


ALL = list(S.SEQ) + S.ASSOC
TUS = [ALL[i::8] for i in range(8)]


def tu_text(conts, only=None):
    out = ['#include "sfl/%s.hpp"' % c for c in conts] + ['#include "conf/conf.hpp"', 'using namespace cf;']
    for c in conts:
        out += [l for n, l in cont_subjects(c) if only is None or n in only]
    return '\n'.join(out) + '\n'


KEY = []


def build(cfg, conts, only=None):
    """-> (binary, error)"""
    if not KEY:
        KEY.append(R.digest_files(R.tree(os.path.join(R.REPO, 'include')) + R.tree(os.path.join(R.SRC, 'conf'))))
    cc, flags = cfg
    text = tu_text(conts, only)
    cmd = [cc] + flags + ['-w', '-I', os.path.join(R.REPO, 'include'), '-I', R.SRC]
    h = hashlib.sha256((KEY[0] + text + ' '.join(cmd)).encode()).hexdigest()[:24]
    out = os.path.join(R.BUILD, 'conf_' + h)
    if os.path.exists(out):
        os.utime(out)
        return out, ''
    src = out + '.%d.cpp' % os.getpid()
    with open(src, 'w') as f:
        f.write(text)
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run(cmd + [src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    os.unlink(src)
    if r.returncode:
        return None, r.stdout
    os.rename(tmp, out)
    return out, ''


FROZEN = []


def digests(binary, subject, seed, frm, to):
    """-> ({index: (digest, nontrivial)}, status, tail of stderr)"""
    try:
        r = subprocess.run([binary, 'digests', subject, str(seed), str(frm), str(to), str(ROWS)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=3600 if to - frm > 10000 else 400)
    except subprocess.TimeoutExpired as e:
        r = subprocess.CompletedProcess([], -99, (e.stdout or b'').decode(errors='replace'), 'timeout')
    d = {}
    for l in r.stdout.split('\n'):
        f = l.split()
        if len(f) == 4:
            d[int(f[0])] = (f[1], f[2] == '1', int(f[3]))
        elif len(f) == 2 and f[0] == 'frozen':
            FROZEN.append(int(f[1]))
    # a program that ends early without an error has not done what it was asked to do either
    return d, r.returncode or (-98 if len(d) != to - frm else 0), r.stderr[-600:]


def trace(binary, subject, seed, idx, kept=None):
    cmd = [binary, 'trace', subject, str(seed), str(idx), str(ROWS)]
    if kept is not None:
        cmd.append(','.join(map(str, kept)) or 'x')
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=60)
    except subprocess.TimeoutExpired:
        return ['timeout'], -1
    return r.stdout.split('\n'), r.returncode or (0 if '\ndigest ' in r.stdout or r.stdout.startswith('digest ') else -98)


def differ(a, b, subject, seed, idx, kept):
    ta, ra = trace(a, subject, seed, idx, kept)
    tb, rb = trace(b, subject, seed, idx, kept)
    return ra != 0 or rb != 0 or ta != tb


def shrink(a, b, subject, seed, idx, n):
    kept = list(range(n))
    if not differ(a, b, subject, seed, idx, kept):
        return None
    step = max(1, len(kept) // 2)
    while True:
        i, changed = 0, False
        while i < len(kept):
            cand = kept[:i] + kept[i + step:]
            if differ(a, b, subject, seed, idx, cand):
                kept, changed = cand, True
            else:
                i += step
        if step == 1 and not changed:
            return kept
        step = max(1, step // 2)


def describe(a, b, names, subject, seed, idx, kept):
    ta, ra = trace(a, subject, seed, idx, kept)
    tb, rb = trace(b, subject, seed, idx, kept)
    i = 0
    while i < min(len(ta), len(tb)) and ta[i] == tb[i]:
        i += 1
    out = ['common observations:'] + ['  ' + l for l in ta[:i]]
    out += ['%s (status %d):' % (names[0], ra)] + ['  ' + l for l in ta[i:i + 6]]
    out += ['%s (status %d):' % (names[1], rb)] + ['  ' + l for l in tb[i:i + 6]]
    return '\n'.join(out)


def evidence(prop, p, tier, seed, t0, cov, rc):
    with open(os.path.join(R.EVIDENCE, prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': p['level'], 'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'violations': rc}, f, indent=1)


def plan(prop, tier):
    """-> (configurations, histories per subject)"""
    deep = tier != 'quick'
    if prop == 'C24':
        return CONFIGS + (MORE if deep else []), 60000 if deep else 2000
    if prop == 'C27':
        return SANITIZERS, 200000 if deep else 4000
    if prop == 'C28':
        return FREEZE, 100000 if deep else 3000
    return VARIANTS + (MORE_VARIANTS if deep else []), 100000 if deep else 4000


def check(prop, p, tier, seed, t0):
    rc, cov = explore(prop, p, tier, seed, *plan(prop, tier))
    if rc == 0 and 'types' in p:
        rc, c = hugecheck.extra(prop, p, tier, seed)
        cov['evaluations'] += c['evaluations']
        cov['distinct_nontrivial'] += c['distinct_nontrivial']
        cov['samples'] = cov['samples'][:5] + c.pop('samples')
        cov['second_part'] = c
    evidence(prop, p, tier, seed, t0, cov, rc)
    print('%s %s: %d executions in %d configurations, %d distinct non-trivial, %.1f s' % (prop, tier, cov['evaluations'], len(cov['configurations']), cov['distinct_nontrivial'], time.time() - t0))
    return rc


def extra(prop, p, tier, seed):
    """The second part of C27."""
    return explore(prop, p, tier, seed, *plan(prop, tier))


def explore(prop, p, tier, seed, configs, cases):
    R.prune()
    os.makedirs(R.BUILD, exist_ok=True)
    rp = os.path.join(R.REPLAYS, prop + '.replay')
    rc = 0
    bins = {}
    jobs = [(ci, ti) for ti in range(len(TUS)) for ci in range(len(configs))]
    with ThreadPoolExecutor(R.JOBS) as ex:
        for (ci, ti), (out, err) in zip(jobs, ex.map(lambda j: build(configs[j[0]], TUS[j[1]]), jobs)):
            bins[ci, ti] = out
            if out is None and rc == 0:
                rc = 1
                with open(rp, 'w') as f:
                    json.dump({'kind': 'compile', 'config': configs[ci], 'conts': TUS[ti], 'text': err[:4000]}, f, indent=1)
                print('does not compile with %s: %s' % (cname(configs[ci]), R.first_error(err)))
    subs = [(ti, n) for ti, cs in enumerate(TUS) for c in cs for n, _ in cont_subjects(c)]
    runs = [(ci, ti, n) for ti, n in subs for ci in range(len(configs)) if bins[ci, ti]]
    evals, distinct, per = 0, set(), {cname(c): 0 for c in configs}
    samples = []
    if rc == 0:
        res = {}
        with ThreadPoolExecutor(R.JOBS) as ex:
            for r, d in zip(runs, ex.map(lambda r: digests(bins[r[0], r[1]], r[2], seed, 0, cases), runs)):
                res[r] = d
        for ti, n in subs:
            base, st0, err0 = res[0, ti, n]
            for i, (dg, nt, _) in base.items():
                if nt:
                    distinct.add((n, dg))
            for ci in range(len(configs)):
                d, st, err = res[ci, ti, n]
                evals += len(d)
                per[cname(configs[ci])] += len(d)
                bad = [i for i in sorted(d) if i in base and d[i][0] != base[i][0]]
                if st != 0 or st0 != 0:
                    # the history that ended the program comes after the last one printed
                    done = len(d) if st != 0 else len(base)
                    if not bad:
                        for i in range(max(0, done - 70), cases):
                            if trace(bins[ci, ti] if st != 0 else bins[0, ti], n, seed, i)[1] != 0:
                                bad = [i]
                                break
                if (bad or st or st0) and rc == 0:
                    rc = 1
                    other = ci if ci else 1
                    i = bad[0] if bad else 0
                    a, b = bins[0, ti], bins[other, ti]
                    kept = shrink(a, b, n, seed, i, ROWS)
                    names = (cname(configs[0]), cname(configs[other]))
                    text = describe(a, b, names, n, seed, i, kept)
                    with open(rp, 'w') as f:
                        json.dump({'kind': 'differ', 'configs': [configs[0], configs[other]], 'conts': TUS[ti], 'subject': n, 'seed': seed, 'index': i, 'rows': kept, 'text': text.split('\n')}, f, indent=1)
                    print('%s, history %d: %s and %s disagree' % (n, i, names[0], names[1]))
                    print('\n'.join(text.split('\n')[-14:]))
        for ti, n in subs[::max(1, len(subs) // 6)]:
            t, _ = trace(bins[0, ti], n, seed, 3)
            samples.append({'subject': n, 'history': [l.strip() for l in t if l.startswith('  [')][:12]})
    if rc:
        R.violation(prop, rp)
    cov = {'rule': p['rule'], 'evaluations': evals, 'distinct_nontrivial': len(distinct), 'histories_per_configuration': per,
           'configurations': [cname(c) for c in configs], 'subjects': [n for _, n in subs], 'samples': samples}
    if FROZEN:
        cov['read_only_operations_with_protected_memory'] = sum(FROZEN)
    return rc, cov


def replay(prop, p, path):
    with open(path) as f:
        d = json.load(f)
    if 'driver' in d:
        return hugecheck.replay(prop, p, path)
    if d['kind'] == 'compile':
        out, err = build((d['config'][0], d['config'][1]), d['conts'])
        print('compiles' if out else R.first_error(err))
        return 0 if out else 1
    bins = []
    for c in d['configs']:
        out, err = build((c[0], c[1]), d['conts'])
        if out is None:
            print(R.first_error(err))
            return 1
        bins.append(out)
    bad = differ(bins[0], bins[1], d['subject'], d['seed'], d['index'], d['rows'])
    print(describe(bins[0], bins[1], [cname(c) for c in d['configs']], d['subject'], d['seed'], d['index'], d['rows']))
    if bad:
        R.violation(prop, path)
    return 1 if bad else 0
