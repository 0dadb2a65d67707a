"""Second part of C01-C07: histories over large containers (some 2^8 to 2^17 elements, and more than
2^31 and 2^32 elements of one byte), against models that do not need as much memory.
Third part of C01-C07, and second part of C11, C15 and C29: containers of built-in and standard library types.
C30: standard algorithms on the containers against the same algorithms on std::vector."""
import hashlib
import json
import os
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import run as R
import subjects as S

FLAGS = {'huge': ['clang++', '-std=c++17', '-O2', '-w'],
         'types': ['clang++', '-std=c++17', '-O0', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=nonnull-attribute', '-DNO_LIMIT'],
         'alg': ['clang++', '-std=c++20', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=nonnull-attribute', '-DNO_LIMIT']}
ALG_N = {'small_vector': ('4', '30', '1'), 'static_vector': ('40', '200', '13'), 'segmented_vector': ('3', '8', '1'), 'segmented_devector': ('2', '5', '1')}
SEQ_N = {'small_vector': ('300', '70000', '1000'), 'static_vector': ('70000', '33000', '(1ull << 32) + 2000'),
         'segmented_vector': ('1024', '7', '4096', '65536'), 'segmented_devector': ('500', '8', '65537', '70000')}
MAPPED = {'map', 'multimap'}


def alg_subjects(cont):
    if cont in S.SEQ:
        ts = ['sfl::%s<alg::E, %s>' % (cont, n) for n in ALG_N[cont]] if cont in ALG_N else ['sfl::%s<alg::E>' % cont]
        return [(t, 'alg::Seq<%s>' % t, 60) for t in ts]
    kind, name = cont.split('_', 1)
    m = name.endswith('map')
    t = 'sfl::%s<int, %s%d>' % (cont, 'int, ' if m else '', 60 if kind == 'static' else 6)
    return [(t, 'alg::Assoc<%s, %s>' % (t, 'true' if m else 'false'), 60)]


TYPES = ['bool', 'signed char', 'double', 'long double', 'ty::Small', 'int ty::Rec::*', 'ty::Mf', 'ty::Fp', 'int*', 'std::string', 'std::unique_ptr<int>', 'std::shared_ptr<int>',
         'std::vector<int>', 'std::any', 'std::optional<int>', 'std::variant<int, std::string>', 'std::array<short, 3>', 'ty::Agg', 'std::reference_wrapper<int>',
         'std::pair<int, std::string>', 'sfl::vector<int>', 'std::pmr::string']
TYPES_N = {'small_vector': '5', 'static_vector': '30', 'segmented_vector': '3', 'segmented_devector': '3'}
PMR = 'std::pmr::polymorphic_allocator<%s>'
ORD_KEYS = [('signed char', 'std::less<>'), ('double', 'std::greater<double>'), ('std::string', 'std::less<>'), ('std::unique_ptr<int>', 'ty::PtrLess'), ('std::string', 'ty::BySize'), ('std::string', 'ty::Fn'),
            ('std::pair<int, std::string>', 'std::less<std::pair<int, std::string>>'), ('int*', 'std::less<int*>'), ('int', 'ty::Last'), ('std::pmr::string', 'std::less<>')]
UN_KEYS = [('signed char', 'std::equal_to<>'), ('double', 'std::equal_to<double>'), ('std::string', 'std::equal_to<>'), ('std::unique_ptr<int>', 'ty::PtrEq'), ('std::string', 'ty::EqSize'), ('std::string', 'ty::Fn'),
           ('ty::Mf', 'std::equal_to<>'), ('int ty::Rec::*', 'std::equal_to<int ty::Rec::*>'), ('int', 'ty::LastEq'), ('std::pmr::string', 'std::equal_to<>')]
VALUES = ['bool', 'int ty::Rec::*', 'std::string', 'std::unique_ptr<int>', 'std::vector<int>', 'double', 'ty::Agg', 'std::any', 'std::shared_ptr<int>', 'std::pmr::string']


def types_subjects(cont):
    out = []
    if cont in S.SEQ:
        for T in TYPES:
            a = [T] + ([TYPES_N[cont]] if cont in TYPES_N else [])
            if 'pmr' in T:
                if cont == 'static_vector':
                    continue
                a.append(PMR % T)
            t = 'sfl::%s<%s>' % (cont, ', '.join(a))
            out.append((t, 'ty::Seq<%s>' % t, 50))
        return out
    kind, name = cont.split('_', 1)
    m, b = name.endswith('map'), lambda x: 'true' if x else 'false'
    for i, (K, F) in enumerate(UN_KEYS if 'unordered' in name else ORD_KEYS):
        a = [K] + ([VALUES[i]] if m else []) + ['30' if kind == 'static' else '5', F]
        if 'pmr' in K:
            if kind == 'static':
                continue
            a.append(PMR % ('std::pair<%s, %s>' % (K, VALUES[i]) if m else K))
        t = 'sfl::%s<%s>' % (cont, ', '.join(a))
        out.append((t, 'ty::Assoc<%s, %s, %s, %s>' % (t, b(m), b('multi' in name), b('unordered' not in name)), 50))
    return out


def subjects(cont, driver='huge'):
    """[(name, driver class, rows)]"""
    if driver == 'types':
        return types_subjects(cont)
    if driver == 'alg':
        return alg_subjects(cont)
    if cont in S.SEQ:
        out = []
        for i, (T, giant) in enumerate((('unsigned', False), ('Num', False), ('unsigned char', True))):
            t = 'sfl::%s<%s%s>' % (cont, T, ', ' + SEQ_N[cont][i] if cont in SEQ_N else '')
            out.append((t, 'Seq<%s, %s>' % (t, 'true' if giant else 'false'), 10 if giant else 30))
        if len(SEQ_N.get(cont, '')) == 4:
            t = 'sfl::%s<unsigned, %s>' % (cont, SEQ_N[cont][3])
            out.append((t, 'Seq<%s, false>' % t, 30))
        if cont != 'static_vector':
            t = 'sfl::%s<unsigned char%s, Narrow<unsigned char>>' % (cont, ', ' + SEQ_N[cont][0] if cont in SEQ_N else '')
            out.append((t, 'Seq<%s, false>' % t, 30))
        return out
    kind, name = cont.split('_', 1)
    m = name.endswith('map')
    t = 'sfl::%s<int, %s%d>' % (cont, 'int, ' if m else '', 70000 if kind == 'static' else 300)
    b = lambda x: 'true' if x else 'false'
    return [(t, 'Assoc<%s, %s, %s, %s>' % (t, b(m), b('multi' in name), b('unordered' not in name)), 16)]


def text(cont, driver):
    out = ['#include "sfl/%s.hpp"' % cont, '#include "sfl/vector.hpp"', '#include "%s/%s.hpp"' % (driver, driver), 'using namespace hg;']
    for i, (t, d, rows) in enumerate(subjects(cont, driver)):
        out.append('static Reg r%d("%s", &%s::run, %d);' % (i, t, d, rows))
    out.append('int main(int c, char** v) { return main_(c, v); }')
    return '\n'.join(out) + '\n'


def build(cont, driver):
    key = R.digest_files(R.tree(os.path.join(R.REPO, 'include')) + R.tree(os.path.join(R.SRC, 'huge')) + R.tree(os.path.join(R.SRC, 'alg')) + R.tree(os.path.join(R.SRC, 'types')))
    src_text = text(cont, driver)
    flags = FLAGS[driver]
    out = os.path.join(R.BUILD, 'huge_' + hashlib.sha256((key + src_text + ' '.join(flags)).encode()).hexdigest()[:24])
    if os.path.exists(out):
        os.utime(out)
        return out, ''
    src = out + '.%d.cpp' % os.getpid()
    with open(src, 'w') as f:
        f.write(src_text)
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run(flags + ['-I', os.path.join(R.REPO, 'include'), '-I', R.SRC, src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    os.unlink(src)
    if r.returncode:
        return None, r.stdout
    os.rename(tmp, out)
    return out, ''


def go(binary, args, limit, trace=False):
    """-> (lines, status); status 0 holds, 1 violated, None: no answer (memory or time)"""
    env = dict(os.environ)
    if trace:
        env['HUGE_TRACE'] = '1'
    try:
        r = subprocess.run([binary] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, timeout=limit)
    except subprocess.TimeoutExpired as e:
        return (e.stdout or b'').decode(errors='replace').split('\n'), None
    rc = r.returncode
    if rc == -9:  # ended because memory ran out
        return r.stdout.split('\n'), None
    return r.stdout.split('\n'), 1 if rc else 0


def shrink(binary, name, seed, idx, n, giant):
    t0 = time.time()
    kept = list(range(n))
    bad = lambda k: go(binary, ['one', name, seed, idx, ','.join(map(str, k)) or 'x'], 120)[1] == 1
    if not bad(kept):
        return kept
    lo = 1 if giant else 0  # the first row of a giant history says how it starts
    step = max(1, n // 2)
    while time.time() - t0 < 150:
        i, changed = lo, False
        while i < len(kept) and time.time() - t0 < 150:
            cand = kept[:i] + kept[i + step:]
            if bad(cand):
                kept, changed = cand, True
            else:
                i += step
        if step == 1 and not changed:
            break
        step = max(1, step // 2)
    return kept


def memory():
    with open('/proc/meminfo') as f:
        for l in f:
            if l.startswith('MemAvailable:'):
                return int(l.split()[1]) >> 20
    return 0


def judge(judged):
    os.environ['TYPES_JUDGED'] = judged or '7'


def extra(prop, p, tier, seed):
    rc, out = 0, {'evaluations': 0, 'distinct_nontrivial': 0, 'nontrivial': 0, 'samples': []}
    for driver in ('huge', 'types'):
        if rc == 0 and driver in p:
            rc, c = explore(prop, p, tier, seed, driver, p[driver], p.get('judged', ''))
            for k in ('evaluations', 'distinct_nontrivial', 'nontrivial'):
                out[k] += c[k]
            out['samples'] += c.pop('samples')[:2]
            out[driver] = c
    return rc, out


def check(prop, p, tier, seed, t0):
    """C30"""
    rc, cov = explore(prop, p, tier, seed, 'alg', p['conts'])
    cov['rule'] = p['rule']
    with open(os.path.join(R.EVIDENCE, prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': p['level'], 'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'violations': rc}, f, indent=1)
    print('%s %s: %d executions, %d distinct non-trivial, %.1f s' % (prop, tier, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0))
    return rc


def explore(prop, p, tier, seed, driver, conts, judged=''):
    R.prune()
    os.makedirs(R.BUILD, exist_ok=True)
    judge(judged)
    deep = tier != 'quick'
    rp = os.path.join(R.REPLAYS, prop + '.replay')
    big = 255 if driver == 'huge' else 2
    cov = {'rule': '', 'evaluations': 0, 'distinct_nontrivial': 0, 'nontrivial': 0, 'operations': 0, 'elements_compared': 0, 'no_answer': [], 'subjects': [], 'samples': [],
           'what': 'an evaluation is a history, non-trivial when the container held more than %d elements' % big}
    with ThreadPoolExecutor(R.JOBS) as ex:
        bins = dict(zip(conts, ex.map(lambda c: build(c, driver), conts)))
    for c in conts:
        if bins[c][0] is None:
            print('does not compile: %s: %s' % (c, R.first_error(bins[c][1])))
            with open(rp, 'w') as f:
                json.dump({'kind': 'compile', 'driver': driver, 'cont': c, 'text': bins[c][1][:4000]}, f, indent=1)
            R.violation(prop, rp)
            return 1, cov
    jobs, giants = [], []
    for c in conts:
        for name, drv, rows in subjects(c, driver):
            cov['subjects'].append(name)
            if driver == 'alg':
                n, k = (200000 if deep else 6000), 4
            elif driver == 'types':
                if judged == '4' and 'pmr' not in name:
                    continue
                n, k = (12000 if deep else 400), 4 if deep else 1
            elif rows == 10:
                giants += [(c, name, i, i + 1) for i in range(12 if deep else 1)]
                continue
            else:
                unordered = 'unordered' in c
                n, k = ((200 if unordered else 2000) if deep else (12 if unordered else 96)), 24
            jobs += [(c, name, i * n // k, (i + 1) * n // k) for i in range(k)]
    rows_of = {name: rows for c in conts for name, _, rows in subjects(c, driver)}
    seen = set()
    rc = 0

    def one(j):
        return j, go(bins[j[0]][0], ['many', j[1], seed, j[2], j[3]], 3000 if deep else 240)

    def take(j, lines, st):
        c, name, frm, to = j
        last, rows, why = frm, 0, ''
        for l in lines:
            f = l.split()
            if not f:
                continue
            if f[0] == 'start':
                last, rows = int(f[1]), int(f[2])
            elif f[0] == 'ok':
                cov['evaluations'] += 1
                cov['operations'] += int(f[2])
                cov['elements_compared'] += int(f[3])
                if int(f[4]) > big:
                    cov['nontrivial'] += 1
                    seen.add((name, f[5]))
            elif f[0] == 'memory':
                cov['no_answer'].append('%s %s: memory' % (name, f[1]))
            elif f[0] == 'FAIL':
                why = ' '.join(f[2:])
        if st is None:
            cov['no_answer'].append('%s %d: time or memory' % (name, last))
        return (c, name, last, rows, why or 'the program ended with an error') if st == 1 else None

    bad = None
    with ThreadPoolExecutor(R.JOBS) as ex:
        for j, (lines, st) in ex.map(one, jobs):
            bad = bad or take(j, lines, st)
    t0 = time.time()
    for j in giants:
        if bad or time.time() - t0 > (900 if deep else 60):
            break
        if memory() < 23:
            cov['no_answer'].append('%s %d: not enough memory is free' % (j[1], j[2]))
            continue
        bad = take(j, *one(j)[1])
    if bad:
        c, name, idx, rows, why = bad
        giant = rows_of[name] == 10
        kept = shrink(bins[c][0], name, seed, idx, rows, giant)
        lines, st = go(bins[c][0], ['one', name, seed, idx, ','.join(map(str, kept)) or 'x'], 240, True)
        with open(rp, 'w') as f:
            json.dump({'kind': 'history', 'driver': driver, 'cont': c, 'subject': name, 'seed': seed, 'index': idx, 'rows': kept, 'text': lines}, f, indent=1)
        print('FAILED [%s] %s: %s' % (prop, name, why))
        print('\n'.join(l for l in lines if l)[-1500:])
        R.violation(prop, rp)
        rc = 1
    cov['distinct_nontrivial'] = len(seen)
    for c in conts[:6:3] if driver == 'alg' else conts[:2]:
        name = subjects(c, driver)[0][0]
        lines, _ = go(bins[c][0], ['one', name, seed, 1], 60, True)
        cov['samples'].append({'subject': name, 'history': [l for l in lines if l][:12]})
    return rc, cov


def replay(prop, p, path):
    with open(path) as f:
        d = json.load(f)
    judge(p.get('judged'))
    binary, err = build(d['cont'], d['driver'])
    if binary is None:
        print(R.first_error(err))
        R.violation(prop, path)
        return 1
    if d['kind'] == 'compile':
        print('compiles')
        return 0
    lines, st = go(binary, ['one', d['subject'], d['seed'], d['index'], ','.join(map(str, d['rows'])) or 'x'], 600, True)
    print('\n'.join(l for l in lines if l))
    if st == 1:
        R.violation(prop, path)
        return 1
    return 0
