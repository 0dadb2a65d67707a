#!/usr/bin/env python3
"""Builds and runs the checks.

  run.py check  <id>            quick or thorough tier (VERIF_TIER), seed VERIF_SEED
  run.py replay <id> <file>     re-runs the failing case of a replay file
  run.py setup                  builds what does not depend on /repo

The harness is compiled against /repo/include as it is now. Objects are cached in
build/, keyed by the contents of every file that goes into them."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import subjects as S
import props as PR

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(HERE, 'src')
BUILD = os.path.join(HERE, 'build')
REPLAYS = os.path.join(HERE, 'replays')
EVIDENCE = os.path.join(HERE, 'evidence')
JOBS = os.cpu_count() or 4

CXX = 'clang++'
BASE = ['-std=c++17', '-w']
MODES = {
    'plain': ['-O0'],
    'opt': ['-O1'],
    'cov': ['-O0', '-fsanitize-coverage=trace-pc-guard'],
    'san': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=nonnull-attribute', '-DPBT_ASAN'],
}
LINK = {'plain': [], 'opt': [], 'cov': [], 'san': ['-fsanitize=address,undefined']}


def digest_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def tree(d):
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]


class Builder:
    def __init__(self, mode):
        self.mode = mode
        self.key = digest_files(tree(os.path.join(REPO, 'include')) + tree(SRC)) + mode
        os.makedirs(BUILD, exist_ok=True)

    def obj(self, name, text, flags=()):
        mode = [f for f in MODES[self.mode] if 'coverage' not in f or name not in ENGINE_NAMES]
        cmd = [CXX] + BASE + mode + list(flags) + ['-I', SRC, '-I', os.path.join(REPO, 'include')]
        h = hashlib.sha256((self.key + '\0' + text + '\0' + ' '.join(cmd)).encode()).hexdigest()[:24]
        o = os.path.join(BUILD, h + '.o')
        if os.path.exists(o):
            os.utime(o)
            return o, ''
        src = os.path.join(BUILD, h + '.%d.cpp' % os.getpid())
        with open(src, 'w') as f:
            f.write(text)
        tmp = o + '.%d.tmp' % os.getpid()
        r = subprocess.run(cmd + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        os.unlink(src)
        if r.returncode:
            if os.path.exists(tmp):
                os.unlink(tmp)
            return None, r.stdout
        os.rename(tmp, o)
        return o, ''

    def all(self, units):
        """units: [(name, text)] -> ({name: object}, {name: error})"""
        good, bad = {}, {}
        with ThreadPoolExecutor(JOBS) as ex:
            for (n, _), (o, err) in zip(units, ex.map(lambda u: self.obj(*u), units)):
                if o:
                    good[n] = o
                else:
                    bad[n] = err
        return good, bad

    def link(self, objs, out):
        r = subprocess.run([CXX] + LINK[self.mode] + objs + ['-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError('link failed:\n' + r.stdout[-3000:])


def prune():
    """Keeps the object cache under 3 GB."""
    try:
        fs = [(os.stat(p).st_mtime, os.stat(p).st_size, p) for p in tree(BUILD)]
    except OSError:
        return
    total = sum(f[1] for f in fs)
    for _, size, p in sorted(fs):
        if total < 3 << 30:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        total -= size


ENGINE = [(n, '#include "%s.cpp"\n' % n) for n in ('engine', 'ob', 'news', 'edges')]
ENGINE_NAMES = [n for n, _ in ENGINE]


def build_engine(chunks, mode, tag):
    """Returns (binary or None, {chunk or type: compile error})."""
    prune()
    b = Builder(mode)
    good, bad = b.all(ENGINE + [(c, S.chunk_source(c)) for c in chunks])
    errors = {}
    for n, _ in ENGINE:
        if n in bad:
            raise RuntimeError('the engine does not compile:\n' + bad[n][-3000:])
    # A chunk that does not compile is retried type by type.
    retry = [(c, i) for c in chunks if c in bad for i in range(len(S.chunk_types(c)))]
    if retry:
        g2, b2 = b.all([('%s#%d' % (c, i), S.chunk_source(c, only={i})) for c, i in retry])
        good.update(g2)
        for c, i in retry:
            n = '%s#%d' % (c, i)
            if n in b2:
                errors[S.chunk_types(c)[i]] = b2[n]
    objs = [good[n] for n in good]
    if len(objs) == len(ENGINE):
        return None, errors
    h = hashlib.sha256('\0'.join(objs).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, 'bin_' + h)
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        b.link(objs, tmp)
        os.rename(tmp, out)
    else:
        os.utime(out)
    return out, errors


def first_error(text):
    m = [l for l in text.split('\n') if 'error:' in l]
    return (m[0] if m else text[:300]).strip()


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(HERE, 'KNOWN_FINDINGS')) as f:
            for line in f:
                line = line.strip()
                m = re.match(r'finding: property=(\S+) (.*)', line)
                if m and m.group(1) == prop:
                    out.append(m.group(2))
    except OSError:
        pass
    return out


def violation(prop, path):
    print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)


def check(prop):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    p = PR.PROPS[prop]
    t0 = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if 'module' in p:
        mod = __import__(p['module'])
        return mod.check(prop, p, tier, seed, t0)
    total = {'evaluations': 0, 'distinct_nontrivial': 0, 'nontrivial': 0, 'out_of_scope_failures': 0}
    cov = {'rule': p['rule'], 'runs': [], 'labels': {}, 'subjects': [], 'samples': []}
    rc = 0
    errors = {}
    for part in PR.plan(prop, tier):
        binary, errs = build_engine(part['chunks'], part['mode'], prop)
        built = time.time()
        errors.update(errs)
        if binary is None:
            break
        ev = os.path.join(BUILD, 'ev.%d.json' % os.getpid())
        if os.path.exists(ev):
            os.unlink(ev)
        cmd = [binary, '--property', prop, '--tier', tier, '--seed', str(seed), '--mask', str(part['mask']),
               '--profile', str(part['profile']), '--cases', str(part['cases']), '--rows', str(part.get('rows', 60)),
               '--rule', p['rule'], '--level', p['level'], '--wall', str(part.get('wall', 420)),
               '--replay-dir', REPLAYS, '--evidence', ev]
        if part.get('faults'):
            cmd += ['--faults', '--fault-cap', str(part.get('fault_cap', 200))]
        env = dict(os.environ, ASAN_OPTIONS='allocator_may_return_null=1:detect_leaks=0:exitcode=99', UBSAN_OPTIONS='print_stacktrace=0')
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env)
        print(r.stdout, end='', flush=True)
        if r.returncode not in (0, 1) or not os.path.exists(ev):
            raise RuntimeError('the engine ended with status %d' % r.returncode)
        with open(ev) as f:
            d = json.load(f)
        os.unlink(ev)
        c = d['coverage']
        for k in total:
            total[k] += c.get(k, 0)
        for k, v in c['labels'].items():
            cov['labels'][k] = cov['labels'].get(k, 0) + v
        for s in c['subjects']:
            if s not in cov['subjects']:
                cov['subjects'].append(s)
        cov['samples'] += c['samples'][:3]
        for k in ('fault_points_executed', 'faults_fired'):
            if k in c:
                cov[k] = cov.get(k, 0) + c[k]
        if c.get('out_of_scope_notes'):
            cov['out_of_scope_notes'] = c['out_of_scope_notes'][:2000]
        cov['runs'].append({'profile': PR.PROFILE_NAMES[part['profile']], 'faults': bool(part.get('faults')), 'build': part['mode'],
                            'cases_per_subject': part['cases'], 'evaluations': c['evaluations'], 'stopped_by_wall_limit': c['stopped_by_wall_limit'], 'wall_s': d['wall_s']})
        if r.returncode == 1:
            rc = 1
            # the replay file says how to rebuild its binary
            rp = os.path.join(REPLAYS, prop + '.replay')
            with open(rp + '.build', 'w') as f:
                json.dump(part, f)
            break
    if errors:
        cov['does_not_compile'] = {k: first_error(v) for k, v in errors.items()}
        for k, v in errors.items():
            print('does not compile: %s: %s' % (k, first_error(v)))
        if rc == 0 and p.get('report_compile'):
            rp = os.path.join(REPLAYS, prop + '.replay')
            with open(rp, 'w') as f:
                for k, v in errors.items():
                    f.write('does not compile against the documented interface: %s\n%s\n' % (k, v[:4000]))
            violation(prop, rp)
            rc = 1
    if 'extra' in p and rc == 0:
        rc, c = __import__(p['extra']).extra(prop, p, tier, seed)
        for k in total:
            total[k] += c.get(k, 0)
        cov['samples'] = cov['samples'][:5] + c['samples'][:3]
        cov['second_part'] = {k: v for k, v in c.items() if k not in ('rule', 'samples')}
    cov.update(total)
    cov['samples'] = cov['samples'][:8]
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': p['level'], 'coverage': cov,
                   'wall_s': round(time.time() - t0, 2), 'violations': 1 if rc else 0}, f, indent=1)
    print('%s %s: %d executions, %d distinct non-trivial, %.1f s' % (prop, tier, total['evaluations'], total['distinct_nontrivial'], time.time() - t0))
    return rc


def replay(prop, path):
    p = PR.PROPS[prop]
    if 'module' in p:
        return __import__(p['module']).replay(prop, p, path)
    if 'extra' in p:
        with open(path) as f:
            if f.read(1) == '{':
                return __import__(p['extra']).replay(prop, p, path)
    with open(path + '.build') as f:
        part = json.load(f)
    binary, errs = build_engine(part['chunks'], part['mode'], prop)
    if binary is None:
        print(first_error(next(iter(errs.values()))))
        return 1
    return subprocess.run([binary, '--property', prop, '--mask', str(part['mask']), '--profile', str(part['profile']), '--replay', path]).returncode


def main():
    cmd = sys.argv[1]
    if cmd == 'setup':
        for m in ('plain',):
            Builder(m).all(ENGINE)
        return 0
    if cmd == 'check':
        return check(sys.argv[2])
    if cmd == 'replay':
        return replay(sys.argv[2], sys.argv[3])
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
