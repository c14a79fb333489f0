#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [quick|thorough]

Builds every contract unit of the property from /repo's current tree, discharges the obligations of each harness with the
deductive engine (hvc/engine), replays counterexamples natively, and writes evidence/<property>.json.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
ENG = VERIF + '/hvc/engine'
sys.path.insert(0, ENG)
import build  # noqa: E402

PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
NCPU = min(8, os.cpu_count() or 4)
NATIVE = ['clang++', '-std=c++20', '-O1', '-g1', '-fno-access-control', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']


class Unit:
    def __init__(self, prop, path, outdir):
        self.prop = prop
        self.path = path
        self.name = os.path.basename(path)[:-4]
        self.text = open(path).read()
        self.meta = {}
        for m in re.finditer(r'^// hvc: *([\w-]+) *= *(.*)$', self.text, re.M):
            self.meta[m.group(1)] = m.group(2).strip()
        self.roots = ['h_' + r for r in re.findall(r'^HARNESS\((\w+)\)', self.text, re.M)]
        self.bounded = ['h_' + r for r in re.findall(r'^BOUNDED\((\w+)\)', self.text, re.M)]
        self.labels = set(re.findall(r'hvc_cover\("([^"]+)"\)', self.text))
        self.out = outdir + '/' + self.name
        self.rootmeta = {}
        for m in re.finditer(r'^// hvc-root: *(\w+) *(\{.*\})$', self.text, re.M):
            self.rootmeta['h_' + m.group(1)] = json.loads(m.group(2))

    def build_sym(self):
        if self.meta.get('sym') == 'no':
            return False, 'no symbolic build for this unit'
        ok, e = build.compile_sym(self.path, self.out, self.meta.get('std', 'real') == 'model', self.extra())
        if not ok:
            return False, e
        ok, e = build.lower(self.out + '.bc', self.out + '.ll', self.roots)
        if not ok:
            return False, e
        self.dict = constants(self.out + '.ll')
        return True, ''

    def extra(self):
        return self.meta.get('flags', '').split()

    def build_nat(self):
        if self.meta.get('native') == 'no':
            return False, 'no native build for this unit'
        tab = self.out + '.roots.cpp'
        with open(tab, 'w') as f:
            f.write('extern "C" {\n')
            for r in self.roots + self.bounded:
                f.write('void %s();\n' % r)
            f.write('struct hvc_root { const char* name; void (*fn)(); };\nextern const hvc_root hvc_roots[];\nconst hvc_root hvc_roots[] = {\n')
            for r in self.roots + self.bounded:
                f.write('{"%s", %s},\n' % (r, r))
            f.write('{nullptr, nullptr}};\n}\n')
        link = [build.REPO + '/' + x for x in self.meta.get('link', '').split()]
        rc, o, e = build.run(NATIVE + self.extra() + build.INC + ['-I' + VERIF + '/contracts', self.path, tab, VERIF + '/hvc/native.cpp'] + link +
                             self.meta.get('libs', '').split() + ['-o', self.out + '.native'])
        return rc == 0, e[:4000]


def constants(ll):
    out = {}
    for line in open(ll):
        if 'icmp' in line or ' i64 ' in line or ' i32 ' in line or 'switch' in line or ' i16 ' in line or ' i8 ' in line:
            for m in re.finditer(r'(?<![\w%.!#$])-?\d{1,20}(?![\w.])', line.split(', !dbg')[0]):
                v = int(m.group(0))
                if abs(v) > 3:
                    out[v & ((1 << 64) - 1)] = 1
        if len(out) > 600:
            break
    return list(out)[:400]


def native_cmd(args, timeout):
    try:
        p = subprocess.run(args, capture_output=True, text=True, errors='replace', timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return 124, '', 'timeout'


def search(unit, root, secs, seed, out, maxtrials=2000000):
    d = [str(x) for x in getattr(unit, 'dict', [])]
    rc, o, e = native_cmd([unit.out + '.native', 'search', root, str(secs), str(seed), out, str(maxtrials)] + d, secs + 60)
    m = re.search(r'trials (\d+) accepted (\d+)', o)
    t = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    f = re.search(r'^FOUND (.*)$', o, re.M)
    return (f.group(1) if f and rc == 1 else None), t, rc


def replay(unit, root, path):
    rc, o, e = native_cmd([unit.out + '.native', 'replay', root, path], 30)
    if rc == 0 or rc == 2:
        return None
    m = re.search(r'^REPRODUCED (.*)$', o, re.M)
    if m:
        return m.group(1)
    if rc == 124:
        return 'a call does not return'
    k = re.search(r'(ERROR: AddressSanitizer: [\w-]+|runtime error: .*)', e)
    return k.group(1) if k else 'crash (status %d)' % rc


FOUND = threading.Event()   # a failing input of the real code is known: the remaining proofs only add names
GRACE = 60
FOUND_AT = [0.0]


def found():
    if not FOUND.is_set():
        FOUND_AT[0] = time.time()
        FOUND.set()


def run_root(unit, root, opts, out, onfail=None):
    t0 = time.time()
    err = None
    part = []
    with open(out + '.err', 'w+') as ef:
        p = subprocess.Popen([PY, ENG + '/runroot.py', unit.out + '.ll', root, out, json.dumps(opts)], stdout=subprocess.DEVNULL, stderr=ef)
        while p.poll() is None:
            time.sleep(0.05)
            now = time.time()
            if os.path.exists(out + '.part'):
                os.rename(out + '.part', out + '.seen')
                part = json.load(open(out + '.seen'))
                if onfail is not None and not FOUND.is_set():
                    onfail(part[-1:])
            late = FOUND.is_set() and now > FOUND_AT[0] + GRACE
            if now - t0 > opts['budget_s'] + 60 or late:
                err = 'stopped: a violation was found' if late else 'time budget exceeded'
                p.kill()
                p.wait()
        ef.seek(0)
        tail = ef.read()[-1500:]
    if err is None:
        if os.path.exists(out):
            r = json.load(open(out))
            if r['error'] and 'engine error' in r['error']:
                r['trace'] = tail
            return r
        err = 'engine did not finish: ' + (tail[-300:] or 'status %d' % p.returncode)
    return {'root': root, 'error': err, 'obligations': len(part), 'proved': 0, 'by': {}, 'bad': part, 'paths': 0, 'asserts': 0, 'groups': {}, 'steps': 0,
            'covers': {}, 'solver_s': 0.0, 'wall_s': time.time() - t0, 'functions': [], 'assumptions': [], 'trusted': [], 'notes': []}


def brief(u, r, secs, seed, path, known):
    x = search(u, r, secs, seed, path)
    if x[0] and not known:
        found()
    return x


def tries(u, r, bad, outdir):
    """does one of these failed obligations fail on the real code"""
    for o in bad:
        path = '%s/%s.pre.txt' % (outdir, r)
        with open(path, 'w') as f:
            for n, v in o.get('inputs') or []:
                f.write('%s=%d\n' % (n, v))
        if replay(u, r, path):
            found()
            return True
    return False


def known_findings(prop):
    p = VERIF + '/known-findings.json'
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop and k.get('status') == 'known']


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    thorough = tier == 'thorough'
    t_start = time.time()
    total = 3600 if thorough else 660          # wall budget for everything
    outdir = os.environ.get('HVC_OUT', VERIF + '/build') + '/' + prop
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    repdir = VERIF + '/replay/' + prop
    shutil.rmtree(repdir, ignore_errors=True)
    os.makedirs(repdir)
    known = known_findings(prop)
    files = sorted(f for f in os.listdir(VERIF + '/contracts/' + prop) if f.endswith('.cpp'))
    units = [Unit(prop, VERIF + '/contracts/' + prop + '/' + f, outdir) for f in files]
    only = os.environ.get('HVC_ROOTS')
    pool = cf.ThreadPoolExecutor(NCPU)
    symf = {u: pool.submit(u.build_sym) for u in units}
    natf = {u: pool.submit(u.build_nat) for u in units}
    notes = []
    results = {}
    jobs = []
    broken = []
    sym_ok = {}
    nat_ok = {}
    for u in units:
        sym_ok[u], e1 = symf[u].result()
        nat_ok[u], e2 = natf[u].result()
        if not sym_ok[u] and u.meta.get('sym') != 'no':
            notes.append('%s: symbolic build failed, bounded search only: %s' % (u.name, e1[:500]))
        if not nat_ok[u] and u.meta.get('native') != 'no':
            notes.append('%s: native build failed: %s' % (u.name, e2[:500]))
        if not sym_ok[u] and not nat_ok[u]:
            broken.append(u.name)
    nroots = sum(len(u.roots) for u in units)
    # a brief native run of every harness first (conformance of the contracts with the real build)
    pre = {}
    for u in units:
        if nat_ok[u]:
            for r in u.roots + u.bounded:
                if not only or r[2:] in only.split(','):
                    path = '%s/%s.search.txt' % (repdir, r)
                    pre[(u, r)] = pool.submit(brief, u, r, float(u.rootmeta.get(r, {}).get('search_factor', 1)) * (5 if thorough else 1), seed, path, bool(known))
    for u in units:
        if not sym_ok[u]:
            continue
        base = json.loads(u.meta.get('opts', '{}'))
        base.setdefault('merge', {'yes': True, 'loops': 'loops'}.get(u.meta.get('merge'), False))
        base.setdefault('max_failed', 6)
        base.setdefault('vc_timeout', 60000 if thorough else 20000)
        for r in u.roots:
            if only and r[2:] not in only.split(','):
                continue
            o = dict(base)
            o.update(u.rootmeta.get(r, {}))
            o['budget_s'] = int(o.get('budget_s', 200)) * (4 if thorough else 1)
            left = total - (time.time() - t_start)
            jobs.append((u, r, pool.submit(decide, u, r, o, outdir, t_start, total, nat_ok[u], bool(known), seed)))
    for u, r, f in jobs:
        results[(u, r)] = f.result()
    # ---- native side: replay counterexamples, then search
    violations = []   # (unit, root, what, replay path, reproduced)
    knownhits = []
    bounded = []
    evaluations = 0
    accepted = 0
    searched = {}

    def is_known(root, what):
        for k in known:
            if k['root'] == root and (k.get('what') in (None, '*') or k['what'] in what):
                return k
        return None

    for (u, r), res in results.items():
        done = set()
        for o in res['bad']:
            if o['status'] != 'failed' or (o['id'], o['where']) in done or len(done) >= 6:
                continue
            done.add((o['id'], o['where']))
            path = '%s/%s.%d.txt' % (repdir, r, len(done))
            with open(path, 'w') as f:
                f.write('; property %s harness %s\n; failed obligation: %s in %s\n; condition: %s\n' %
                        (prop, r, o['id'], o['where'], str(o.get('cond', '')).replace('\n', ' ')))
                for x in o.get('stack', []):
                    f.write(';   in %s\n' % x)
                for x in o.get('pc', []):
                    f.write(';   path: %s\n' % x.replace('\n', ' '))
                for n, v in o.get('inputs') or []:
                    f.write('%s=%d\n' % (n, v))
            k = is_known(r, o['id'])
            if k:
                knownhits.append(k)
                continue
            what = replay(u, r, path) if nat_ok[u] else None
            violations.append([u, r, '%s in %s' % (o['id'], o['where']), path, what])
    bad_roots = {(v[0], v[1]) for v in violations}
    # search natively: every harness briefly (conformance of the real build), failed or undecided ones longer
    sj = []
    for u in units:
        if not nat_ok[u]:
            continue
        for r in u.roots + u.bounded:
            if only and r[2:] not in only.split(','):
                continue
            res = results.get((u, r))
            if any(k['root'] == r and k.get('skip_search') for k in known):
                continue
            undecided = res is None or res['error'] is not None or any(o['status'] != 'proved' for o in res['bad'])
            failed = (u, r) in bad_roots
            if failed and any(v[4] for v in violations if (v[0], v[1]) == (u, r)):
                continue
            path = '%s/%s.search.txt' % (repdir, r)
            what, t, rc = pre[(u, r)].result()
            if what or not (failed or undecided or r in u.bounded):
                f = pre[(u, r)]
                secs = 1.0
            else:
                secs = (5 if FOUND.is_set() else 30 if failed else 12) * (5 if thorough else 1)
                secs *= float(u.rootmeta.get(r, {}).get('search_factor', 1))
                f = pool.submit(search, u, r, secs, seed + 1, path)
            sj.append((u, r, undecided, failed, path, secs, f))
    for u, r, undecided, failed, path, secs, f in sj:
        what, t, rc = f.result()
        evaluations += t[0]
        accepted += t[1]
        searched[r] = {'trials': t[0], 'accepted': t[1], 'seconds': secs}
        if what:
            k = is_known(r, what)
            if k:
                knownhits.append(k)
                continue
            if failed:
                for v in violations:
                    if (v[0], v[1]) == (u, r):
                        v[3], v[4] = path, what
            else:
                violations.append([u, r, what, path, what])
        elif rc not in (0, 1):
            notes.append('%s: native search ended with status %d' % (r, rc))
        if undecided and not failed:
            bounded.append(r)
    # ---- evidence
    obl = sum(x['obligations'] for x in results.values())
    prv = sum(x['proved'] for x in results.values())
    by = {}
    fns = set()
    assume = set()
    trusted = set()
    for x in results.values():
        for k, v in x['by'].items():
            by[k] = by.get(k, 0) + v
        fns |= set(x['functions'])
        assume |= set(x['assumptions'])
        trusted |= set(x['trusted'])
    real = sorted(f for f in fns if re.search(r'\b(helics|gmlc|TimeRepresentation|count_time|CLI)\b', f) and 'h_' not in f and '::$_' not in f and not f.startswith('(anonymous namespace)::') and 'hvc::' not in f)
    proved_roots = sorted(r for (u, r), x in results.items() if not x['error'] and not x['bad'] and x['asserts'])
    covered = set()
    for x in results.values():
        covered |= {k for k, v in x['covers'].items() if v}
    uncovered = sorted(set().union(*[u.labels for u in units]) - covered) if units else []
    empty = sorted(r for (u, r), x in results.items() if not x['error'] and not x['asserts'])
    if uncovered and not only:
        notes.append('not reached: ' + ', '.join(uncovered))
    if empty:
        notes.append('no property obligation generated by: ' + ', '.join(empty))
    samples = []
    for (u, r), x in list(results.items())[:400]:
        samples.append({'harness': r, 'unit': u.name, 'obligations': x['obligations'], 'proved': x['proved'], 'paths': x['paths'],
                        'back_ends': x['by'], 'solver_s': x['solver_s'], 'wall_s': x['wall_s'], 'undecided': x['error'],
                        'distinct_obligations': len(x['groups'])})
    texts = {}
    for u in units:
        for k, v in u.meta.items():
            if k.startswith('assume'):
                trusted.add(v)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': json.load(open(VERIF + '/levels.json')).get(prop, 'proof'),
          'coverage': {'obligations': obl, 'discharged': prv, 'checker_cmd': 'python3 check.py %s %s' % (prop, tier),
                       'trusted_base': TRUSTED + sorted(trusted), 'discharged_by': by, 'harnesses': nroots, 'harnesses_fully_proved': len(proved_roots),
                       'functions_under_contract': real, 'n_functions_under_contract': len(real),
                       'solver_s': round(sum(x['solver_s'] for x in results.values()), 2),
                       'bounded_harnesses': sorted(set(bounded)), 'bounded_bound': 'random and boundary-value inputs of the native build; see native_search',
                       'native_search': searched, 'evaluations': evaluations, 'distinct_nontrivial': accepted,
                       'rule': 'native executions of the same harnesses against the real build (ASan, UBSan, real standard library); non-trivial: the harness preconditions were met',
                       'samples': samples, 'notes': notes, 'known_findings': sorted({k['id'] for k in knownhits})},
          'assumptions': sorted(assume | {v for u in units for k, v in u.meta.items() if k.startswith('assume')}), 'wall_s': round(time.time() - t_start, 2), 'violations': len(violations)}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open(VERIF + '/evidence/%s.json' % prop, 'w'), indent=1)
    # ---- report
    print('%s: %d harnesses, %d obligations, %d discharged (%s), %d undecided harnesses checked bounded, %d native executions, %.0f s' %
          (prop, nroots, obl, prv, ', '.join('%s %d' % kv for kv in sorted(by.items())), len(set(bounded)), evaluations, time.time() - t_start))
    for n in notes:
        print('note: ' + n)
    for (u, r), x in results.items():
        und = [o for o in x['bad'] if o['status'] != 'failed']
        if x['error'] or und:
            print('undecided: %s %s %s' % (r, x['error'] or '', '; '.join('%s in %s (%s) %s' % (o['id'], o['where'], o['status'], o.get('info') or '')
                                                                  for o in und[:3])))
            if x.get('trace'):
                print(x['trace'])
    for kid in sorted({k['id'] for k in knownhits}):
        k = [x for x in knownhits if x['id'] == kid][0]
        print('KNOWN-FINDING: property=%s %s' % (prop, k['summary']))
    if violations:
        seen = set()
        # reproduced ones first
        for u, r, what, path, rep in sorted(violations, key=lambda v: v[4] is None):
            if (r, what) in seen:
                continue
            seen.add((r, what))
            print('failed: %s: %s%s' % (r, what, ' -- real code: ' + rep if rep else ''))
        v = sorted(violations, key=lambda v: v[4] is None)[0]
        print('VIOLATION property=%s replay=%s%s' % (prop, v[3], '' if v[4] else ' no-failing-input-found'))
        sys.exit(1)
    if broken:
        print('error: cannot build ' + ', '.join(broken))
        sys.exit(2)
    sys.exit(0)


def decide(u, r, o, outdir, t_start, total, nat, known, seed):
    onfail = (lambda bad: tries(u, r, bad, outdir)) if nat and not known else None
    res = run_budgeted(u, r, o, outdir, t_start, total, onfail)
    if not any(x['status'] == 'failed' for x in res['bad']):
        return res
    if nat and not known and not FOUND.is_set() and search(u, r, 10, seed + 2, '%s/%s.pre2.txt' % (outdir, r))[0]:
        found()
    left = total - (time.time() - t_start)
    if not known and not FOUND.is_set() and left > 60:
        # no failing input: perhaps only this way of handling branches is too coarse
        o = dict(o, merge={'loops': False, True: 'loops', False: 'loops'}[o.get('merge', False)], budget_s=int(min(o['budget_s'], 90, left / 2)))
        alt = run_root(u, r, o, '%s/%s.alt.json' % (outdir, r))
        if not alt['error'] and not alt['bad'] and alt['asserts']:
            return alt
    return res


def run_budgeted(u, r, o, outdir, t_start, total, onfail=None):
    left = total - (time.time() - t_start)
    if left < 20:
        o['budget_s'] = 10
    else:
        o['budget_s'] = int(min(o['budget_s'], left))
    res = run_root(u, r, o, '%s/%s.json' % (outdir, r), onfail)
    if any(x['status'] == 'failed' for x in res['bad']) or not res['error'] and not res['bad']:
        return res
    left = total - (time.time() - t_start)
    if left < 60 or FOUND.is_set():
        return res
    # undecided: the same harness with the other way of handling branches (joining paths or not)
    o = dict(o, merge={'loops': False, True: 'loops', False: 'loops'}[o.get('merge', False)], budget_s=int(min(o['budget_s'], left)))
    alt = run_root(u, r, o, '%s/%s.alt.json' % (outdir, r), onfail)
    if alt['error'] and not any(x['status'] == 'failed' for x in alt['bad']):
        return res
    if alt['bad'] and not any(x['status'] == 'failed' for x in alt['bad']) and (not res['error'] and len(res['bad']) <= len(alt['bad'])):
        return res
    return alt


TRUSTED = ['clang 18 front end and the sroa/early-cse/simplifycfg/globaldce passes of opt-18 (the verified text is the LLVM IR of the current source)',
           'the hvc engine (/verif/hvc/engine): IR semantics, memory model, quantifier instantiation',
           'z3 5.3 and cvc5 1.1.2',
           'operator new/delete, memcpy/memmove/memset/memcmp/strlen and the exception runtime are replaced by contracts',
           'contracts and preconditions written in /verif/contracts',
           'single-threaded execution of the functions under contract']

if __name__ == '__main__':
    main()
