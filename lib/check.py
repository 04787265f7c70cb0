#!/usr/bin/env python3
"""check.py <property id>: decide one property against /repo's current working tree."""
import os, sys, json, time, shutil, re, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
from props import PROPS

VERIF = vf.VERIF
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
CC = ['gcc', '-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
      '-fno-sanitize=alignment,nonnull-attribute,pointer-overflow', '-w', '-DVERSION="v"']
LIBS = ['-lxslt', '-lxml2', '-lz', '-lm']

def build_lib(work):
    src = os.path.join(vf.REPO, 'src/main/c')
    o = os.path.join(work, 'xmq.o')
    rc, out, dt = vf.sh(CC + ['-c', '-I' + src, '-I' + src + '/parts'] + vf.INC + [src + '/xmq.c', '-o', o], 600)
    if rc != 0:
        print('cannot build %s/xmq.c:\n%s' % (src, out[-3000:]))
        return None
    return o

def build_exec(u, work, obj):
    src = os.path.join(vf.REPO, 'src/main/c')
    exe = os.path.join(work, u['name'] + '.exe')
    objs = [obj] if not u.get('nolib') else []
    rc, out, dt = vf.sh(CC + ['-I' + src, '-I' + src + '/parts', '-I' + VERIF + '/lib', '-I' + VERIF + '/units'] + vf.INC +
                        [u['path']] + objs + ['-o', exe] + LIBS, 300)
    if rc != 0:
        return None, out[-1500:]
    return exe, ''

def run_exec(exe, secs, limit):
    rc, out, dt = vf.sh(['bash', '-c', 'ulimit -v unlimited; ulimit -s 65536; exec "$0" "$@" 2>"$0.err"', exe, str(SEED), str(secs)], limit)
    return rc, out, dt

def parse_fail(out):
    m = re.search(r'FAIL what=\[(.*?)\] p=(\d+) g=(\d+) in=([0-9a-f]*)', out)
    return m and dict(what=m.group(1), p=int(m.group(2)), g=int(m.group(3)), hex=m.group(4))

def known_findings(pid):
    """KNOWN_FINDINGS.txt: 'finding: property=<id> key=<key> <what fails>' and 'fixed: property=<id> <commit> <what failed>'."""
    r = {}
    for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
        if m and m.group(1) == pid:
            r[m.group(2)] = m.group(3).strip()
    return r

def printable(h):
    b = bytes.fromhex(h)
    return repr(b)[1:]

def main():
    pid = sys.argv[1]
    P = PROPS[pid]
    t0 = time.time()
    thorough = TIER == 'thorough'
    vf.DEADLINE[0] = t0 + (7200 if thorough else 560)
    work = os.path.join(VERIF, 'build', pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rdir = os.path.join(VERIF, 'replays'); os.makedirs(rdir, exist_ok=True)
    units = [vf.parse_unit(os.path.join(VERIF, 'units', n + '.c')) for n in P['units']]
    pool = ThreadPoolExecutor(64)
    flib = pool.submit(build_lib, work)
    proofs = {}
    for u in sorted((u for u in units if not u['noproof']), key=lambda u: -u['timeout']):
        proofs[u['name']] = pool.submit(vf.prove_all, u, os.path.join(work, 'p_' + u['name']), 3.0 if thorough else 1.0)
    obj = flib.result()
    if not obj:
        # the code under check does not compile: nothing was decided
        return 2
    budget = P.get('exec_s', 60) * (6 if thorough else 1)
    ex = [u for u in units if not u['noexec']]
    per = max(3.0, min(P.get('max_s', 25) * (6 if thorough else 1), budget * 6 / max(1, len(ex))))
    def one(u):
        exe, err = build_exec(u, work, obj)
        if not exe:
            return dict(unit=u['name'], status='unattached', detail=err)
        with vf.SLOTS:
            rc, out, dt = run_exec(exe, per, per + 120)
        f = parse_fail(out)
        kn = re.findall(r'^KNOWN (\S+)', out, re.M)
        if f:
            f['known'] = kn
            f.update(unit=u['name'], status='fail', exe=exe)
            e = exe + '.err'
            if os.path.exists(e):
                f['stderr'] = open(e, errors='replace').read()[:3000]
            return f
        m = re.search(r'OK evaluations=(\d+) skipped=(\d+) covers=(\d+) exhaustive_len=(-?\d+) exhaustive_evals=(\d+)', out)
        if not m:
            return dict(unit=u['name'], status='broken', detail='rc=%s %s' % (rc, out[-600:]), exe=exe)
        return dict(unit=u['name'], status='ok', evaluations=int(m.group(1)), skipped=int(m.group(2)),
                    exhaustive_len=int(m.group(4)), exhaustive_evals=int(m.group(5)), exe=exe, known=kn, seconds=round(dt, 1))
    exf = {u['name']: pool.submit(one, u) for u in ex}
    pr = {k: f.result() for k, f in proofs.items()}
    er = {k: f.result() for k, f in exf.items()}
    violations = []
    notes = []
    def replay(kind, u, d, extra=''):
        h = hashlib.sha1(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = os.path.join(rdir, '%s-%s-%s.txt' % (pid, u, h))
        with open(p, 'w') as f:
            f.write('property: %s\nunit: %s\nkind: %s\n' % (pid, u, kind))
            for k, v in d.items():
                f.write('%s: %s\n' % (k, v))
            if extra:
                f.write(extra + '\n')
        return p
    for n, r in er.items():
        if r['status'] == 'fail':
            p = replay('failing input on the real code', n, dict(what=r['what'], p=r['p'], g=r['g'], hex=r['hex'], bytes=printable(r['hex'])),
                       'replay: python3 /verif/bin/replay.py <this file>\n' + r.get('stderr', ''))
            violations.append('VIOLATION property=%s replay=%s' % (pid, p))
            print('%s/%s: %s; input %s (p=%d g=%d)' % (pid, n, r['what'], printable(r['hex']), r['p'], r['g']))
        elif r['status'] in ('broken', 'unattached'):
            notes.append('executed contract %s: %s: %s' % (n, r['status'], r['detail'][-400:]))
    byname = {u['name']: u for u in units}
    known = known_findings(pid)
    shown = set()
    for n, r in er.items():
        for k in r.get('known', []):
            if k in known:
                if k not in shown:
                    print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
                shown.add(k)
            else:
                p = replay('failing input on the real code', n, dict(what='unlisted finding ' + k))
                violations.append('VIOLATION property=%s replay=%s' % (pid, p))
    for n, r in pr.items():
        if r['status'] == 'failed' and not violations:
            u = byname[n]
            cex = vf.bounded_cex(u, os.path.join(work, 'b_' + n), u['bound'])
            conf = None
            if cex and er.get(n, {}).get('exe'):
                rc, out, dt = vf.sh([er[n]['exe'], 'replay', str(cex[0]), str(cex[1]), cex[2]], 60)
                conf = parse_fail(out)
            if conf:
                p = replay('verifier counterexample, replayed on the real code', n, dict(obligation=r['detail'], what=conf['what'], p=cex[0], g=cex[1], hex=cex[2]))
                violations.append('VIOLATION property=%s replay=%s' % (pid, p))
            else:
                p = replay('failed obligation', n, dict(functions=r['functions'], failed='\n  '.join(r['failed']), checker=r['cmd'], bounded_cex=cex),
                           open(os.path.join(r['work'], 'cbmc.json')).read()[-20000:])
                violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
            print('%s/%s: failed obligations: %s' % (pid, n, r['detail']))
        elif r['status'] == 'failed':
            print('%s/%s: failed obligations: %s' % (pid, n, r['detail']))
        elif r['status'] != 'proved':
            notes.append('proof %s: %s: %s' % (n, r['status'], r['detail'][-400:]))
    ob = sum(r['obligations'] for r in pr.values())
    di = sum(r['discharged'] for r in pr.values() if r['status'] in ('proved', 'failed'))
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=P.get('level', 'proof'),
              coverage=dict(
        obligations=ob, discharged=di,
        checker_cmd='goto-cc | goto-instrument --dfcc harness --apply-loop-contracts | ' + (next(iter(pr.values()))['cmd'] if pr else 'cbmc'),
        trusted_base=P.get('trusted', []) + [t for u in units for t in u['trust']] + COMMON_TRUST,
        functions_under_contract=[dict(unit=n, functions=r['functions'], files=r.get('files'), status=r['status'], title=byname[n]['title'],
                                       obligations=r['obligations'], discharged=r['discharged'], covers_reached=r['covers'],
                                       back_end='cbmc 6.11 ' + r.get('solver', ''),
                                       solver_s=r['solver_s']) for n, r in pr.items()],
        proved_units=sum(1 for r in pr.values() if r['status'] == 'proved'),
        units=len(pr),
        not_proved=[dict(unit=n, status=r['status'], detail=r['detail'][-600:]) for n, r in pr.items() if r['status'] != 'proved'],
        bounded=[dict(unit=n, title=byname[n]['title'], role='bounded stand-in' if byname[n]['noproof'] else 'contract executed on the real code',
                      **{k: v for k, v in r.items() if k in ('status', 'evaluations', 'skipped', 'exhaustive_len', 'exhaustive_evals', 'what', 'hex', 'p', 'g', 'detail')})
                 for n, r in er.items()],
        evaluations=sum(r.get('evaluations', 0) for r in er.values()),
        distinct_nontrivial=sum(r.get('exhaustive_evals', 0) for r in er.values()),
        rule='bounded part only (never counted as proved): all byte strings over the unit\'s alphabet up to exhaustive_len (each counted once in distinct_nontrivial), then seeded random strings; a case runs the real code (gcc, ASan, UBSan) and the executable contract',
        samples=['%s: %s' % (n, r.get('status')) for n, r in er.items()][:20],
        solver_s=round(sum(r['solver_s'] for r in pr.values()), 1)),
        assumptions=P.get('assumptions', []) + notes, wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for n in notes:
        print('NOTE ' + n.replace('\n', ' | ')[:600])
    print('%s: %d/%d obligations discharged, %d/%d units proved, %d executed cases, %.1f s' % (
        pid, di, ob, ev['coverage']['proved_units'], len(pr), ev['coverage']['evaluations'], ev['wall_s']))
    shutil.rmtree(work, ignore_errors=True)
    if violations:
        print('\n'.join(sorted(set(violations), key=lambda s: 'no-failing' in s)[:1]))
        return 1
    return 0

COMMON_TRUST = [
    'CBMC 6.11 (goto-cc, goto-instrument dfcc, cbmc) and its C memory model; libc string functions as modelled by CBMC',
    'a pointer that is computed a few bytes outside its object and only compared (never dereferenced) is accepted',
    'malloc does not fail; buffers are at most 2^40 bytes',
    'longjmp is replaced by a hook that ends the path (proof only)',
    'where a contract speaks about every position, each loop step is checked for an arbitrary fixed position (VG, VFOCUS); putting the steps together over all positions is done outside the tool',
    'machine arithmetic is bit-precise (not treated as mathematical); signed overflow is an obligation',
]
if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
