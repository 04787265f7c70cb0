"""Running one deductive unit: annotate -> goto-cc -> goto-instrument (dfcc, loop contracts) -> cbmc."""
from concurrent.futures import ThreadPoolExecutor
import threading
import os, re, json, subprocess, time, shutil, sys
sys.path.insert(0, os.path.dirname(__file__))
import annot

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLOTS = threading.BoundedSemaphore(int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4)))
DEADLINE = [None]          # time.time() after which no solver may run (set by check.py)
INC = ['-I/usr/include/libxml2']

def sh(cmd, timeout, cwd=None, out=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True, errors='replace')
        return p.returncode, p.stdout, time.time() - t
    except subprocess.TimeoutExpired as e:
        o = e.stdout or ''
        if isinstance(o, bytes):
            o = o.decode(errors='replace')
        return 'timeout', o, time.time() - t

def parse_unit(path):
    """A unit file is a C harness; its leading comment carries directives:
       @func NAME            function under contract (loops annotated in place)
       @loop CLAUSES...      contract of the next loop of the last @func ('@loop -' for none); continues over lines
       @contract CLAUSES...  function contract of the last @func
       @replace NAME         calls to NAME are replaced by its contract
       @enforce NAME
       @flags ...            extra cbmc flags
       @loop unroll N        a loop with a constant bound inside another loop: unrolled N times first, with an assertion that this is enough
       @define NAME          -DNAME for the sources (VH_FLATPRINTF: variadic calls of snprintf become calls of vh_snprintf, see vh_pre.h)
       @timeout N   @unwind N  @bound N  (bounded counterexample search size)"""
    src = open(path).read()
    mo = re.search(r'/\*@unit(.*?)@end\*/', src, re.S)
    u = dict(name=os.path.basename(path)[:-2], path=path, spec={}, replace=[], enforce=None, flags=[], timeout=150,
             unwind=None, bound=5, inline=[], split=0, title='', noexec=False, noproof=False, trust=[], remove=[], stub=[], groups=0, define=[], light=False)
    cur = None
    if not mo:
        return u
    item = None
    def flush():
        nonlocal item, cur
        if not item:
            return
        k, v = item
        v = v.strip()
        if k == 'func':
            cur = v; u['spec'].setdefault(cur, dict(loops=[], contract=None))
        elif k == 'loop':
            u['spec'][cur]['loops'].append('' if v == '-' else v)
        elif k == 'contract':
            u['spec'][cur]['contract'] = v
            
        elif k == 'replace': u['replace'].append(v)
        elif k == 'remove': u['remove'].append(v)
        elif k == 'stub': u['stub'] += v.split()
        elif k == 'enforce': u['enforce'] = v
        elif k == 'flags': u['flags'] += v.split()
        elif k in ('timeout', 'unwind', 'bound', 'split', 'groups'): u[k] = int(v)
        elif k == 'define': u['define'] += ['-D' + x for x in v.split()]
        elif k == 'inline': u['inline'] += v.split()
        elif k == 'trust': u['trust'].append(v)
        elif k == 'title': u['title'] = v
        elif k == 'noexec': u['noexec'] = True
        elif k == 'noproof': u['noproof'] = True
        elif k == 'light':
            u['light'] = True
            u['trust'].append('unit %s leaves out the obligations on memory accesses and assigns clauses (assertions, invariants and variants are discharged); the executed units run under AddressSanitizer' % u['name'])
        else: raise Exception('unknown directive ' + k)
        item = None
    for line in mo.group(1).split('\n'):
        m2 = None if re.match(r'\s*@(body|head|after)\b', line) else re.match(r'\s*@(\w+)\s*(.*)$', line)
        if m2:
            flush(); item = [m2.group(1), m2.group(2)]
        elif item:
            item[1] += '\n' + line
    flush()
    for f in u['spec'].values():
        if not f['loops']:
            f['loops'] = None
    return u

def prove_all(u, work, tmul=1.0, pool=None):
    """prove(), once per parameter value when the unit says @split N (the instances are independent and cover all values)."""
    if not u['split']:
        return prove(u, work, None, tmul)
    ks = range(u['split'])
    f = lambda k: prove(u, '%s_%d' % (work, k), None, tmul, k)
    with ThreadPoolExecutor(u['split']) as ex:
        rs = list(ex.map(f, ks))
    r = dict(rs[0])
    for k in ('obligations', 'discharged', 'covers', 'solver_s'):
        r[k] = round(sum(x[k] for x in rs), 2)
    order = ['proved', 'unattached', 'undecided', 'failed']
    r['status'] = max((x['status'] for x in rs), key=order.index)
    r['failed'] = sorted(set(sum((x['failed'] for x in rs), [])))
    r['detail'] = '; '.join(sorted(set(x['detail'] for x in rs if x['detail'])))[:3000]
    r['work'] = next((x['work'] for x in rs if x['status'] == r['status']), rs[0]['work'])
    # an unreachable cover point of one instance is fine when another instance reaches it
    if r['status'] == 'proved':
        dead = set.intersection(*[set(x['dead']) for x in rs])
        if dead:
            r['status'] = 'undecided'; r['detail'] = 'vacuous: unreachable cover points ' + ', '.join(sorted(dead))
    return r

def prove(u, work, bound=None, tmul=1.0, part=None):
    """-> dict(status=proved|failed|unattached|undecided, obligations, discharged, failed=[...], ...)"""
    r = dict(unit=u['name'], functions=sorted(u['spec']) + u['inline'], status='undecided', obligations=0, discharged=0,
             failed=[], dead=[], work=work, covers=0, solver_s=0.0, detail='', cmd='')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    src = os.path.join(work, 'src')
    annot.flatten(REPO, src)
    if bound is None:
        try:
            r['files'] = annot.annotate(src, u['spec'])
            annot.stub(src, u['stub'])
        except annot.AttachError as e:
            r['status'] = 'unattached'; r['detail'] = str(e)
            return r
    inc = ['-I' + src, '-I' + os.path.join(src, 'parts'), '-I' + os.path.join(VERIF, 'lib'), '-I' + os.path.join(VERIF, 'units')] + INC
    dfn = ['-DVERSION="v"', '-DVH_PROOF'] + (['-DVH_BOUND=%d' % bound] if bound else []) + (['-DVH_PART=%d' % part] if part is not None else [])
    pre = ['-include', os.path.join(VERIF, 'lib', 'vh_pre.h')]
    t0 = time.time()
    for cmd in (['goto-cc', '-c'] + dfn + u['define'] + inc + pre + [os.path.join(src, 'xmq.c'), '-o', 'x.gb'],
                ['goto-cc', '-c'] + dfn + inc + [u['path'], '-o', 'h.gb'],
                ['goto-cc', '--function', 'harness', 'x.gb', 'h.gb', '-o', 'a.gb']):
        rc, out, dt = sh(cmd, 300, cwd=work)
        if rc != 0:
            r['status'] = 'unattached'; r['detail'] = 'goto-cc: ' + out[-1500:]
            return r
    for f in u['remove']:
        rc, out, dt = sh(['goto-instrument', '--remove-function-body', f, 'a.gb', 'a.gb'], 300, cwd=work)
    rc, out, dt = sh(['goto-instrument', '--drop-unused-functions', '--slice-global-inits', 'a.gb', 'a1.gb'], 300, cwd=work)
    if rc != 0:
        r['status'] = 'unattached'; r['detail'] = 'goto-instrument: ' + out[-1500:]
        return r
    un = annot.unrolls(src) if bound is None else []
    if un:
        # inner loops with a constant bound: unrolled completely (an assertion says so) before loop contracts are applied
        rc, out, dt = sh(['goto-instrument', '--show-loops', 'a1.gb'], 300, cwd=work)
        loops = re.findall(r'Loop ((\w+)\.\d+):\s*\n\s*file \S+ line (\d+)', out)
        args = []
        for fn, line, times in un:
            ids = [i for i, f, l in loops if f == fn and line - 2 <= int(l) <= line]
            if len(ids) != 1:
                r['status'] = 'unattached'; r['detail'] = 'loop to unroll not found in ' + fn
                return r
            args += ['--unwindset', '%s:%d' % (ids[0], times)]
        rc, out, dt = sh(['goto-instrument'] + args + ['--unwinding-assertions', 'a1.gb', 'a1.gb'], 300, cwd=work)
        if rc != 0:
            r['status'] = 'unattached'; r['detail'] = 'goto-instrument: ' + out[-1500:]
            return r
    if bound is None:
        cmd = ['goto-instrument', '--no-malloc-may-fail', '--dfcc', 'harness', '--apply-loop-contracts']
        for f in u['replace']:
            cmd += ['--replace-call-with-contract', f]
        if u['enforce']:
            cmd += ['--enforce-contract', u['enforce']]
        rc, out, dt = sh(cmd + ['a1.gb', 'b.gb'], 600, cwd=work)
        if rc != 0:
            r['status'] = 'unattached'; r['detail'] = 'goto-instrument --dfcc: ' + out[-1500:]
            return r
        if 'side-effect' in out and 'warning' in out.lower() and False:
            pass
    else:
        shutil.copyfile(os.path.join(work, 'a1.gb'), os.path.join(work, 'b.gb'))
    cmd = ['cbmc', '--json-ui', '--no-standard-checks', '--pointer-check', '--bounds-check', '--signed-overflow-check', '--div-by-zero-check',
           '--unwinding-assertions', '--no-malloc-may-fail'] + u['flags']
    if bound is not None:
        cmd += ['--unwind', str(bound + 4), '--trace', '--stop-on-fail']
        cmd.remove('--unwinding-assertions'); cmd.append('--no-unwinding-assertions')
    else:
        cmd += ['--unwind', str(u['unwind'] or 6)]
    r['cmd'] = ' '.join(cmd) + ' b.gb'
    if bound is None:
        # comparing a pointer that lies a few bytes outside its object is accepted (COMMON_TRUST); dereferences stay checked
        rc, out, dt = sh(cmd + ['--show-properties', 'b.gb'], 120, cwd=work)
        try:
            props = [p for it in json.loads(out) for p in it.get('properties', [])]
        except ValueError:
            props = []
        drop = [p for p in props if p['description'].startswith('pointer relation: pointer outside object bounds')]
        if u['light']:
            # @light: memory obligations are left to the execution under ASan (said in the evidence); kept: assertions, invariants, variants
            drop += [p for p in props if p not in drop and not ('invariant' in p['name'] or 'decreases' in p['name'] or
                     ('assertion' in p['name'] and 'CPROVER' not in p['name']))]
        keep = [p for p in props if p not in drop]
        want = set(p['name'] for p in keep)
    # @groups N: the obligations go to N solver runs (each run sees the same program; together they cover every obligation)
    sets = [None]
    if bound is None and u['groups'] and keep:
        hard = [p for p in keep if 'invariant' in p['name'] or 'decreases' in p['name'] or ('assertion' in p['name'] and 'CPROVER' not in p['name']) or 'outside object bounds' in p['description']]
        easy = [p for p in keep if p not in hard]
        n = min(u['groups'], max(1, len(hard)))
        m = max(1, n // 12) # a unit with many groups has its other obligations in groups, too
        sets = [hard[k::n] for k in range(n)] + [easy[k::m] for k in range(m) if easy[k::m]]
    elif bound is None and drop:
        sets = [keep]
    # cadical first; when it does not come back in time, minisat (two solvers: a slow query is often slow for one only)
    tries = [[]] if u['flags'] else [['--sat-solver', 'cadical'], []]
    def solve(sel):
        c = list(cmd)
        for p in sel or []:
            c += ['--property', p['name']]
        spent = 0.0
        for k, solver in enumerate(tries):
            with SLOTS:
                left = u['timeout'] * tmul
                if DEADLINE[0]:
                    left = max(1, min(left, (DEADLINE[0] - time.time()) * (0.6 if len(tries) > k + 1 else 1)))
                rc, out, dt = sh(c + solver + ['b.gb'], left, cwd=work)
            spent += dt
            if rc != 'timeout':
                break
        return rc, out, spent, solver
    if len(sets) == 1:
        outs = [solve(sets[0])]
    else:
        with ThreadPoolExecutor(len(sets)) as ex:
            outs = list(ex.map(solve, sets))
    r['solver_s'] = round(sum(o[2] for o in outs), 2)
    r['solver'] = ' '.join(sorted(set(' '.join(o[3]) or ' '.join(u['flags']) or 'minisat2' for o in outs)))
    rc = 'timeout' if any(o[0] == 'timeout' for o in outs) else outs[0][0]
    if len(outs) == 1:
        out = outs[0][1]
    else:
        merged = []
        for o in outs:
            try:
                merged += json.loads(o[1])
            except ValueError:
                if o[0] != 'timeout':
                    rc = o[0]
                merged += [dict(messageType='ERROR', messageText='no result: ' + o[1][-300:])]
        one, seen = [], set()
        for it in merged:
            for p in it.get('result', []):
                if p['property'] not in seen:
                    seen.add(p['property']); one.append(p)
        out = json.dumps([it for it in merged if 'result' not in it] + ([dict(result=one)] if one else []))
    open(os.path.join(work, 'cbmc.json'), 'w').write(out)
    if rc == 'timeout' and len(outs) == 1:
        r['detail'] = 'solver time out after %d s' % u['timeout']
        return r
    try:
        js = json.loads(out)
    except ValueError:
        r['detail'] = 'cbmc output not parsed (rc %s): %s' % (rc, out[-800:])
        return r
    res = None
    err = ' '.join(str(it.get('messageText')) for it in js if it.get('messageType') == 'ERROR' or it.get('messageText') == 'Out of memory')
    for it in js:
        if 'result' in it:
            res = it['result']
        if 'cProverStatus' in it:
            r['cprover'] = it['cProverStatus']
    if bound is not None:
        r['js'] = js
        return r
    if res is None:
        r['detail'] = 'cbmc gave no result (rc %s): %s' % (rc, str([i.get('messageText') for i in js if i.get('messageType') == 'ERROR'])[-800:])
        return r
    fails, cov_fail, cov_ok, und = [], 0, [], []
    for p in res:
        d = p.get('description', '')
        st = p['status']
        if d.startswith('COVER '):
            if st == 'FAILURE': cov_fail += 1
            else: cov_ok.append(d)
            continue
        r['obligations'] += 1
        if st == 'SUCCESS':
            r['discharged'] += 1
        else:
            loc = p.get('sourceLocation', {})
            (fails if st == 'FAILURE' else und).append('%s: %s [%s:%s %s]' % (p['property'], d, os.path.basename(loc.get('file', '?')),
                                                                   loc.get('line', '?'), loc.get('function', '?')))
    r['covers'] = cov_fail
    r['dead'] = cov_ok
    r['failed'] = fails
    if fails and all('unwinding assertion' in f for f in fails):
        # a loop without contract (not one the unit knows): the proof does not apply to this code
        r['status'] = 'unattached'; r['detail'] = 'loop without contract: ' + '; '.join(fails[:4])
    elif fails:
        r['status'] = 'failed'
        r['detail'] = '; '.join(fails[:6])
    elif cov_ok and part is None:
        r['status'] = 'undecided'; r['detail'] = 'vacuous: unreachable cover points ' + ', '.join(cov_ok)
    elif cov_fail == 0 or r['obligations'] == 0:
        r['status'] = 'undecided'; r['detail'] = 'vacuous: no reachable cover point or no obligation'
    elif und:
        r['detail'] = 'unknown: ' + '; '.join(und[:4])
    elif err or want - set(p['property'] for p in res):
        r['detail'] = 'incomplete result (%d of %d obligations): %s' % (len(res), len(want), err)
    else:
        r['status'] = 'proved'
    return r

def bounded_cex(u, work, bound):
    """CBMC without loop contracts on buffers of at most `bound` bytes; -> (p, g, hex) of a counterexample or None."""
    r = prove(u, work, bound=bound)
    js = r.get('js')
    if not js:
        return None
    vals = {}
    for it in js:
        for p in it.get('result', []):
            if p['status'] == 'FAILURE' and not p.get('description', '').startswith('COVER') and p.get('trace'):
                for s in p['trace']:
                    if s.get('stepType') == 'assignment':
                        lhs = s.get('lhs', '')
                        v = s.get('value', {})
                        if lhs.startswith('vh_cex_'):
                            m = re.match(r'vh_cex_b\[(\d+)', lhs)
                            if m and 'binary' in v: vals[int(m.group(1))] = int(v['binary'], 2) & 255
                            elif 'binary' in v: vals[lhs] = int(v['binary'], 2)
                n = vals.get('vh_cex_n', 0)
                b = bytes(vals.get(i, 0) for i in range(n))
                return vals.get('vh_cex_p', 0), vals.get('vh_cex_g', 0), b.hex(), p.get('description', '')
    return None
