"""Mechanical annotation of the real C sources.

flatten() copies xmq.c and every parts/*.c / *.h it includes into one scratch directory, byte for byte, and
annotate() then inserts CBMC contract clauses (text supplied by a unit file) at the places C requires them:
  * loop contracts directly behind the head of the k-th loop of a named function;
  * ghost statements at the beginning of a loop body and behind a loop: assignments of ghost variables, and pointer identities
    (p = base + (offset of p), asserted to be the identity, which tell the checker the object p points into);
  * function contracts between the parameter list and the body of a named function.
Nothing is removed from or rewritten in the code; if a function or loop is not found, AttachError is raised and the
unit is reported as not attached (never as proved)."""
import os, re, shutil

class AttachError(Exception):
    pass

def mask(src):
    """Same-length copy of src where comments, string and char literals and preprocessor lines are blanked."""
    out = list(src)
    i, n = 0, len(src)
    def blank(a, b):
        for k in range(a, b):
            if out[k] != '\n':
                out[k] = ' '
    bol = True
    while i < n:
        c = src[i]
        if src.startswith('//', i):
            j = src.find('\n', i)
            j = n if j < 0 else j
            blank(i, j); i = j; continue
        if src.startswith('/*', i):
            j = src.find('*/', i + 2)
            j = n if j < 0 else j + 2
            blank(i, j); i = j; continue
        if c == '"' or c == "'":
            j = i + 1
            while j < n and src[j] != c:
                if src[j] == '\\':
                    j += 1
                elif src[j] == '\n':
                    break
                j += 1
            j = min(j + 1, n)
            blank(i, j); i = j; bol = False; continue
        if c == '#' and bol:
            j = i
            while True:
                k = src.find('\n', j)
                if k < 0:
                    k = n; break
                if src[k - 1] == '\\':
                    j = k + 1; continue
                break
            # leave comments inside directives alone: blank everything
            blank(i, k); i = k; continue
        if c == '\n':
            bol = True
        elif not c.isspace():
            bol = False
        i += 1
    return ''.join(out)

def match(m, i, o, c):
    d = 0
    for k in range(i, len(m)):
        if m[k] == o:
            d += 1
        elif m[k] == c:
            d -= 1
            if d == 0:
                return k
    raise AttachError('unbalanced %s%s' % (o, c))

def find_func(m, name):
    """-> (index of ')' closing the params, index of '{', index of '}') of the definition of name."""
    hits = []
    for mo in re.finditer(r'(?<![\w.>])%s\s*\(' % re.escape(name), m):
        p = mo.end() - 1
        try:
            q = match(m, p, '(', ')')
        except AttachError:
            continue
        mo2 = re.compile(r'\s*\{').match(m, q + 1)
        if not mo2:
            continue
        # the token before the name must be a type/`*`, not an operator or keyword of a statement
        pre = m[:mo.start()].rstrip()
        if not pre or not (pre[-1].isalnum() or pre[-1] in '_*'):
            continue
        w = re.search(r'(\w+)$', pre)
        if w and w.group(1) in ('return', 'else', 'do', 'while', 'if', 'for', 'switch'):
            continue
        b = mo2.end() - 1
        e = match(m, b, '{', '}')
        hits.append((q, b, e))
    if len(hits) != 1:
        raise AttachError('function %s: %d definitions found' % (name, len(hits)))
    return hits[0]

def find_loops(m, b, e):
    """Positions (insert offsets) behind the loop heads inside m[b:e], in textual order of the loop keyword."""
    loops, dos = [], []
    toks = list(re.finditer(r'\b(for|while|do)\b', m[b:e]))
    done = set()
    for t in toks:
        k = b + t.start()
        if t.group(1) == 'do':
            j = b + t.end()
            mo = re.compile(r'\s*\{').match(m, j)
            if not mo:
                raise AttachError('do without block')
            end = match(m, mo.end() - 1, '{', '}')
            mo = re.compile(r'\s*while\s*\(').match(m, end + 1)
            if not mo:
                raise AttachError('do without while')
            kw = mo.start() + mo.group(0).index('while')
            done.add(kw)
            q = match(m, mo.end() - 1, '(', ')')
            loops.append(q + 1)
        else:
            if k in done:
                continue
            mo = re.compile(r'\s*\(').match(m, b + t.end())
            if not mo:
                raise AttachError('loop head')
            q = match(m, mo.end() - 1, '(', ')')
            loops.append(q + 1)
    return loops

def flatten(repo, dst):
    """Copy the C sources byte for byte (keeping the layout) into dst."""
    src = os.path.join(repo, 'src/main/c')
    os.makedirs(os.path.join(dst, 'parts'), exist_ok=True)
    for d in ('', 'parts'):
        for f in os.listdir(os.path.join(src, d)):
            p = os.path.join(src, d, f)
            if f.endswith(('.c', '.h')) and os.path.isfile(p):
                shutil.copyfile(p, os.path.join(dst, d, f))

def sources(dst):
    r = ['xmq.c'] + sorted('parts/' + f for f in os.listdir(os.path.join(dst, 'parts')) if f.endswith('.c'))
    return r

def stub(dst, names):
    """The definition of each function gets the name real_<name> (nothing else changes), so that calls go to the
    function the unit supplies: its contract, written as code. The contract is discharged on the definition by another unit."""
    for fn in names:
        for rel in sources(dst):
            p = os.path.join(dst, rel)
            s = open(p, encoding='utf-8', errors='surrogateescape').read()
            if fn not in s:
                continue
            m = mask(s)
            try:
                q, b, e = find_func(m, fn)
            except AttachError:
                continue
            at = [mo.start() for mo in re.finditer(r'(?<![\w.>])%s\s*\(' % re.escape(fn), m) if mo.start() < q][-1]
            st = max(m.rfind(c, 0, at) for c in ';}{') + 1
            decl = re.sub(r'\b(static|inline)\b', '', m[st:q + 1]).strip()
            lead = len(m[st:at]) - len(m[st:at].lstrip())
            s = s[:st + lead] + decl + ';\n' + s[st + lead:at] + 'real_' + s[at:]
            open(p, 'w', encoding='utf-8', errors='surrogateescape').write(s)
            break
        else:
            raise AttachError('function %s not found' % fn)

def annotate(dst, spec):
    """spec: { func: {'loops': [clause text, ...] or None, 'contract': text or None} }.
    Returns {func: file}."""
    files = {}
    cache = {}
    for fn in spec:
        hit = None
        for rel in sources(dst):
            p = os.path.join(dst, rel)
            if p not in cache:
                s = open(p, encoding='utf-8', errors='surrogateescape').read()
                cache[p] = (s, mask(s))
            s, m = cache[p]
            if fn not in s:
                continue
            try:
                find_func(m, fn)
            except AttachError:
                continue
            if hit:
                raise AttachError('function %s defined in %s and %s' % (fn, hit, rel))
            hit = rel
        if not hit:
            raise AttachError('function %s not found' % fn)
        files[fn] = hit
    ins = {}
    for fn, sp in spec.items():
        p = os.path.join(dst, files[fn])
        s, m = cache[p]
        q, b, e = find_func(m, fn)
        if sp.get('contract'):
            ins.setdefault(p, []).append((q + 1, '\n' + sp['contract'] + '\n'))
        if sp.get('loops') is not None:
            lo = find_loops(m, b, e)
            if len(lo) != len(sp['loops']):
                raise AttachError('function %s has %d loops, contract has %d' % (fn, len(lo), len(sp['loops'])))
            for at, cl in zip(lo, sp['loops']):
                mo = re.match(r'unroll (\d+)\s*$', cl)
                if mo:
                    ins.setdefault(p, []).append((at, ' /*VUNROLL %s %s*/ ' % (fn, mo.group(1))))
                    continue
                cl, _, after = cl.partition('@after')
                cl, _, ghost = cl.partition('@body')
                if cl.strip():
                    ins.setdefault(p, []).append((at, '\n' + cl + '\n'))
                if ghost.strip() or after.strip():
                    mo = re.compile(r'\s*\{').match(m, at)
                    if mo and mo.end() <= e:
                        a, z, o, c = mo.end(), match(m, mo.end() - 1, '{', '}') + 1, '', ''
                    else:
                        # a body that is one expression statement gets braces
                        mo = re.compile(r'\s*(?!(?:if|for|while|do|switch|return|break|continue|goto)\b)[^;{}]*;').match(m, at)
                        if not mo or mo.end() > e:
                            raise AttachError('function %s: loop body is not a block' % fn)
                        a, z, o, c = at, mo.end(), '{', '}'
                    if ghost.strip():
                        ins.setdefault(p, []).append((a, '\n' + o + ghost.strip() + '\n'))
                    elif o:
                        c = ''
                    if after.strip() or c:
                        ins.setdefault(p, []).append((z, c + '\n' + after.strip() + '\n'))
    for p, l in ins.items():
        s = cache[p][0]
        # several insertions at one place keep their order
        for at, t in sorted(reversed(l), key=lambda x: -x[0]):
            s = s[:at] + t + s[at:]
        open(p, 'w', encoding='utf-8', errors='surrogateescape').write(s)
    return files

def unrolls(dst):
    """[(function, line of the loop, times)] of the loops marked '@loop unroll N' (constant bound, unrolled before contracts apply)."""
    r = []
    for rel in sources(dst):
        for k, l in enumerate(open(os.path.join(dst, rel), encoding='utf-8', errors='surrogateescape')):
            for mo in re.finditer(r'/\*VUNROLL (\w+) (\d+)\*/', l):
                r.append((mo.group(1), k + 1, int(mo.group(2))))
    return r
