"""Loop invariants on the real source.

CBMC's own loop contracts cannot call predicate functions, so an invariant is attached by inserting a
cut point at the head of the loop in a copy of the source made on every run (nothing else of the text
changes):
    assert(INV); if (second visit) assume(false); havoc every variable the loop modifies; assume(INV);
i.e. the initiation and preservation obligations of the invariant, for any number of iterations.
The loop is found by function and ordinal in clang's AST; the variables the invariant speaks about are
found by type among the variables the loop modifies, so renaming or reordering does not detach it.
Every modified variable is havocked: pointers from the unit's pool, anything else by an arbitrary value.
If the annotation cannot be attached the unit is undecided (never an alarm) and the bounded units decide.
"""
import json, os, re, subprocess

LOOPS = ('WhileStmt', 'ForStmt', 'DoStmt')


def off(loc):
    if 'expansionLoc' in loc:
        return None
    return loc.get('offset')


def children(n):
    return [c for c in n.get('inner', []) if isinstance(c, dict)]


def walk(n):
    yield n
    for c in children(n):
        yield from walk(c)


def ast(ctx, u, src, fn):
    from vfrun import REPO, VERIF
    cmd = ['clang', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + fn] + \
        ['-I' + ctx.inc, '-I' + os.path.join(REPO, 'src')] + [f for f in u.cflags if f.startswith('-D')] + [src]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
    txt = p.stdout.decode('utf-8', 'replace')
    dec = json.JSONDecoder()
    i, out = 0, []
    while True:
        while i < len(txt) and txt[i] != '{':
            i += 1
        if i >= len(txt):
            return out
        o, i = dec.raw_decode(txt, i)
        out.append(o)


def strip(n):
    while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr') and children(n):
        n = children(n)[0]
    return n


def base_var(n):
    """the declared variable an lvalue is (part of); None if it goes through a pointer"""
    while True:
        n = strip(n)
        k = n.get('kind')
        if k == 'DeclRefExpr':
            return n['referencedDecl']
        if k == 'MemberExpr' and not n.get('isArrow'):
            n = children(n)[0]
            continue
        return None


def modified(loop):
    """variables in scope at the loop head that its condition, increment or body may change"""
    inner = {d['id'] for d in walk(loop) if d.get('kind') in ('VarDecl', 'ParmVarDecl')}
    if loop.get('kind') == 'ForStmt' and loop.get('inner'):
        inner -= {d['id'] for d in walk(loop['inner'][0]) if d.get('kind') == 'VarDecl'}     # in scope at the head
    out = {}
    for n in walk(loop):
        k = n.get('kind')
        t = None
        if k in ('BinaryOperator', 'CompoundAssignOperator') and (k == 'CompoundAssignOperator' or n.get('opcode') == '='):
            t = children(n)[0]
        elif k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&'):
            t = children(n)[0]
        if t is not None:
            v = base_var(t)
            if v and v.get('kind') in ('VarDecl', 'ParmVarDecl') and v['id'] not in inner:
                out[v['name']] = v['type']
    return out


def norm(t):
    return re.sub(r'\s+', ' ', t.replace('*', ' * ')).strip()


def types(t):
    return {norm(t.get('qualType', '')), norm(t.get('desugaredQualType', ''))} - {''}


def expand_foreach(ctx, src, d):
    """invocations of the list-walking macro are replaced by its own definition, so that its loop can be annotated"""
    from vfrun import SRC
    path = os.path.join(SRC, src)
    s = open(path).read()
    try:
        h = open(os.path.join(ctx.inc, 'metac/backend/list.h')).read()
    except OSError:
        return path
    m = re.search(r'^#[ \t]*define[ \t]+LIST_FOREACH\(([^)]*)\)((?:[^\n]*\\\n)*[^\n]*)', h, re.M)
    if not m or 'LIST_FOREACH' not in s:
        return path
    names = [x.strip() for x in m.group(1).split(',')]
    body = ' '.join(m.group(2).replace('\\\n', ' ').split())

    def sub(x):
        args = [a.strip() for a in x.group(1).split(',')]
        if len(args) != len(names):
            return x.group(0)
        return re.sub(r'\b(%s)\b' % '|'.join(names), lambda y: args[names.index(y.group(1))], body)
    out = os.path.join(d, 'exp_' + src)
    open(out, 'w').write(re.sub(r'\bLIST_FOREACH\(([^()]*)\)', sub, s))
    return out


def apply_cuts(ctx, u, d):
    if not u.cuts:
        return {}, [], None
    from vfrun import SRC
    edits, pre, notes, paths = {}, {}, [], {}
    for n, c in enumerate(u.cuts):
        if c['src'] not in paths:
            paths[c['src']] = expand_foreach(ctx, c['src'], d)
        path = paths[c['src']]
        try:
            objs = ast(ctx, u, path, c['fn'])
        except Exception as e:
            return {}, notes, 'clang AST of %s: %s' % (c['src'], e)
        fns = [o for o in objs if o.get('kind') == 'FunctionDecl' and o.get('name') == c['fn'] and any(x.get('kind') == 'CompoundStmt' for x in children(o))]
        if len(fns) != 1:
            return {}, notes, 'function %s not found in %s' % (c['fn'], c['src'])
        loops = [x for x in walk(fns[0]) if x.get('kind') in LOOPS and off(x['range']['begin']) is not None]
        if c.get('count') is not None and len(loops) != c['count']:
            return {}, notes, '%s has %d loops, invariants are written for %d' % (c['fn'], len(loops), c['count'])
        if c['loop'] >= len(loops):
            return {}, notes, 'loop %d of %s not found' % (c['loop'], c['fn'])
        lp = loops[c['loop']]
        mod = modified(lp)
        roles = {}
        for r, ty in c.get('roles', {}).items():
            tys = [ty] if isinstance(ty, str) else ty
            m = [v for v in mod if set(tys) & types(mod[v])]
            if len(m) != 1:
                return {}, notes, 'loop of %s: %d modified variables of type %s' % (c['fn'], len(m), ty)
            roles[r] = m[0]
        inv = c['inv']
        for r, v in roles.items():
            inv = inv.replace('{%s}' % r, v)
        havoc = c.get('heap', '') + ' '
        for v, ty in mod.items():
            tt = types(ty)
            h = next((e for k, e in c.get('pool', {}).items() if k in tt), None)
            if h:
                havoc += '%s = %s; ' % (v, h)
            elif any(x.endswith('*') for x in tt):
                return {}, notes, 'loop of %s modifies pointer %s of unexpected type' % (c['fn'], v)
            else:
                havoc += '{ __typeof__(%s) vf_t; %s = vf_t; } ' % (v, v)
        cut = '{ int vf_holds = (%s); __CPROVER_assert(vf_once_%d || vf_holds, "VF:entry invariant of %s"); __CPROVER_assert(!vf_once_%d || vf_holds, "VF:invariant of %s"); } if (vf_once_%d) __CPROVER_assume(0); vf_once_%d = 1; %s __CPROVER_assume(%s);' % (inv, n, c['id'], n, c['id'], n, n, havoc, inv)
        s = open(path, 'rb').read()
        b = off(lp['range']['begin'])
        e = off(lp['range']['end'])
        if e is None:
            return {}, notes, 'loop of %s ends in a macro' % c['fn']
        e += lp['range']['end'].get('tokLen', 1)
        ed = edits.setdefault(c['src'], [])
        k = lp['kind']
        if k == 'DoStmt':
            body = children(lp)[0]
            if body.get('kind') != 'CompoundStmt' or off(body['range']['begin']) is None:
                return {}, notes, 'do-while without braces'
            ed.append((off(body['range']['begin']) + 1, ' ' + cut + ' '))
            while s[e:e + 1] != b';':
                e += 1
                if e >= len(s):
                    return {}, notes, 'do-while end not found'
            e += 1
        else:
            # the parenthesised head: find it textually from the loop keyword
            i = s.index(b'(', b)
            depth, j, semis = 0, i, []
            while True:
                ch = s[j:j + 1]
                if ch in (b'"', b"'"):
                    q = ch
                    j += 1
                    while s[j:j + 1] != q:
                        j += 2 if s[j:j + 1] == b'\\' else 1
                elif ch == b'(':
                    depth += 1
                elif ch == b')':
                    depth -= 1
                    if depth == 0:
                        break
                elif ch == b';' and depth == 1:
                    semis.append(j)
                j += 1
            if k == 'WhileStmt':
                lo, hi = i + 1, j
            else:
                lo, hi = semis[0] + 1, semis[1]
            cond = s[lo:hi].strip()
            ed.append((lo, ' ({ %s 1; }) %s' % (cut, '&& (' if cond else '')))
            if cond:
                ed.append((hi, ')'))
            # an empty body statement ("while (...);") ends at its semicolon already
            if s[e - 1:e] not in (b'}', b';'):
                while s[e:e + 1] != b';':
                    e += 1
                e += 1
        ed.append((b, '{ int vf_once_%d = 0; ' % n))
        ed.append((e, ' }'))
        pre.setdefault(c['src'], []).append(c.get('prelude', ''))
        notes.append('invariant attached: %s (modifies %s)' % (c['id'], ', '.join(sorted(mod))))
    out = {}
    for src, ed in edits.items():
        s = open(paths[src], 'rb').read()
        for o, t in sorted(ed, key=lambda x: -x[0]):
            s = s[:o] + t.encode() + s[o:]
        s = ''.join('#include "%s"\n' % p for p in dict.fromkeys(pre[src]) if p).encode() + b'#line 1 "%s"\n' % os.path.join(SRC, src).encode() + s
        p = os.path.join(d, 'cut_' + src)
        open(p, 'wb').write(s)
        out[src] = p
    return out, notes, None
