#!/usr/bin/env python3
"""Frame conditions of the annotated loops.

A loop that carries DRIFT_LOOP_INVARIANT("name", v1, v2, ...) is verified by a cut:
its invariant is asserted, v1, v2, ... and the buffers take arbitrary values that
satisfy it, and one arbitrary iteration is explored. That is sound only if the loop
changes nothing else. This is decided here on clang's syntax tree of the current
source: everything declared outside the loop that is not listed may only be read,
and only operations on queues and locks (which the engine tracks) may change what
a pointer leads to. Whatever this cannot tell to be harmless counts as a change.
"""
import json, os, re, subprocess, sys

PRE = 'template <class... T> void vc_loop_annotation(const char*, T&...);\n'
LOOPS = ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt')
PASS = ('UncheckedDerivedToBase', 'DerivedToBase')
PURE = ('abs', 'fabs', 'min', 'max', 'isnan', 'isfinite', 'isinf', 'sqrt', 'pow', 'move', 'forward', 'to_string', 'get')
STREAMS = ('cout', 'cerr', 'clog')


def tree(src, flt, inc):
    cmd = ['clang++-18', '-std=c++17', '-fsyntax-only', '-w'] + inc + [
        '-DDRIFT_VERIFY', '-DDRIFT_LOOP_INVARIANT(...)=vc_loop_annotation(__VA_ARGS__)', '-include', '/dev/stdin',
        '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + flt, src]
    p = subprocess.run(cmd, input=PRE.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    txt = p.stdout.decode('utf8', 'replace')
    dec, i, res = json.JSONDecoder(), 0, []
    while True:
        while i < len(txt) and txt[i] != '{':
            j = txt.find('\n', i)
            i = len(txt) if j < 0 else (j + 1 if txt[i] not in ' \n' else i + 1)
        if i >= len(txt):
            break
        o, i = dec.raw_decode(txt, i)
        res.append(o)
    return res, (p.stderr.decode('utf8', 'replace')[-300:] if p.returncode else '')


def walk(n, parents=()):
    yield n, parents
    for c in n.get('inner', []):
        if c:
            yield from walk(c, parents + (n,))


def annotation(call):
    """name and listed references of vc_loop_annotation(...), or None"""
    if call.get('kind') != 'CallExpr':
        return None
    inner = call.get('inner', [])
    if not any(x.get('referencedDecl', {}).get('name') == 'vc_loop_annotation' for x, _ in walk(inner[0])):
        return None
    name, listed = None, set()
    for a in inner[1:]:
        for x, _ in walk(a):
            if x.get('kind') == 'StringLiteral':
                name = json.loads(x['value'])
            if x.get('kind') == 'DeclRefExpr':
                listed.add(x['referencedDecl']['id'])
            if x.get('kind') == 'MemberExpr':
                listed.add(x.get('referencedMemberDecl'))
    return name, listed


def typ(n):
    t = n.get('type', {})
    return t.get('desugaredQualType', t.get('qualType', ''))


def const(t):
    return t.startswith('const ') or t.endswith(' const')


def pointee(base):
    """the type a pointer expression leads to"""
    t = typ(base)
    if 'element_type' not in t:
        return re.sub(r'\s*\*.*$', '', t)
    for n, _ in walk(base):                       # of a shared_ptr
        if n is not base and n.get('kind') in ('ImplicitCastExpr', 'MemberExpr', 'DeclRefExpr'):
            m = re.match(r'(?:const )?std::_*shared_ptr(?:_access)?<(.*?)(, __gnu_cxx::[\w:]+(, [\w]+)*)?>$', typ(n))
            if m:
                return m.group(1)
    return t


def tracked(t):
    """a queue or a lock: the engine's ghost state follows it"""
    t = re.sub(r'\s*[*&]+$', '', t.replace('const ', ''))
    return bool(re.match(r'(class )?(std::)?(queue<.*>|mutex)$', t))


def changes(loop, listed):
    """what the loop may change beyond its annotation"""
    own = set()                                   # made anew in every iteration
    head = loop.get('inner', [{}])[0] if loop.get('kind') == 'ForStmt' else None
    for n, parents in walk(loop):
        if n.get('kind', '').endswith('Decl') and 'id' in n and n.get('storageClass') != 'static':
            if head is None or not (n is head or any(p is head for p in parents)):
                own.add(n['id'])
    bad = ['range'] if loop.get('kind') == 'CXXForRangeStmt' else []

    def harmless(n, parents, what):
        """is this lvalue only read, given what surrounds it?"""
        child = n
        for p in reversed(parents):
            k = p.get('kind')
            if const(typ(child)):
                return True
            if k == 'ParenExpr' or (k in ('ImplicitCastExpr',) and p.get('castKind') in PASS):
                child = p
                continue
            if k == 'ImplicitCastExpr':
                if p.get('castKind') == 'LValueToRValue':
                    return True
                if p.get('castKind') == 'NoOp' and const(typ(p)):
                    return True
                if p.get('castKind') == 'ArrayToPointerDecay':
                    return const(typ(p))
                return False
            if k == 'MemberExpr':
                if typ(p) == '<bound member function type>':
                    return tracked(typ(child))
                child = p                     # a part of it
                continue
            if k in ('CompoundStmt', 'ExprWithCleanups'):
                return True                   # value not used
            return False
        return False

    for n, parents in walk(loop):
        k = n.get('kind')
        if annotation(n):
            continue
        if any(annotation(p) for p in parents):
            continue
        if k == 'DeclRefExpr':
            d = n.get('referencedDecl', {})
            if d.get('kind') in ('VarDecl', 'ParmVarDecl', 'BindingDecl', 'FieldDecl') and d['id'] not in own and d['id'] not in listed and d.get('name') not in STREAMS:
                if not harmless(n, parents, d.get('name')):
                    bad.append('variable ' + d.get('name', '?'))
        elif k == 'MemberExpr':
            base = n.get('inner', [{}])[0]
            method = typ(n) == '<bound member function type>'
            if n.get('isArrow'):
                t = pointee(base)
                if method:
                    if not (const(typ(base)) or tracked(t)):
                        bad.append('call of %s on something of type %s' % (n.get('name'), t))
                elif n.get('referencedMemberDecl') not in listed and not harmless(n, parents, n.get('name')):
                    bad.append('member ' + n.get('name', '?'))
        elif k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            if n.get('valueCategory') == 'lvalue' and not const(typ(n)):
                shift = k == 'CXXOperatorCallExpr' and any(x.get('referencedDecl', {}).get('name') == 'operator<<' for x, _ in walk(n.get('inner', [{}])[0]))
                assign = k == 'CXXOperatorCallExpr' and any(x.get('referencedDecl', {}).get('name') == 'operator=' for x, _ in walk(n.get('inner', [{}])[0]))
                if not shift and not harmless(n, parents, 'result') and not assign:
                    bad.append('the result of a call, as something to change')
            if k == 'CallExpr':                   # a free function may keep a state of its own
                f = next((x.get('referencedDecl', {}).get('name') for x, _ in walk(n.get('inner', [{}])[0]) if x.get('kind') == 'DeclRefExpr'), '?')
                if f not in PURE:
                    bad.append('a call of ' + str(f))
            if k == 'CallExpr' or k == 'CXXMemberCallExpr':
                onq = False
                if k == 'CXXMemberCallExpr':
                    m = n.get('inner', [{}])[0]
                    onq = m.get('kind') == 'MemberExpr' and tracked(pointee(m.get('inner', [{}])[0]))
                for a in n.get('inner', [])[1:]:
                    t = typ(a)
                    if not onq and (('*' in t and not const(t)) or ('shared_ptr<' in t and not re.search(r'shared_ptr<const ', t))):
                        bad.append('a pointer handed to a function')
        elif k == 'UnaryOperator' and n.get('opcode') == '*':
            if not harmless(n, parents, 'pointee'):
                bad.append('what a pointer leads to')
        elif k == 'LambdaExpr':
            bad.append('a lambda')
        elif k == 'CXXThisExpr':
            up = [p for p in parents if not (p.get('kind') == 'ImplicitCastExpr' and p.get('castKind') in PASS)]
            if not (up and up[-1].get('kind') == 'MemberExpr'):
                bad.append('the object itself')
        elif k in ('CXXDeleteExpr', 'CXXNewExpr', 'AsmStmt', 'GotoStmt'):
            bad.append(k)
    return sorted(set(bad))


def frames(src, inc):
    """{loop name: '' or why its annotation may not be complete}"""
    text = open(src).read()
    res, classes = {}, set()
    for m in re.finditer(r'DRIFT_LOOP_INVARIANT\(\s*"([^"]*)"', text):
        res[m.group(1)] = 'not found in the syntax tree'
        f = re.findall(r'^[^\s#/].*?\b(\w+)::~?\w+\s*\(', text[:m.start()], re.M)
        classes.add(f[-1] + '::' if f else '')
    for c in sorted(classes - {''}):
        try:
            trees, err = tree(src, c, inc)
        except Exception as e:
            trees, err = [], str(e)[-200:]
        for t in trees:
            for n, parents in walk(t):
                if n.get('kind') not in LOOPS:
                    continue
                body = [x for x in n.get('inner', []) if x and x.get('kind') == 'CompoundStmt']
                mine = [annotation(x) for b in body for s in b.get('inner', []) for x in [s.get('inner', [s])[0] if s.get('kind') == 'ExprWithCleanups' else s] if annotation(x)]
                for name, listed in mine:
                    if name not in res:
                        continue
                    if err:
                        res[name] = 'source not accepted by clang: ' + err
                    elif any(p.get('kind') in LOOPS for p in parents):
                        res[name] = 'inside another loop'
                    elif res[name] not in ('not found in the syntax tree',):
                        res[name] = 'several loops of this name'
                    else:
                        b = changes(n, listed)
                        res[name] = 'may also change: ' + ', '.join(b) if b else ''
    return res


if __name__ == '__main__':
    repo = os.environ.get('VC_REPO', '/repo')
    for f in sys.argv[1:]:
        for k, v in frames(f, ['-I/usr/include/eigen3', '-I' + repo + '/include']).items():
            print('%-28s %s' % (k, v or 'complete'))
