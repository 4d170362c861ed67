"""C05 (data races), C06 (exceptions in parallel loops), C20 (reproducible random numbers), C21 (interrupts)."""
from omp import *
from interp import *
from ctxcall import Thrower

# functors that are handed only to serial minimisers and live as local variables of one function; the rule
# serial-functor re-checks on every run that every instance is such a local variable
SERIAL_FUNCTORS = {'math::SplineLogDensityLambdaFinder': 'smoothing-parameter search functor, a local of splineLogDensity() used by the serial findMin/findRoot'}


def serial_functor(cls):
    return cls is not None and cls.split('<')[0] in SERIAL_FUNCTORS


def check_c05(rep):
    prog = Program()
    cg = Calls(prog)
    R = Races(cg)
    regs = parallel_regions(prog)
    seen = {}
    for f, n in regs:
        before = R.nwrites
        out = R.region(f, n)
        bad = 0
        for fn, nd, txt, chain in out:
            cls = fn.cls
            if serial_functor(cls):
                continue
            bad += 1
            key = '%s: %s' % (qual(fn.key), txt)
            rep.bad('race', key, fn.loc(nd), '%s, not protected and not confined to the current iteration (parallel region %s in %s)' % (txt, f.loc(n), f.q),
                    ['called through: ' + ' -> '.join(qual(c) for c in chain)] if chain else [])
        if not bad:
            rep.ok('race', '%s %s: %d writes examined' % (f.loc(n), f.q, R.nwrites - before))
    rep.require('race', 40, 'parallel regions')
    rep.notes.append('%d functions analysed from %d parallel regions, %d write sites examined' % (len(R.nfun), len(regs), R.nwrites))
    if R.nwrites < 10000:
        raise AnalysisError('only %d write sites were reached from parallel regions' % R.nwrites)
    # instances of the excepted functors
    for f in prog.functions.values():
        for n in f.walk():
            if n.k == 'NewE' and n.t.sub is not None and serial_functor(n.t.sub.name):
                rep.bad('serial-functor', qual(f.key), f.loc(n), 'a functor excepted as serial is created on the heap')
    for f, n in regs:
        for m in n.walk():
            if m.t is not None and m.t.k == 'rec' and serial_functor(m.t.name):
                rep.bad('serial-functor', qual(f.key), f.loc(m), 'a functor excepted as serial is used in a parallel region')
    rep.ok('serial-functor')
    # the Torus machine: run() of the batch class that reaches it must be able to disable parallelisation
    nser = 0
    tor = set(k for k in prog.functions if k.startswith(SERIAL))
    if tor:
        for f in prog.functions.values():
            for n in f.walk():
                if n.k == 'MCall' and qual(n.a[0] or '').endswith('BatchFunction::run'):
                    cls = n.c[0].t.strip().name if n.c[0].t is not None else None
                    s = strip_casts(n.c[0])
                    if s is not None and s.t is not None and s.t.strip().name in prog.classes:
                        cls = s.t.strip().name
                    meth = [m for c in prog.subclasses(cls) for m in prog.methods if prog.methods[m][0] == c and prog.methods[m][1] in ('processPoint', 'processManyPoints')]
                    if not meth:
                        continue
                    reach = direct_reach(prog, cg, meth)
                    if not any(t in reach for t in tor):
                        continue
                    nser += 1
                    arg = strip_casts(n.c[1])
                    if may_be_zero(arg):
                        rep.ok('serial-torus', f.loc(n))
                    else:
                        rep.bad('serial-torus', '%s: %s' % (qual(f.key), cls), f.loc(n), 'a batch computation which may use the thread-unsafe Torus machine is always parallelised')
        rep.require('serial-torus', 1)
    return prog


def direct_reach(prog, cg, roots):
    """functions reachable by calls of action mappers from the given methods (virtual dispatch on mappers only)"""
    res = set()
    work = list(roots)
    while work:
        k = work.pop()
        if k in res:
            continue
        res.add(k)
        f = prog.functions.get(k)
        if f is None:
            continue
        for n, key, v in cg.sites(f):
            if not key:
                continue
            if v and 'ActionMapper' in key:
                work += prog.targets(key, True)
            elif not v and key in prog.functions:
                work.append(key)
    return res


def may_be_zero(n):
    n = strip_casts(n)
    if n is None:
        return False
    if n.k == 'Cond':
        return may_be_zero(n.c[1]) or may_be_zero(n.c[2])
    if n.k in ('Int', 'Bool'):
        return str(n.a) in ('0', 'false')
    if n.k == 'Un' and n.a == '-':
        return may_be_zero(n.c[0])
    return True


# ---------------------------------------------------------------- C06 / C21
def is_cbrk(n, name):
    return n.k in ('Call', 'MCall') and qual(n.a[0] or '') == 'utils::CtrlBreakHandler::' + name


def mentions(n, keys):
    for x in n.walk():
        k = varkey(x)
        if k is not None and k in keys:
            return True
    return False


def varkey(n):
    if n.k == 'Ref' and n.a[0] == 'L':
        return ('v', n.a[1])
    if n.k == 'Ref' and n.a[0] == 'G':
        return ('v', n.a[1])
    if n.k == 'Member' and n.a[0] == 'M' and n.c and strip_casts(n.c[0]) is not None and strip_casts(n.c[0]).k == 'This':
        return ('v', n.a[1])
    return None


def is_string(t):
    return t is not None and 'basic_string' in (t.deref().s + (t.deref().name or ''))


class Captured(object):
    """what an exception handler stores: text variables and flags"""
    def __init__(self, prog):
        self.p = prog

    def binding(self, f, m, bind):
        """reference and pointer parameters of f -> variables of the caller"""
        def key(e):
            k = varkey(strip_casts(e)) if strip_casts(e) is not None else None
            return bind.get(k, k) if k is not None else None
        b = {}
        for (pid, pn, pt, _), a in zip(f.params, call_args(m)):
            if pt.k in ('ref', 'ptr') and a is not None:
                k = key(a)
                if k is None and strip_casts(a) is not None and strip_casts(a).k == 'Un' and strip_casts(a).a == '&':
                    k = key(strip_casts(a).c[0])
                if k:
                    b[('v', pid)] = k
        return b

    def effects(self, n, depth=0, bind=None):
        """(set of text variable keys, {flag key: TRUE/None})"""
        txt, flags = set(), {}
        bind = bind or {}

        def key(e):
            k = varkey(strip_casts(e)) if strip_casts(e) is not None else None
            return bind.get(k, k) if k is not None else None
        for m in n.walk():
            if m.k == 'OpCall' and m.a[0] and 'operator=' in m.a[0] and len(m.c) == 2 and is_string(m.c[0].t):
                k = key(m.c[0])
                if k:
                    txt.add(k)
            elif m.k == 'MCall' and m.a[0] and qual(m.a[0]).rsplit('::', 1)[-1] in ('assign', 'append', 'swap') and is_string(m.c[0].t):
                k = key(m.c[0])
                if k:
                    txt.add(k)
            elif m.k == 'OpCall' and m.a[0] and 'operator+=' in m.a[0] and is_string(m.c[0].t):
                k = key(m.c[0])
                if k:
                    txt.add(k)
            elif m.k == 'Assign' and m.c[0].t is not None and m.c[0].t.k in ('bool', 'int', 'uint'):
                k = key(m.c[0])
                if k:
                    lit = literal(m.c[1])
                    flags[k] = TRUE if lit not in (None, '0', 'false') else None
            elif m.k == 'OpCall' and m.a[0] and 'operator=' in m.a[0] and len(m.c) == 2 and 'exception_ptr' in m.c[0].t.s:
                k = key(m.c[0])
                if k:
                    txt.add(k)
            elif m.k in ('Call', 'MCall') and m.a[0] in self.p.functions and depth < 3:
                f = self.p.functions[m.a[0]]
                b = self.binding(f, m, bind)
                if f.body is not None:
                    t2, f2 = self.effects(f.body, depth + 1, b)
                    own = set(b.values())
                    txt |= set(k for k in t2 if k in own or not isinstance(k[1], int))
                    for k, v in f2.items():
                        if k in own or not isinstance(k[1], int):
                            flags[k] = v
        return txt, flags


class AfterRegion(Interp):
    """tracks an error captured (or an interrupt noticed) in a parallel region until it is raised"""
    K = 200

    def __init__(self, prog, f, rep=None, depth=0, thr=None):
        Interp.__init__(self, prog, f)
        self.rep = rep
        self.depth = depth
        self.cap = Captured(prog)
        self.regions = []
        self.lost = []

    def pkey(self, st):
        return (st.get('pend'), st.get('int'))

    def omp_region(self, n, sts):
        if 'parallel' not in n.a[0]:
            return Interp.omp_region(self, n, sts)
        handlers, binds = [], {}
        inloop = set()
        for m in n.walk():
            if m.k == 'Catch':
                handlers.append(m)
                for x in m.walk():
                    inloop.add(id(x))
            elif m.k in ('Call', 'MCall') and m.a[0] in self.p.functions:
                # handlers inside a helper function that store the error in variables passed by reference
                g = self.p.functions[m.a[0]]
                for h in g.walk():
                    if h.k == 'Catch':
                        b = self.cap.binding(g, m, {})
                        if self.cap.effects(h, 1, b)[0] & set(b.values()):
                            handlers.append(h)
                            binds[id(h)] = b
        self.regions.append((n, handlers))
        path = {}

        def down(x, anc):
            for c in x.c:
                if c is not None:
                    path[id(c)] = anc + [(x, c)]
                    down(c, path[id(c)])
        down(n, [])
        # other modifications in the region
        otxt, oflags = set(), {}
        for m in n.walk():
            if id(m) in inloop:
                continue
            if m.k in ('Assign', 'OpCall', 'AssignOp') and m.c:
                k = varkey(strip_casts(m.c[0])) if strip_casts(m.c[0]) is not None else None
                if k:
                    otxt.add(k)
        hascb = any(is_cbrk(m, 'triggered') for m in n.walk())
        out = []
        for st in sts:
            base = st
            for k in otxt:
                base = base.drop(k)
            # flags captured by handlers are not raised unless some handler ran
            out.append(base)
            for h in handlers:
                b = binds.get(id(h))
                txt, flags = self.cap.effects(h, 1 if b else 0, b)
                if b:
                    txt = txt & set(b.values())
                    flags = dict((k, v) for k, v in flags.items() if k in b.values())
                s = base
                for k in txt:
                    s = s.set(k, 'N')
                for k, v in flags.items():
                    s = s.set(k, v) if v is not None else s.drop(k)
                s = s.set('pend', (n.line, tuple(sorted(map(str, txt)))))
                s = s.set('ptxt', frozenset(txt))
                out += self.rest(path.get(id(h)), s, txt)
            if hascb:
                s = base.set('int', n.line)
                for m in n.walk():
                    if m.k == 'If' and m.c[1] is not None and m.c[2] is not None and any(is_cbrk(x, 'triggered') for x in m.c[1].walk()):
                        txt, flags = self.cap.effects(m.c[2])
                        for k in txt:
                            s = s.set(k, 'N')
                        for k, v in flags.items():
                            if v is not None:
                                s = s.set(k, v)
                out.append(s)
        return self.merge(out)

    def rest(self, anc, s, txt):
        """what follows the handler within the same iteration may hand on the flags it has raised"""
        if not anc:
            return [s]
        sts = [s]
        ctl = Ctl()
        self.loops.append(ctl)
        try:
            for x, c in reversed(anc):
                if x.k == 'Block' and c in x.c:
                    for y in x.c[x.c.index(c) + 1:]:
                        sts = self.stmt(y, sts)
                elif x.k in ('For', 'While', 'Do', 'OMP'):
                    if x.k != 'OMP' or 'critical' not in x.a[0]:
                        break
        finally:
            self.loops.pop()
        sts = sts + ctl.cont + ctl.brk
        res = []
        for t in sts:
            if t.get('pend') != s.get('pend'):
                continue
            for k in txt:
                t = t.set(k, 'N')
            res.append(t)
        return res or [s]

    def vardecl(self, v, st):
        res = []
        if is_string(v.t) and v.t.k == 'rec' and v.a[0] and v.c and v.c[0] is not None:
            # a local text built from the stored one carries it
            if st.get('pend') and (mentions(v.c[0], st.get('ptxt', frozenset())) or any(is_cbrk(x, 'message') for x in v.c[0].walk())):
                st = st.set('ptxt', frozenset(list(st.get('ptxt', ())) + [('v', v.a[0])]))
                return [s.set(('v', v.a[0]), 'N') for s in Interp.vardecl(self, v, st)]
        if is_string(v.t) and v.t.k == 'rec' and v.a[0]:
            k = ('v', v.a[0])
            src = strip_casts(v.c[0]) if v.c and v.c[0] is not None else None
            if src is None or src.k == 'New0' and not [c for c in src.c if c is not None and c.k != 'DefArg']:
                return [st.set(k, 'E')]
        return Interp.vardecl(self, v, st)

    def bind(self, v, st, val):
        if v.a[0]:
            k = ('v', v.a[0])
            if val in (TRUE, FALSE, 'E', 'N'):
                return st.set(k, val)
            return st.drop(k)
        return st

    def assume(self, n, v, st, truth):
        s = strip_casts(n)
        k = varkey(s) if s is not None else None
        if v in ('E', 'N'):
            return [st] if (v == 'N') == truth else []
        if k is not None and n.t is not None and n.t.k == 'bool':
            return [st.set(k, TRUE if truth else FALSE)]
        if s is not None and is_cbrk(s, 'triggered'):
            return [st.set('int', n.line)] if truth else [st]
        if s is not None and s.k == 'MCall' and self.isempty(s):
            k = varkey(strip_casts(s.c[0]))
            if k:
                return [st.set(k, 'E' if truth else 'N')]
        return [st]

    def isempty(self, s):
        return qual(s.a[0] or '').endswith('::empty') and is_string(s.c[0].t)

    def post(self, n, st, vals):
        k = n.k
        if k == 'Ref' or k == 'Member':
            kk = varkey(n)
            return [(st, st.get(kk) if kk is not None else None)]
        if k == 'Cast':
            v = vals[0] if vals else None
            return [(st, v if v in (TRUE, FALSE, 'E', 'N') else None)]
        if k in ('Call', 'MCall', 'OpCall', 'New0'):
            return self.call(n, st, vals)
        if k == 'Bin' and n.a in ('==', '!=', '>', '<', '>=', '<='):
            a, b = vals
            if n.a in ('==', '!='):
                for x, y, e in ((a, b, n.c[1]), (b, a, n.c[0])):
                    if x in (TRUE, FALSE) and y in (TRUE, FALSE):
                        return [(st, TRUE if (x == y) == (n.a == '==') else FALSE)]
                    if x in ('E', 'N') and literal(e) == '0':
                        return [(st, TRUE if (x == 'E') == (n.a == '==') else FALSE)]
            if n.a in ('>', '>=') and a in ('E', 'N') and literal(n.c[1]) == ('0' if n.a == '>' else '1'):
                return [(st, TRUE if a == 'N' else FALSE)]
            return [(st, None)]
        if k == 'Assign':
            kk = varkey(strip_casts(n.c[0])) if strip_casts(n.c[0]) is not None else None
            if kk is not None:
                v = vals[1]
                if n.c[0].t is not None and n.c[0].t.k == 'bool':
                    lit = literal(n.c[1])
                    if lit is not None:
                        v = TRUE if lit not in ('0', 'false') else FALSE
                return [(st.set(kk, v) if v in (TRUE, FALSE) else st.drop(kk), v)]
            return [(st, None)]
        if k == 'AssignOp' and n.c:
            kk = varkey(strip_casts(n.c[0])) if strip_casts(n.c[0]) is not None else None
            if kk is not None:
                a, b = vals
                if n.a == '|=' and (a == TRUE or b == TRUE):
                    return [(st.set(kk, TRUE), TRUE)]
                if n.a == '|=' and a == FALSE and b == FALSE:
                    return [(st.set(kk, FALSE), FALSE)]
                return [(st.drop(kk), None)]
        if k == 'Int':
            return [(st, FALSE if str(n.a) == '0' and n.t is not None and n.t.k == 'bool' else None)]
        return [(st, None)]

    def call(self, n, st, vals):
        key = n.a[0]
        q = qual(key) if key else ''
        name = q.rsplit('::', 1)[-1]
        args = call_args(n)
        if is_cbrk(n, 'triggered'):
            return [(st, TRUE if st.get('int') else None)]
        if n.k == 'MCall' and is_string(n.c[0].t):
            kk = varkey(strip_casts(n.c[0])) if strip_casts(n.c[0]) is not None else None
            v = vals[0]
            if name == 'empty':
                return [(st, TRUE if v == 'E' else FALSE if v == 'N' else None)]
            if name in ('size', 'length', 'c_str', 'data'):
                return [(st, v)]
            if name == 'clear' and kk:
                return [(st.set(kk, 'E'), None)]
            if kk and not key.endswith('const'):
                return [(st.drop(kk), None)]
            return [(st, None)]
        if n.k == 'OpCall' and n.c and n.c[0] is not None and is_string(n.c[0].t):
            kk = varkey(strip_casts(n.c[0])) if strip_casts(n.c[0]) is not None else None
            if 'operator=' in (key or '') and 'operator==' not in key and kk:
                src = n.c[1]
                v = 'N' if any(is_cbrk(x, 'message') for x in src.walk()) else vals[1] if vals[1] in ('E', 'N') else None
                ss = strip_casts(src)
                if ss is not None and ss.k == 'Str':
                    v = 'N' if len(ss.a or '') else 'E'
                s2 = st.set(kk, v) if v else st.drop(kk)
                if st.get('pend') and any(is_cbrk(x, 'message') for x in src.walk()):
                    s2 = s2.set('ptxt', frozenset(list(st.get('ptxt', ())) + [kk]))
                return [(s2, None)]
            if ('operator==' in (key or '') or 'operator!=' in key) and len(n.c) == 2:
                lit = [x for x in (strip_casts(n.c[0]), strip_casts(n.c[1])) if x is not None and x.k == 'Str']
                if lit and not lit[0].a and vals[0] in ('E', 'N'):
                    eq = vals[0] == 'E'
                    return [(st, TRUE if eq == ('operator==' in key) else FALSE)]
            return [(st, None)]
        pend = st.get('pend')
        inter = st.get('int')
        if q in ('PyErr_SetString', 'PyErr_Format', 'PyErr_SetObject', 'PyErr_SetNone', 'PyErr_SetInterrupt'):
            return [(self.raised(n, st, args), None)]
        if q in ('std::rethrow_exception', 'abort', 'exit'):
            return []
        f = self.p.functions.get(key) if key else None
        if (pend or inter) and f is not None and f.body is not None and not n.a[1] and self.depth < 3 and self.relevant(f, args, st):
            init = S()
            names = {}
            for (pid, pn, pt, _), a, v in zip(f.params, args, vals[len(vals) - len(args):] if args else ()):
                if v in ('E', 'N', TRUE, FALSE):
                    init = init.set(('v', pid), v)
                if a is not None and pend and mentions(a, st.get('ptxt', frozenset())):
                    names[pid] = True
            if pend:
                init = init.set('pend', pend).set('ptxt', frozenset(('v', p) for p in names))
            if inter:
                init = init.set('int', inter)
            sub = AfterRegion(self.p, f, None, self.depth + 1)
            res = []
            for kind, nd, s2, v in sub.run(init):
                if kind == 'throw':
                    continue
                s = st
                if pend and not s2.get('pend'):
                    s = s.drop('pend', 'ptxt')
                if inter and not s2.get('int'):
                    s = s.drop('int')
                res.append((s, v if v in (TRUE, FALSE) else None))
            self.lost += [(x[0], x[1], x[2]) for x in sub.lost]
            return res
        if n.k == 'New0' and is_string(n.t):
            for v in vals:
                if v in ('E', 'N'):
                    return [(st, v)]
        return [(st, None)]

    def relevant(self, f, args, st):
        if any(a is not None and mentions(a, st.get('ptxt', frozenset())) for a in args):
            return True
        for m in f.walk():
            if m.k == 'Throw' or m.k == 'Call' and qual(m.a[0] or '').startswith('PyErr_Set') or is_cbrk(m, 'triggered'):
                return True
            if m.k == 'Call' and qual(m.a[0] or '').endswith('raisePythonException'):
                return True
        return False

    def raised(self, n, st, args):
        keep = st
        pend = st.get('pend')
        if pend:
            ok = any(a is not None and (mentions(a, st.get('ptxt', frozenset())) or any(is_cbrk(x, 'message') for x in a.walk())) for a in args)
            if not ok and self.depth == 0:
                self.lost.append((n, pend, st))
        return keep.drop('pend', 'ptxt', 'int')

    def throwstmt(self, n, st):
        pend = st.get('pend')
        if pend and not (mentions(n, st.get('ptxt', frozenset())) or any(is_cbrk(x, 'message') for x in n.walk())) and self.depth == 0:
            self.lost.append((n, pend, st))
        self.raise_(n, st.drop('pend', 'ptxt', 'int'))


class EvalThrows(object):
    """may-throw queries at call sites, with the values of constant arguments and known classes of receivers"""
    def __init__(self, prog):
        self.t = Thrower(prog)     # math::blas_* excepted: they throw only on mismatched dimensions (a programming error)

    def at(self, f, n):
        return self.t.site(f, {}, n)


def unguarded(prog, th, f, n):
    bad = []
    cnt = 0
    for c in n.c:
        for m, g in walk_guarded(c):
            if m.k == 'Throw':
                cnt += 1
                if not g:
                    bad.append((m, 'throw expression', 'throw'))
            elif m.k in CALLS and m.a[0]:
                t = th.at(f, m)
                if t:
                    cnt += 1
                    if not g:
                        bad.append((m, qual(m.a[0]), ' -> '.join(t)))
                elif m.a[0] not in prog.functions and qual(m.a[0]).startswith('std::') and any(qual(m.a[0]).endswith(e) for e in Throws.EXT):
                    cnt += 1
                    if not g:
                        bad.append((m, qual(m.a[0]), 'standard library'))
    return cnt, bad


def region_functions(prog):
    res = {}
    for f, n in parallel_regions(prog):
        res.setdefault(f.key, (f, []))[1].append(n)
    return res


def check_c06(rep):
    prog = Program()
    cg = Calls(prog)
    th = EvalThrows(prog)
    fns = region_functions(prog)
    for f, regs in fns.values():
        for n in regs:
            cnt, bad = unguarded(prog, th, f, n)
            if bad:
                for m, what, chain in bad:
                    rep.bad('escape', '%s: %s' % (f.q, what), f.loc(m), 'an exception from %s would leave the parallel region at %s and terminate the process' % (what, f.loc(n)), ['may throw: ' + chain])
            else:
                rep.ok('escape', '%s %s: %d calls that may throw, all inside a try block' % (f.loc(n), f.q, cnt))
        it = AfterRegion(prog, f)
        exits = it.run()
        regd = {}
        for n, hs in it.regions:
            regd[n.line] = (n, hs)
        for n in regs:
            if n.line not in regd and any(m.k == 'Catch' for m in n.walk()):
                raise AnalysisError('the parallel region at %s was not reached by the interpreter' % f.loc(n))
        # handlers that capture nothing
        cap = Captured(prog)
        for n, hs in regd.values():
            for h in hs:
                txt, flags = cap.effects(h)
                rethrow = any(x.k == 'Throw' for x in h.walk())
                if not txt and not rethrow:
                    rep.bad('captured', '%s: handler' % f.q, f.loc(h), 'the exception handler in the parallel region at %s does not store the text of the error' % f.loc(n))
                else:
                    rep.ok('captured', f.loc(h))
        swallowed = {}
        for kind, nd, st, v in exits:
            if kind in ('return', 'end') and st.get('pend'):
                swallowed.setdefault(st.get('pend')[0], nd)
        for line, (n, hs) in regd.items():
            if not hs:
                continue
            if line in swallowed:
                nd = swallowed[line]
                rep.bad('rethrown', '%s: region' % f.q, f.loc(nd) if nd is not None else 'src/%s:%d' % (f.file, f.end),
                        'an error stored in the parallel region at %s is not raised on a path that returns normally here' % f.loc(n))
            else:
                rep.ok('rethrown', '%s %s' % (f.loc(n), f.q))
        for nd, pend, st in it.lost:
            rep.bad('text', '%s: text' % f.q, f.loc(nd) if nd.fn is f else '', 'the error raised here does not carry the text stored in the parallel region at line %d' % pend[0])
        if any(hs for n, hs in regd.values()) and not it.lost:
            rep.ok('text')
    rep.require('escape', 40)
    rep.require('captured', 25)
    rep.require('rethrown', 25)
    return prog


class SkipRun(AfterRegion):
    """executes the body of a parallel loop after an interrupt: records evaluations that are still made"""
    def __init__(self, prog, f, th):
        AfterRegion.__init__(self, prog, f, None, 3)
        self.th = th
        self.second = False
        self.made = []

    def post(self, n, st, vals):
        if n.k in CALLS and n.a[0] and self.second:
            t = self.th.at(n.fn or self.f, n)
            if t:
                self.made.append((n, t))
        return AfterRegion.post(self, n, st, vals)

    def omp_region(self, n, sts):
        for c in n.c:
            if c is not None:
                sts = self.stmt(c, sts)
        return sts


def check_c21(rep):
    prog = Program()
    cg = Calls(prog)
    th = EvalThrows(prog)
    H = 'utils::CtrlBreakHandler'
    if H not in prog.classes:
        raise AnalysisError('class %s has vanished' % H)
    # ---- users
    for f in list(prog.functions.values()):
        decl = [n for n in f.walk() if n.k == 'Var' and n.t is not None and n.t.deref().name == H and n.t.k == 'rec']
        for n in f.walk():
            if n.k == 'NewE' and n.t.sub is not None and n.t.sub.name == H:
                rep.bad('scoped', qual(f.key), f.loc(n), 'a Ctrl-Break handler is created on the heap: its destructor does not run on every exit')
        uses = any(is_cbrk(n, 'triggered') for n in f.walk())
        if not decl and not uses:
            continue
        if qual(f.key).startswith(H):
            continue
        for v in decl:
            if v.a[2]:
                rep.bad('scoped', '%s: %s' % (qual(f.key), v.a[1]), f.loc(v), 'a Ctrl-Break handler has static storage: the previous handler is not restored')
            else:
                rep.ok('scoped', f.loc(v))
        if decl and not uses and not any(is_cbrk(n, 'triggered') for k in cg.reach([f.key]) if k in prog.functions and k != f.key for n in prog.functions[k].walk()):
            rep.bad('polled', qual(f.key), f.loc(decl[0]), 'the Ctrl-Break state is never tested')
        it = AfterRegion(prog, f)
        exits = it.run()
        bad = [x for x in exits if x[0] in ('return', 'end') and x[2].get('int')]
        if uses:
            if bad:
                nd = bad[0][1]
                rep.bad('raised', qual(f.key), f.loc(nd) if nd is not None else 'src/%s:%d' % (f.file, f.end),
                        'returns normally although an interrupt was noticed at line %s' % bad[0][2].get('int'))
            else:
                rep.ok('raised', '%s %s' % (f.loc(), f.q))
        if decl:
            for n in f.walk():
                if n.k == 'OMP' and 'parallel' in n.a[0] and any(m.k == 'Catch' for m in n.walk()):
                    # remaining iterations must be skipped
                    loops = [m for m in n.walk() if m.k == 'For' and is_omp_loop(n, m)]
                    for lp in loops:
                        if not any(m.k == 'Catch' for m in lp.walk()):
                            continue
                        sk = SkipRun(prog, f, th)
                        ctl = Ctl()
                        sk.loops.append(ctl)
                        st = S({'int': lp.line})
                        for w in f.walk():
                            if w.k == 'Var' and w.a[0] and w.t is not None and w.t.k == 'bool':
                                st = st.set(('v', w.a[0]), FALSE)
                        sts = sk.stmt(lp.c[3], [st])
                        sts = sk.merge(sts + ctl.cont)
                        ctl.cont = []
                        sk.second = True
                        sk.stmt(lp.c[3], sts)
                        if sk.made:
                            m, t = sk.made[0]
                            rep.bad('skipped', '%s: %s' % (qual(f.key), qual(m.a[0])), f.loc(m), 'after an interrupt the remaining iterations of the parallel loop at %s still evaluate %s' % (f.loc(lp), qual(m.a[0])))
                        else:
                            rep.ok('skipped', f.loc(lp))
    # ---- the handler class itself
    sigs = []
    for f in prog.functions.values():
        for n in f.walk():
            if n.k == 'Call' and qual(n.a[0] or '') in ('signal', 'sigaction', 'std::signal'):
                sigs.append((f, n))
    ctor = [f for f in prog.functions.values() if f.cls == H and 'K' in f.fl and 'k' not in f.fl]
    dtor = [f for f in prog.functions.values() if f.cls == H and 'D' in f.fl]
    if not ctor or not dtor:
        raise AnalysisError('constructor or destructor of %s not found' % H)
    creach = cg.reach([f.key for f in ctor])
    dreach = cg.reach([f.key for f in dtor])
    nsave = nrest = 0
    store = None
    for f, n in sigs:
        if f.key in creach:
            nsave += 1
            store = saved_in(f, n)
            if store is None:
                rep.bad('restore', 'ctor', f.loc(n), 'the previously installed signal handler is not saved')
            else:
                rep.ok('restore', f.loc(n))
        elif f.key in dreach:
            nrest += 1
        elif f.file.startswith('torus'):
            pass
        else:
            rep.bad('who-may-signal', qual(f.key), f.loc(n), 'a signal handler is installed outside CtrlBreakHandler and never restored')
    if not nsave:
        raise AnalysisError('CtrlBreakHandler does not install a signal handler')
    for f in dtor:
        r = RestoreRun(prog, f, store)
        ex = r.run()
        for kind, nd, st, v in ex:
            if not st.get('restored') and kind != 'throw':
                rep.bad('restore', 'dtor', f.loc(nd) if nd is not None else f.loc(), 'the destructor may finish without restoring the previous signal handler')
                break
        else:
            rep.ok('restore', f.loc())
    rep.require('raised', 8)
    rep.require('scoped', 8)
    rep.require('skipped', 5)
    return prog


def saved_in(f, sig):
    """variable/container that receives the result of signal()"""
    for n in f.walk():
        if n.k in ('MCall', 'Assign', 'OpCall') and any(x is sig for x in n.walk()):
            if n.k == 'MCall' and qual(n.a[0] or '').rsplit('::', 1)[-1] in ('push_back', 'push', 'emplace_back', 'push_front'):
                return describe(n.c[0])
            if n.k == 'Assign':
                return describe(n.c[0])
        if n.k == 'Var' and n.c and n.c[0] is not None and any(x is sig for x in n.c[0].walk()):
            # stored in a local first: follow
            for m in f.walk():
                if m.k == 'MCall' and qual(m.a[0] or '').rsplit('::', 1)[-1] in ('push_back', 'push', 'emplace_back') and any(x.k == 'Ref' and x.a[0] == 'L' and x.a[1] == n.a[0] for x in m.walk()):
                    return describe(m.c[0])
                if m.k == 'Assign' and any(x.k == 'Ref' and x.a[0] == 'L' and x.a[1] == n.a[0] for x in m.c[1].walk()):
                    return describe(m.c[0])
    return None


class RestoreRun(Interp):
    def __init__(self, prog, f, store, depth=0):
        Interp.__init__(self, prog, f)
        self.store = store
        self.depth = depth

    def bind(self, v, st, val):
        return st.set(('v', v.a[0]), val) if v.a[0] and val == 'SAVED' else st

    def post(self, n, st, vals):
        if n.k == 'Cast':
            return [(st, vals[0] if vals else None)]
        if n.k == 'Ref' and n.a[0] == 'L':
            return [(st, st.get(('v', n.a[1])))]
        if n.k in ('MCall', 'OpCall', 'Idx', 'Member', 'Ref', 'Un') and self.store and (describe(n) == self.store or n.c and n.c[0] is not None and describe(n.c[0]) == self.store):
            return [(st, 'SAVED')]
        if n.k == 'Un' and vals and vals[0] == 'SAVED':
            return [(st, 'SAVED')]
        if n.k == 'Call' and qual(n.a[0] or '') in ('signal', 'std::signal', 'sigaction'):
            if 'SAVED' in vals:
                return [(st.set('restored', True), None)]
        elif n.k == 'Call' and n.a[0] in self.p.functions and self.depth < 2:
            sub = RestoreRun(self.p, self.p.functions[n.a[0]], self.store, self.depth + 1)
            return [(s, None) for kind, nd, s, v in sub.run(st) if kind != 'throw']
        return [(st, None)]


def is_omp_loop(region, loop):
    """is this For the loop of a worksharing directive in the region"""
    for m in region.walk():
        if m.k == 'OMP' and 'for' in m.a[0].split():
            x = m.c[0]
            while x is not None and x.k == 'Block' and len(x.c) == 1:
                x = x.c[0]
            if x is loop:
                return True
    return False


# ---------------------------------------------------------------- C20
ENTROPY = ('rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'time', 'std::time', 'clock', 'std::clock', 'gettimeofday', 'clock_gettime', 'getpid',
           'std::rand', 'std::srand', 'getrandom', 'getentropy', 'arc4random', 'gsl_rng_alloc', 'omp_get_wtime')
GENERATOR = 'PRNGState'


class RandomUse(object):
    """which functions draw from the shared (per-thread) default generator: always, or when the pointer to the
    generator state passed as parameter j is null"""
    def __init__(self, prog, cg):
        self.p = prog
        self.always = {}
        self.cond = {}
        self.globals = set()
        base = [g for g in prog.globals.values() if g['t'].strip().name and 'RandGen' in g['t'].strip().name]
        if not base:
            raise AnalysisError('the default random generator (a global of type RandGenStorage) was not found')
        gk = set(g['key'] for g in base)
        self.gk = gk
        # direct users
        for f in prog.functions.values():
            refs = [n for n in f.walk() if n.k == 'Ref' and n.a[0] == 'G' and n.a[1] in gk]
            if refs:
                j = self.stateparam(f)
                if f.n in ('randomize',):
                    self.always[f.key] = 'seeds the default generator'
                    continue
                if j is not None and self.guarded(f, refs, f.params[j][0]):
                    self.cond.setdefault(f.key, set()).add(j)
                else:
                    self.always[f.key] = 'uses the default generator at ' + f.loc(refs[0])
        callers = {}
        for f in prog.functions.values():
            for n, key, v in cg.sites(f):
                if key:
                    for t in prog.targets(key, v):
                        callers.setdefault(t, []).append((f, n))
        self.callers = callers
        work = list(self.always) + list(self.cond)
        while work:
            k = work.pop()
            for f, n in callers.get(k, ()):
                if f.key in self.always:
                    continue
                if k in self.always:
                    self.always[f.key] = 'calls %s at %s' % (qual(k), f.loc(n))
                    work.append(f.key)
                    continue
                for j in self.cond[k]:
                    args = call_args(n)
                    a = strip_casts(args[j]) if j < len(args) else None
                    if a is None or a.k == 'Null' or a.k == 'Int':
                        self.always[f.key] = 'calls %s with the default generator at %s' % (qual(k), f.loc(n))
                        work.append(f.key)
                    elif a.k == 'Ref' and a.a[0] == 'L' and a.a[3]:
                        idx = [i for i, p_ in enumerate(f.params) if p_[0] == a.a[1]]
                        if idx and idx[0] not in self.cond.setdefault(f.key, set()):
                            self.cond[f.key].add(idx[0])
                            work.append(f.key)

    def stateparam(self, f):
        for i, p_ in enumerate(f.params):
            if p_[2].k == 'ptr' and p_[2].sub is not None and p_[2].sub.s.replace('math::', '').split()[-1] in (GENERATOR, 'long', 'unsigned long', 'uint64_t') and not p_[2].sub.const:
                return i
        return None

    def guarded(self, f, refs, pid):
        it = NullGuard(self.p, f, pid, set(id(r) for r in refs))
        it.run()
        return not it.bad


class NullGuard(Interp):
    """are the given references reached only when parameter pid is null"""
    def __init__(self, prog, f, pid, refs):
        Interp.__init__(self, prog, f)
        self.pid = pid
        self.refs = refs
        self.bad = False
        self.lastinit = None

    def run(self, init=None, inits=True):
        return Interp.run(self, S({'p': '?'}))

    def is_p(self, n):
        s = strip_casts(n)
        return s is not None and s.k == 'Ref' and s.a[0] == 'L' and s.a[1] == self.pid

    def assume(self, n, v, st, truth):
        if self.is_p(n):
            want = 'nn' if truth else 'null'
        elif n.k == 'Bin' and n.a in ('==', '!=') and (self.is_p(n.c[0]) or self.is_p(n.c[1])):
            want = 'null' if (n.a == '==') == truth else 'nn'
        else:
            return [st]
        if st.get('p') == '?':
            return [st.set('p', want)]
        return [st] if st.get('p') == want else []

    def post(self, n, st, vals):
        if id(n) in self.refs and st.get('p') != 'null':
            self.bad = True
        return [(st, None)]


def schedule_kind(omp):
    for c in omp.a[1:]:
        if c[0] == 'schedule':
            return str(c[1])
    return None


def check_c20(rep):
    prog = Program()
    cg = Calls(prog)
    ru = RandomUse(prog, cg)
    # ---- parallel loops
    for f, reg in parallel_regions(prog):
        loops = [m for m in reg.walk() if m.k == 'OMP' and 'for' in m.a[0].split()]
        for lp in loops:
            sch = schedule_kind(lp)
            static = sch is not None and sch.startswith('static')
            bad = []
            nc = 0
            for m in lp.walk():
                if m.k in CALLS and m.a[0]:
                    nc += 1
                    for t in prog.targets(m.a[0], bool(m.a[1])):
                        if t in ru.always:
                            bad.append((m, t, ru.always[t]))
                        elif t in ru.cond:
                            for j in ru.cond[t]:
                                args = call_args(m)
                                a = strip_casts(args[j]) if j < len(args) else None
                                if a is None or a.k in ('Null', 'Int'):
                                    bad.append((m, t, 'with the default generator'))
                                elif not own_state(f, lp, a):
                                    bad.append((m, t, 'with a generator state that is not private to the iteration'))
            ts = [m for m in lp.walk() if m.k == 'Call' and qual(m.a[0] or '') == 'omp_get_thread_num']
            if static:
                bad = [b for b in bad if 'not private' in b[2]]
                ts = []
            if bad:
                m, t, why = bad[0]
                tr = []
                k = t
                while k in ru.always and len(tr) < 8:
                    tr.append('%s: %s' % (qual(k), ru.always[k]))
                    nxt = [x for x in ru.always if ru.always[k].startswith('calls ' + qual(x) + ' ')]
                    k = nxt[0] if nxt and nxt[0] != k else None
                rep.bad('parallel-draw', '%s: %s' % (qual(f.key), qual(m.a[0])), f.loc(m),
                        'random numbers are drawn %s inside a parallel loop with %s scheduling (%s)' % (why, sch or 'unspecified', f.loc(lp)), tr)
            elif ts and any(x.k == 'Ref' or 1 for x in ts) and seeds_from_thread(lp, ts):
                rep.bad('parallel-draw', '%s: thread number' % qual(f.key), f.loc(ts[0]), 'a generator is seeded from the thread number in a loop with %s scheduling' % (sch or 'unspecified'))
            else:
                rep.ok('parallel-draw', '%s %s schedule(%s): %d calls' % (f.loc(lp), f.q, sch, nc))
    # ---- seeds
    nseed = 0
    for f in prog.functions.values():
        for n in f.walk():
            if n.k == 'Call' and n.a[0] and qual(n.a[0]) in ENTROPY:
                if allowed_entropy(prog, f, n):
                    rep.ok('entropy', '%s in %s' % (qual(n.a[0]), f.q))
                else:
                    rep.bad('entropy', '%s: %s' % (qual(f.key), qual(n.a[0])), f.loc(n), 'unrequested source of randomness or of the current time: ' + qual(n.a[0]))
            elif n.t is not None and n.k in ('Var', 'New0') and n.t.strip().name and 'random_device' in n.t.strip().name:
                rep.bad('entropy', '%s: random_device' % qual(f.key), f.loc(n), 'unrequested source of randomness')
    # ---- static-schedule loops that draw from the per-thread generator exist only in known form
    rep.require('parallel-draw', 40)
    rep.require('entropy', 1)
    if not ru.cond:
        raise AnalysisError('no function with an optional generator argument was found')
    rep.notes.append('%d functions always draw from the default generator, %d only if given a null generator' % (len(ru.always), len(ru.cond)))
    # a local generator seeded inside a loop body must depend on the data of the iteration: math::hash of addresses of shared objects
    return prog


def seeds_from_thread(lp, ts):
    ids = set(id(x) for x in ts)
    for m in lp.walk():
        if m.k == 'Var' and m.t is not None and (GENERATOR in m.t.s or m.t.s in ('unsigned long', 'uint64_t')) and m.c and m.c[0] is not None and any(id(x) in ids for x in m.c[0].walk()):
            return True
    return False


def own_state(f, lp, a):
    """does the argument point to a generator state declared inside the loop"""
    if a.k == 'Un' and a.a == '&':
        b = strip_casts(a.c[0])
        if b is not None and b.k == 'Ref' and b.a[0] == 'L':
            for m in lp.walk():
                if m.k == 'Var' and m.a[0] == b.a[1]:
                    return True
            return False
        return False
    if a.k == 'Ref' and a.a[0] == 'L':
        # a pointer variable or parameter: private if declared inside the loop
        for m in lp.walk():
            if m.k == 'Var' and m.a[0] == a.a[1]:
                return True
        return False
    return False


class SeedGuard(Interp):
    """is the call reached only when the seed parameter is zero"""
    def __init__(self, prog, f, pids, node):
        Interp.__init__(self, prog, f)
        self.pids, self.node, self.bad, self.hit = pids, node, False, False

    def assume(self, n, v, st, truth):
        s = strip_casts(n)
        if s is not None and s.k == 'Ref' and s.a[0] == 'L' and s.a[1] in self.pids:
            return [st.set('z', not truth)] if st.get('z') in (None, not truth) else []
        if n.k == 'Bin' and n.a in ('==', '!=') and literal(n.c[1]) == '0':
            s = strip_casts(n.c[0])
            if s is not None and s.k == 'Ref' and s.a[0] == 'L' and s.a[1] in self.pids:
                z = (n.a == '==') == truth
                return [st.set('z', z)] if st.get('z') in (None, z) else []
        return [st]

    def post(self, n, st, vals):
        if n is self.node:
            self.hit = True
            if st.get('z') is not True:
                self.bad = True
        return [(st, None)]


def allowed_entropy(prog, f, n):
    # the wall-clock timer
    if f.cls and 'Timer' in f.cls or f.q.startswith('utils::Timer'):
        return True
    if f.n == 'randomize' and f.params:
        g = SeedGuard(prog, f, set(p_[0] for p_ in f.params), n)
        g.run()
        return g.hit and not g.bad
    return False
