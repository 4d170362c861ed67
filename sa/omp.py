"""Analyses of OpenMP parallel regions: C05 (races), C06 (exceptions), C20 (random numbers), C21 (interrupts)."""
from core import *

REG_ORDER = {'N': 0, 'P': 1, 'X': 2, 'S': 3}


def rjoin(a, b):
    return a if REG_ORDER[a] >= REG_ORDER[b] else b


class AV(object):
    """abstract value.  reg: where the denoted storage (lvalue/object) or the pointee (pointer) lives:
    P private to the thread/iteration, X the current iteration's own part of shared storage, S shared.
    taint: how the value depends on the loop index ('full', 'div', 'mod').  cont: where things reachable
    through pointers stored in a private object live."""
    __slots__ = ('reg', 'taint', 'cont')

    def __init__(self, reg='P', taint=frozenset(), cont='N'):
        self.reg, self.taint, self.cont = reg, taint, cont

    def key(self):
        return (self.reg, self.taint, self.cont)

    def excl(self):
        return 'full' in self.taint or ('div' in self.taint and 'mod' in self.taint)

    def __repr__(self):
        return '%s%s/%s' % (self.reg, '!' + '+'.join(sorted(self.taint)) if self.taint else '', self.cont)


NOT = frozenset()
FULL = frozenset(['full'])


def vjoin(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return AV(rjoin(a.reg, b.reg), a.taint & b.taint, rjoin(a.cont, b.cont))


ACCESSORS = set('operator[] at begin end front back data c_str find rbegin rend get operator* operator-> size empty first second str rdbuf good fail eof'.split())


def param_types(key):
    """parameter type spellings of an external function's key"""
    q = qual(key)
    rest = key[len(q):]
    if not rest.startswith('('):
        return []
    depth = 0
    cur = ''
    res = []
    for ch in rest:
        if ch in '(<[':
            depth += 1
            if depth == 1 and ch == '(':
                continue
        elif ch in ')>]':
            depth -= 1
            if depth == 0:
                break
        if ch == ',' and depth == 1:
            res.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        res.append(cur)
    return [r.strip() for r in res]


def writable_param(ts):
    if ts.endswith('&&'):
        return False
    if ts.endswith('&') or ts.endswith('*'):
        return not ts.startswith('const ')
    return False


# documented exception (doc/reference.tex: "The Torus mapping is not thread-safe and thus not OpenMP-parallelized"):
# not followed here; the rule serial-torus checks that such mappers are run without parallelisation
SERIAL = ('actions::ActionMapperTorus::',)


def content(v):
    return v if isinstance(v, tuple) and v[0] == 'c' else ('c', v)


class Visible(object):
    """which local or temporary objects are visible inside a parallel region: they are referenced in its body,
    or are passed by reference/pointer (transitively, also stored in an object that is) to a function that
    references the parameter in its parallel region"""
    def __init__(self, calls):
        self.p = p = calls.p
        self.cg = calls
        self.types = []
        self.vis = {}          # (function key, parameter index, -1 for this) -> set of classes or {'*'}
        info = {}
        for f in p.functions.values():
            x = self.scan(f)
            if x is not None:
                info[f.key] = x
        changed = True
        while changed:
            changed = False
            for k, (names, regs, calls_, stores) in info.items():
                f = p.functions[k]
                cur = {v: set(['*']) for v in regs}
                for v, t in stores:
                    pass
                loop = True
                while loop:
                    loop = False
                    for holder, key, virt, slots in calls_:
                        targets = p.targets(key, virt)
                        for t in targets:
                            for j, vs in slots:
                                if self.vis.get((t, ('c', j))):
                                    for v in vs:
                                        c = cur.setdefault(content(v), set())
                                        if '*' not in c:
                                            c.add('*')
                                            loop = True
                                s = self.vis.get((t, j))
                                if s and j == -1 and virt:
                                    s = self.receiver(t, s)
                                if s:
                                    for v in vs:
                                        c = cur.setdefault(v, set())
                                        if not s <= c:
                                            c |= s
                                            loop = True
                    for v in list(cur):      # what is visible makes its content visible
                        c = content(v)
                        if c != v and '*' not in cur.setdefault(c, set()):
                            cur[c].add('*')
                            loop = True
                    for v, w in stores:      # w is stored in v
                        if cur.get(content(v)) and '*' not in cur.setdefault(w, set()):
                            cur[w].add('*')
                            loop = True
                for v, s in cur.items():
                    w = v[1] if isinstance(v, tuple) else v
                    if w in names:
                        idx = names[w]
                        if w is not v:
                            idx = ('c', idx)
                        old = self.vis.setdefault((k, idx), set())
                        if not s <= old:
                            old |= s
                            changed = True
                info[k][0][None] = None
                self.final = None
                x = info[k]
                self.cur = getattr(self, 'cur', {})
                self.cur[k] = cur
        for k, (names, regs, calls_, stores) in info.items():
            vt = self.vartypes[k]
            for v, s in self.cur[k].items():
                t = vt.get(v)
                if t is None:
                    continue
                if t.k == 'arr':
                    t = t.strip()
                if t.k != 'rec':
                    continue
                if '*' in s or t.name not in p.classes or any(b in s for b in p.bases_of(t.name)):
                    self.types.append(t)

    def isref(self, n):
        return Frame.isref(self, n)

    def receiver(self, t, s):
        m = self.p.methods.get(t)
        if m is None or '*' not in s:
            return s
        return set([m[0]])

    def scan(self, f):
        if not hasattr(self, 'vartypes'):
            self.vartypes = {}
        vt = {}
        names = {'this': -1}
        for i, (pid, pn, pt, _) in enumerate(f.params):
            names[pid] = i
        regs, calls_, stores = set(), [], []
        inner = set()

        def roots(n):
            """variables whose storage an argument expression may denote or point to; ('c', v) stands for things
            reached through pointers or references stored in v"""
            n = strip_casts(n)
            if n is None:
                return []
            if n.k == 'Ref' and n.a[0] == 'L':
                return [n.a[1]]
            if n.k == 'This':
                return ['this']
            if n.k == 'Member' and n.c:
                r = roots(n.c[0])
                if n.t is not None and (n.t.k in ('ptr', 'ref', 'rref') or self.isref(n)):
                    return [content(v) for v in r]
                return r
            if n.k == 'Idx' and n.c:
                return roots(n.c[0])
            if n.k == 'Un' and n.a in ('&', '*'):
                return roots(n.c[0])
            if n.k == 'Cond':
                return roots(n.c[1]) + roots(n.c[2])
            if n.k == 'OpCall' and n.c:
                r = roots(n.c[0])
                if (qual(n.a[0]) or '').endswith(('operator*', 'operator->')):
                    return [content(v) for v in r]
                return r
            if n.k == 'MCall' and n.c:
                return roots(n.c[0])
            if n.k == 'New0':
                vt[id(n)] = n.t
                return [id(n)]
            return []
        for root in f.roots():
            for n in root.walk():
                if n.k == 'Var' and n.a[0]:
                    vt[n.a[0]] = n.t
                    if n.c and n.c[0] is not None:
                        i = n.c[0]
                        if n.t.k in ('ref', 'rref', 'ptr'):
                            for w in roots(i):
                                stores.append((n.a[0], w))
                        j = strip_casts(i)
                        if j is not None and j.k == 'New0':
                            stores.append((n.a[0], id(j)))
                elif n.k == 'OMP' and 'parallel' in n.a[0]:
                    decl = set()
                    for m in n.walk():
                        if m.k == 'Var':
                            decl.add(m.a[0])
                    for m in n.walk():
                        if m.k == 'Ref' and m.a[0] == 'L' and m.a[1] not in decl:
                            regs.add(m.a[1])
                        elif m.k == 'This':
                            regs.add('this')
                elif n.k in CALLS and n.a[0]:
                    slots = []
                    args = call_args(n)
                    member = n.k == 'MCall'
                    key = n.a[0]
                    f2 = self.p.functions.get(key)
                    if n.k == 'OpCall' and f2 is not None and len(f2.params) == len(n.c) - 1:
                        member = True
                        args = n.c[1:]
                    if member:
                        r = roots(n.c[0])
                        if r:
                            slots.append((-1, r))
                    for j, a in enumerate(args):
                        if a is None or a.t is None:
                            continue
                        if a.k == 'Cast' and a.a[0] == 'LValueToRValue' and a.t.k not in ('ptr', 'rec', 'arr'):
                            continue    # a number passed by value
                        r = roots(a)
                        if r:
                            slots.append((j, r))
                            if n.k == 'New0':
                                for w in r:
                                    stores.append((id(n), w))
                                    vt.setdefault(id(n), n.t)
                    if slots:
                        calls_.append((n, key, bool(n.a[1]), slots))
        self.vartypes[f.key] = vt
        for i, (pid, pn, pt, _) in enumerate(f.params):
            if pt.k == 'rec':
                vt[pid] = pt
        if not regs and not calls_:
            return None
        return [names, regs, calls_, stores]


class Races(object):
    def __init__(self, calls):
        self.cg = calls
        self.p = calls.p
        self.memo = {}
        self.active = set()
        self.fieldcont = {}   # class::field of private objects -> where the pointers stored there lead
        self.nfun = set()
        self.serial = set()
        self.nwrites = 0
        self.nshared = 0
        self.shareable = self.shareable_classes()

    def shareable_classes(self):
        """classes whose instances can be visible to more than one thread: created on the heap, static or
        global objects, members/elements of such objects, and local or temporary objects that are visible in a
        parallel region (see Visible)"""
        p = self.p
        res = set()

        def add(t):
            for s in spelled_classes(t, p):
                if s not in res:
                    res.add(s)
                    for b in p.bases_of(s):
                        c = p.classes.get(b)
                        if c:
                            for fld in c.fields:
                                if fld[1].k in ('rec', 'arr'):
                                    add(fld[1])
        for f in p.functions.values():
            for n in f.walk():
                if n.k == 'NewE' and n.t is not None and n.t.sub is not None:
                    add(n.t.sub)
        for t in Visible(self.cg).types:
            add(t)
        for g in p.globals.values():
            add(g['t'])
        return res

    # ---- per region
    def region(self, f, omp):
        """analyses one parallel region; returns list of findings (fn, node, text, chain)"""
        for it in range(12):
            before = dict(self.fieldcont)
            out = self.region1(f, omp)
            if self.fieldcont == before:
                return out
            self.memo = {}
        raise AnalysisError('no fixed point for the parallel region at ' + f.loc(omp))

    def region1(self, f, omp):
        self.found = []
        fr = Frame(self, f, None, region=True)
        fr.chain = []
        clauses = omp.a[1:]
        for c in clauses:
            if c[0] in ('private', 'firstprivate', 'lastprivate', 'reduction'):
                for r in c[1:]:
                    if r and r[0] == 'L':
                        fr.env[r[1]] = AV('P')
                        fr.inside.add(r[1])
                    elif r and r[0] == 'G':
                        fr.privglob.add(r[1])
        fr.run(omp)
        # raising a flag: every write in the region stores the same literal
        flags = {}
        for x in self.found:
            if x[4]:
                flags.setdefault(x[4][0], set()).add(x[4][1])
        out = []
        seen = set()
        for x in self.found:
            if x[4] and len(flags[x[4][0]]) == 1 and None not in flags[x[4][0]]:
                continue
            k = (x[0].key, x[1].line, x[2])
            if k not in seen:
                seen.add(k)
                out.append(x[:4])
        return out

    def call(self, key, args, thisv, chain, report):
        """analyses a repo function in the given context; returns its return value"""
        ctx = (key, tuple(a.key() for a in args), thisv.key() if thisv else None)
        if ctx not in self.memo:
            if ctx in self.active or len(chain) > 60:
                return AV('P')
            self.active.add(ctx)
            self.nfun.add(key)
            f = self.p.functions[key]
            saved = self.found
            self.found = []
            fr = Frame(self, f, thisv)
            fr.chain = [f.key]
            for (pid, pname, pt, _), a in zip(f.params, args):
                fr.env[pid] = a
                fr.inside.add(pid)
            fr.run(None)
            mine = []
            seen = set()
            for x in self.found:
                k = (x[0].key, x[1].line, x[2])
                if k not in seen:
                    seen.add(k)
                    mine.append(x)
            self.found = saved
            self.active.discard(ctx)
            self.memo[ctx] = (fr.ret or AV('P'), mine)
        ret, mine = self.memo[ctx]
        if report:
            for x in mine:
                self.found.append((x[0], x[1], x[2], chain + x[3], x[4]))
        return ret

    def inheritable(self, mkey):
        """can this method run on an object whose class may be shared between threads"""
        if not hasattr(self, '_inh'):
            self._inh = set()
            for c in self.shareable:
                self._inh.update(self.p.bases_of(c))
        return self.p.methods[mkey][0] in self._inh

    def emit(self, fn, n, text, chain, flag=None):
        self.found.append((fn, n, text, chain, flag))


class Frame(object):
    """flow-insensitive abstract interpretation of one function body (or of a parallel region)"""
    def __init__(self, R, f, thisv, region=False):
        self.R = R
        self.f = f
        self.p = R.p
        self.this = thisv
        self.isregion = region
        self.env = {}
        self.inside = set()     # ids of variables that are private here
        self.refs = set()       # ids of reference variables
        self.privglob = set()
        self.ret = None
        self.report = False
        self.guard = 0
        self.chain = []
        self.loopvars = set()

    def run(self, omp):
        roots = ([self.f.body] if self.f.body is not None else []) if omp is None else [omp]
        for it in range(4):
            self.report = False
            before = {k: v.key() for k, v in self.env.items()}
            if omp is None:
                self.ctorinits()
            for r in roots:
                self.stmt(r)
            if {k: v.key() for k, v in self.env.items()} == before:
                break
        self.report = True
        if omp is None:
            self.ctorinits()
        for r in roots:
            self.stmt(r)

    def ctorinits(self):
        for kind, name, written, expr in self.f.inits:
            v = self.ev(expr) if expr is not None else None
            if kind == 'M' and v is not None and self.this is not None and self.this.reg == 'P':
                fld = self.p.field(self.f.cls, name)
                if fld is not None:
                    self.setfield(self.f.cls + '::' + name, fld[1], v)

    def setfield(self, q, t, v):
        """records what is stored in a field of some private object"""
        if t is None:
            return
        if t.k in ('ptr', 'ref', 'rref'):
            c = v.reg
            if c == 'X':
                c = 'X'
        elif t.k in ('rec', 'arr'):
            c = self.content(v)
        else:
            return
        fc = self.R.fieldcont
        fc[q] = rjoin(fc.get(q, 'N'), c)

    def setvar(self, vid, v):
        self.env[vid] = vjoin(self.env.get(vid), v)

    # ---- statements
    def stmt(self, n):
        if n is None:
            return
        k = n.k
        if k == 'Block':
            g = self.guard
            for c in n.c:
                self.stmt(c)
                if c is not None and c.k == 'Decl':
                    for v in c.c:
                        if v.t is not None and v.t.name and v.t.name.split('@')[0].endswith('PyAcquireGIL'):
                            self.guard += 1
            self.guard = g
        elif k == 'Decl':
            for v in n.c:
                self.vardecl(v)
        elif k == 'OMP':
            d = n.a[0]
            if 'critical' in d or 'atomic' in d or 'ordered' in d or 'single' in d or 'master' in d:
                self.guard += 1
                for c in n.c:
                    self.stmt(c)
                self.guard -= 1
            elif 'for' in d.split():
                lp = n.c[0]
                while lp is not None and lp.k == 'Block' and len(lp.c) == 1:
                    lp = lp.c[0]
                if lp is not None and lp.k == 'For':
                    init = lp.c[0]
                    if init is not None and init.k == 'Decl':
                        for v in init.c:
                            self.inside.add(v.a[0])
                            self.loopvars.add(v.a[0])
                            self.env[v.a[0]] = AV('P', FULL)
                    elif init is not None and init.k == 'Assign' and init.c[0].k == 'Ref' and init.c[0].a[0] == 'L':
                        self.inside.add(init.c[0].a[1])
                        self.loopvars.add(init.c[0].a[1])
                        self.env[init.c[0].a[1]] = AV('P', FULL)
                    self.ev(lp.c[1])
                    self.stmt(lp.c[3])
                else:
                    for c in n.c:
                        self.stmt(c)
            else:
                for c in n.c:
                    self.stmt(c)
        elif k in ('If', 'For', 'While', 'Do', 'Switch', 'Case', 'Default', 'Try', 'Catch', 'Label', 'Return', 'ForRange'):
            if k == 'Return':
                if n.c and n.c[0] is not None:
                    self.ret = vjoin(self.ret, self.ev(n.c[0]))
                return
            if k == 'ForRange':
                r = self.ev(n.c[0])
                v = n.c[1]
                self.inside.add(v.a[0])
                self.env[v.a[0]] = AV(r.reg if v.t.k in ('ref', 'rref') else 'P', NOT, r.cont if r.reg == 'P' else 'S')
                self.stmt(n.c[2])
                return
            if k == 'Catch':
                if n.a:
                    self.inside.add(n.a[0])
                    self.env[n.a[0]] = AV('P')
                self.stmt(n.c[0])
                return
            for c in n.c:
                if c is not None:
                    if c.k == 'Var':
                        self.vardecl(c)
                    else:
                        self.stmt(c)
        elif k in ('Break', 'Continue', 'Nop', 'Goto'):
            pass
        else:
            self.ev(n)

    def vardecl(self, v):
        vid = v.a[0]
        init = self.ev(v.c[0]) if v.c else AV('P')
        if not vid:
            return    # static local: shared
        self.inside.add(vid)
        if v.t.k in ('ref', 'rref'):
            self.setvar(vid, init)
        elif v.t.k == 'ptr':
            self.setvar(vid, init)
        elif v.t.k in ('rec', 'arr'):
            self.setvar(vid, AV('P', NOT, self.content(init)))
        else:
            self.setvar(vid, AV('P', init.taint))

    @staticmethod
    def content(a):
        """region reachable through pointers held by a private object that is initialised from value a"""
        if a.reg == 'P':
            return a.cont
        return 'S'

    # ---- expressions: returns AV
    def ev(self, n):
        if n is None:
            return AV('N')
        m = getattr(self, 'e_' + n.k, None)
        if m:
            return m(n)
        r = None
        for c in n.c:
            if c is not None:
                r = self.ev(c)
        return AV('P')

    def e_Int(self, n):
        return AV('N')
    e_Float = e_Bool = e_Str = e_Char = e_Null = e_Int

    def e_Ref(self, n):
        a = n.a
        if a[0] == 'L':
            vid = a[1]
            if vid in self.env:
                return self.env[vid]
            if vid in self.inside:
                return AV('P')
            return AV('S') if self.isregion else AV('P')
        if a[0] == 'G':
            if a[1] in self.privglob or self.p.threadprivate(a[1]):
                return AV('P')
            return AV('S')
        if a[0] == 'F' and a[1] in self.p.functions and self.p.functions[a[1]].body is not None and not a[1].startswith(SERIAL):
            # the address of a function is taken: it may be called (e.g. by an external library) in this context
            g = self.p.functions[a[1]]
            if g.cls is None and not self.guard:
                self.R.call(a[1], [AV('P') for q in g.params], None, list(self.chain), self.report)
        return AV('N')

    def e_This(self, n):
        if self.this is not None:
            return self.this
        return AV('S') if self.isregion else AV('P')

    def e_Member(self, n):
        b = self.ev(n.c[0]) if n.c else AV('S')
        if n.a[0] == 'G':
            return AV('P' if self.p.threadprivate(n.a[1]) else 'S')
        if n.a[0] == 'F':
            return b
        if b.reg == 'P' and n.a[1] and n.a[1].rpartition('::')[0] in self.p.classes:
            c = self.R.fieldcont.get(n.a[1], 'N')
            if self.isref(n):
                return AV(c if c != 'N' else 'P')
            return AV('P', b.taint, c)
        if n.t is not None and n.t.k == 'ref' or self.isref(n):
            return AV(b.cont if b.reg == 'P' else 'S') if b.cont != 'N' or b.reg != 'P' else AV('P')
        return AV(b.reg, b.taint if b.reg == 'P' else NOT, b.cont)

    def isref(self, n):
        q = n.a[1]
        if not q or n.a[0] != 'M':
            return False
        cls, _, name = q.rpartition('::')
        fld = self.p.field(cls, name)
        return fld is not None and fld[1].k in ('ref', 'rref')

    def e_Cast(self, n):
        v = self.ev(n.c[0]) if n.c else AV('P')
        if n.a[0] == 'LValueToRValue':
            src = n.c[0]
            t = n.t
            if t.k == 'ptr':
                # loading a pointer
                s = strip_casts(src)
                if s.k == 'Ref' and s.a[0] == 'L' and (s.a[1] in self.inside or s.a[1] in self.env):
                    if s.t.k == 'ptr' and s.a[1] in self.env:
                        return v
                if v.reg == 'P':
                    return AV(v.cont if v.cont != 'N' else 'P', v.taint)
                return AV('S')
            if v.reg in ('S', 'X') and not v.taint and src.k in ('Idx', 'OpCall', 'Member'):
                # element at a loop-dependent index: value derived from the loop index
                ix = self.idxtaint(src)
                return AV('P', ix)
            return AV('P', v.taint)
        return v

    def idxtaint(self, n):
        t = NOT
        if n.k == 'Idx':
            t = self.peek(n.c[1]).taint | self.idxtaint(strip_casts(n.c[0]))
        elif n.k == 'OpCall':
            for c in n.c[1:]:
                t = t | self.peek(c).taint
            if n.c:
                t = t | self.idxtaint(strip_casts(n.c[0]))
        elif n.k == 'Member' and n.c:
            t = self.idxtaint(strip_casts(n.c[0]))
        return t

    def peek(self, n):
        r = self.report
        self.report = False
        v = self.ev(n)
        self.report = r
        return v

    def e_Idx(self, n):
        b = self.ev(n.c[0])
        i = self.ev(n.c[1])
        if b.reg == 'S' and (i.excl() or b.excl()):
            return AV('X')
        if b.reg == 'S' and i.taint:
            return AV('S', b.taint | i.taint)
        return AV(b.reg, b.taint if b.reg == 'P' else b.taint, b.cont)

    def e_Un(self, n):
        op = n.a
        v = self.ev(n.c[0])
        if op in ('++', '--', 'p++', 'p--'):
            self.write(n.c[0], v, n, None)
            return v
        if op == '*':
            return v
        if op == '&':
            return v
        if op == '!':
            return AV('P')
        return AV(v.reg, v.taint, v.cont)

    def e_Bin(self, n):
        a = self.ev(n.c[0])
        b = self.ev(n.c[1])
        op = n.a
        if op == ',':
            return b
        if op in ('==', '!=', '<', '>', '<=', '>=', '&&', '||'):
            return AV('P')
        if n.t is not None and n.t.k == 'ptr':
            if a.reg != 'N' and n.c[0].t is not None and n.c[0].t.k in ('ptr', 'arr'):
                pv, iv = a, b
            else:
                pv, iv = b, a
            if pv.reg == 'S' and (iv.excl() or (frozenset(iv.taint | pv.taint) >= frozenset(['div', 'mod']))):
                return AV('X')
            return AV(pv.reg, pv.taint | iv.taint if pv.reg == 'S' else pv.taint, pv.cont)
        if op == '%' and a.taint:
            return AV('P', frozenset(['mod']) if 'full' in a.taint else a.taint)
        if op == '/' and a.taint and n.t is not None and n.t.k in ('int', 'uint'):
            return AV('P', frozenset(['div']) if 'full' in a.taint else a.taint)
        if op in ('&', '|', '^', '>>'):
            return AV('P', a.taint | b.taint)
        return AV('P', a.taint | b.taint)

    def e_Cond(self, n):
        self.ev(n.c[0])
        a = self.ev(n.c[1])
        b = self.ev(n.c[2])
        if a.reg == 'N':
            return AV(b.reg, a.taint | b.taint, b.cont)
        if b.reg == 'N':
            return AV(a.reg, a.taint | b.taint, a.cont)
        v = vjoin(a, b)
        # cond ? base : array[loop-dependent]: still loop-dependent
        return AV(v.reg, a.taint | b.taint, v.cont)

    def e_Assign(self, n):
        r = self.ev(n.c[1])
        l = self.ev(n.c[0])
        self.write(n.c[0], l, n, n.c[1], r)
        return l

    def e_AssignOp(self, n):
        r = self.ev(n.c[1])
        l = self.ev(n.c[0])
        self.write(n.c[0], l, n, None, r)
        return l

    def root_local(self, lhs):
        s = strip_casts(lhs)
        while s is not None:
            if s.k == 'Ref' and s.a[0] == 'L':
                return s.a[1]
            if s.k in ('Member', 'Idx') and s.c:
                s = strip_casts(s.c[0])
            elif s.k == 'OpCall' and len(s.c) > 0:
                s = strip_casts(s.c[0])
            elif s.k == 'MCall':
                s = strip_casts(s.c[0])
            else:
                return None
        return None

    def write(self, lhs, lv, node, rhs, rv=None):
        l = strip_casts(lhs)
        direct = l is not None and l.k == 'Ref' and l.a[0] == 'L'
        if direct and l.a[1] in self.inside and not (l.t and False):
            vid = l.a[1]
            isref = self.isrefvar(l)
            if not isref:
                if rv is not None:
                    t = l.t
                    if t.k == 'ptr':
                        self.setvar(vid, rv)
                    elif t.k in ('rec', 'arr'):
                        self.setvar(vid, AV('P', NOT, self.content(rv)))
                    elif vid not in self.loopvars:
                        if node.k == 'AssignOp':
                            old = self.env.get(vid, AV('P'))
                            self.env[vid] = AV('P', old.taint)
                        else:
                            self.setvar(vid, AV('P', rv.taint))
                return
        if rv is not None and l is not None and l.k == 'Member' and l.a[0] == 'M' and lv.reg == 'P' and l.a[1]:
            self.setfield(l.a[1], l.t, rv)
        elif rv is not None and not direct:
            root = self.root_local(lhs)
            if root is not None and root in self.inside and lv.reg == 'P' and rhs is not None and rhs.t is not None and rhs.t.k in ('ptr', 'rec'):
                old = self.env.get(root, AV('P'))
                self.env[root] = AV(old.reg, old.taint, rjoin(old.cont, rv.reg if rhs.t.k == 'ptr' else self.content(rv)))
        if not self.report:
            return
        self.R.nwrites += 1
        if lv.reg != 'S' or lv.excl():
            return
        if self.guard:
            self.R.nshared += 1
            return
        txt = 'write to shared %s' % describe(lhs)
        if rhs is not None and l is not None and l.t is not None and l.t.k in ('bool', 'int', 'uint', 'enum') and node.k == 'Assign':
            lit = literal(rhs)
            key = describe(lhs)
            self.R.nshared += 1
            self.R.emit(self.f, node, txt, list(self.chain), (key, lit))
            return
        self.R.emit(self.f, node, txt, list(self.chain))

    def isrefvar(self, ref):
        """is this local a reference variable (its AV denotes the referred storage)"""
        if not hasattr(self, '_reftab'):
            tab = {}
            for (pid, pn, pt, _) in self.f.params:
                tab[pid] = pt.k in ('ref', 'rref')
            for n in self.f.walk():
                if n.k == 'Var' and n.a[0]:
                    tab[n.a[0]] = n.t.k in ('ref', 'rref')
            self._reftab = tab
        return self._reftab.get(ref.a[1], False)

    def e_NewE(self, n):
        for c in n.c:
            self.ev(c)
        return AV('P', NOT, 'N')

    def e_New0(self, n):
        key = n.a[0]
        args = [self.ev(c) for c in n.c]
        if key is not None and self.p.functions.get(key) is not None and not (len(n.a) > 3 and n.a[3]):
            self.docall(key, False, args, AV('P', NOT, 'N'), n, n.c)
            cont = 'N'
            f = self.p.functions[key]
            for (pid, pn, pt, _), a in zip(f.params, args):
                if pt.k in ('ptr', 'ref', 'rref'):
                    cont = rjoin(cont, a.reg if a.reg != 'N' else 'N')
                elif pt.k == 'rec':
                    cont = rjoin(cont, self.content(a))
            return AV('P', NOT, cont)
        cont = 'N'
        for c, a in zip(n.c, args):
            if c.t is not None and c.t.k in ('ptr',):
                cont = rjoin(cont, a.reg)
            elif c.t is not None and c.t.k == 'rec':
                cont = rjoin(cont, self.content(a))
        return AV('P', NOT, cont)

    def e_Call(self, n):
        if n.c[0] is not None:
            self.ev(n.c[0])
        args = [self.ev(c) for c in n.c[1:]]
        key = n.a[0]
        if key is None:
            return AV('P')
        return self.docall(key, False, args, None, n, n.c[1:])

    def e_MCall(self, n):
        o = self.ev(n.c[0])
        ob = n.c[0]
        args = [self.ev(c) for c in n.c[1:]]
        key = n.a[0]
        if key is None:
            return AV('P')
        return self.docall(key, bool(n.a[1]), args, o, n, n.c[1:], ob)

    def e_OpCall(self, n):
        key = n.a[0]
        args = [self.ev(c) for c in n.c]
        if key is None:
            return AV('P')
        f = self.p.functions.get(key)
        q = qual(key)
        name = q.rsplit('::', 1)[-1] if 'operator' not in q else q[q.rfind('operator'):]
        member = len(param_types(key)) == len(n.c) - 1 or name in ('operator()', 'operator[]')
        if member:
            return self.docall(key, True if key in self.p._overriders else False, args[1:], args[0], n, n.c[1:], n.c[0])
        return self.docall(key, False, args, None, n, n.c)

    def docall(self, key, virt, args, thisv, n, argn, obn=None):
        q = qual(key)
        base = q[q.rfind('operator'):] if 'operator' in q else q.rsplit('::', 1)[-1]
        taint = NOT
        for a in args:
            taint = taint | a.taint
        if q == 'omp_get_thread_num':
            return AV('P', FULL)
        targets = [t for t in self.p.targets(key, virt) if t in self.p.functions]
        if targets and not q.startswith('utils::CtrlBreakHandler'):
            if self.guard:
                return AV('P', taint) if not (thisv and thisv.reg == 'S') else AV('S', taint)
            ret = None
            if virt and thisv is not None and thisv.reg == 'S':
                # the receiver is visible to several threads: only classes that can be
                tt = [t for t in targets if t not in self.p.methods or self.R.inheritable(t)]
                targets = tt or targets
            for t in targets:
                if t.startswith(SERIAL):
                    self.R.serial.add((self.chain[0] if self.chain else self.f.key, t))
                    continue
                r = self.R.call(t, args, thisv, list(self.chain), self.report)
                ret = vjoin(ret, r)
            r = ret
            if n.t is not None and n.t.k in ('int', 'uint', 'float') and not r.taint:
                pass
            return r
        # external function
        if thisv is not None:
            const = key.endswith(' const')
            if base == 'operator*' or base == 'operator->' or base == 'get':
                if thisv.reg == 'P':
                    return AV(thisv.cont if thisv.cont != 'N' else 'P')
                # smart pointer or iterator living in shared memory
                return AV('S')
            if base in ('operator[]', 'at', 'operator()'):
                t = frozenset(taint | (thisv.taint if thisv.reg == 'S' else NOT))
                if thisv.reg == 'S' and ('full' in t or t >= frozenset(['div', 'mod'])):
                    return AV('X')
                return AV(thisv.reg, t if thisv.reg == 'S' else thisv.taint, thisv.cont)
            if base in ACCESSORS:
                return AV(thisv.reg, thisv.taint, thisv.cont)
            if not const and not base.startswith('~') and not base.startswith('operator '):
                self.extwrite(n, obn, thisv, 'call of modifying method %s on shared ' % base, args, argn)
            self.extargs(key, args, argn, n)
            if obn is not None and args:
                root = self.root_local(obn)
                if root is not None and root in self.inside:
                    old = self.env.get(root, AV('P'))
                    c = old.cont
                    for an, a in zip(argn, args):
                        if an.t is not None and an.t.k == 'ptr':
                            c = rjoin(c, a.reg)
                        elif an.t is not None and an.t.k == 'rec':
                            c = rjoin(c, self.content(a))
                    self.env[root] = AV(old.reg, old.taint, c)
            return AV('P', taint)
        self.extargs(key, args, argn, n)
        if n.t is not None and n.t.k == 'ptr' and args:
            if q.startswith(('mem', 'str', 'std::mem', 'std::str', '__builtin_mem', 'std::copy', 'std::lower_bound', 'std::upper_bound')):
                return AV(args[0].reg, args[0].taint, args[0].cont)
            return AV('P')
        if q in ('std::min', 'std::max', 'std::move', 'std::forward'):
            return AV('P' if n.t.k not in ('rec',) else args[0].reg, taint)
        return AV('P', taint)

    def extwrite(self, n, lhs, lv, what, args, argn):
        if not self.report:
            return
        self.R.nwrites += 1
        if lv.reg != 'S' or lv.excl():
            return
        if self.guard:
            self.R.nshared += 1
            return
        self.R.emit(self.f, n, what + describe(lhs), list(self.chain))

    def extargs(self, key, args, argn, n):
        q = qual(key)
        if q.startswith('Py') or q.startswith('_Py') or q.startswith('operator') or q in ('free', 'printf', 'fprintf'):
            return
        for ts, an, a in zip(param_types(key), argn, args):
            if writable_param(ts):
                if '_IO_FILE' in ts or 'basic_ostream' in ts:
                    continue
                self.extwrite(n, an, a, 'passing to %s a modifiable pointer/reference to shared ' % q, args, argn)

    def e_Lambda(self, n):
        for p in n.a:
            self.inside.add(p[0])
            self.env.setdefault(p[0], AV('P'))
        self.stmt(n.c[0])
        return AV('P')

    def e_DefArg(self, n):
        return self.ev(n.c[0])

    def e_Delete(self, n):
        self.ev(n.c[0])
        return AV('P')

    def e_Throw(self, n):
        for c in n.c:
            self.ev(c)
        return AV('P')


def spelled_classes(t, p):
    """repo classes contained by value in a type (including template arguments of std containers)"""
    res = []
    while t is not None and t.k == 'arr':
        t = t.sub
    if t is None or t.k != 'rec':
        return res
    if t.name in p.classes:
        res.append(t.name)
    elif t.name and '<' in t.name and 'shared_ptr' not in t.name:
        for w in re.findall(r'[A-Za-z_][A-Za-z_0-9:]*(?:<[^<>]*>)?', t.name[t.name.index('<'):]):
            if w in p.classes:
                res.append(w)
    return res


def literal(n):
    n = strip_casts(n)
    if n is None:
        return None
    if n.k in ('Int', 'Bool', 'Char', 'Float'):
        return str(n.a)
    if n.k == 'Ref' and n.a[0] == 'E':
        return n.a[1]
    if n.k == 'Un' and n.a == '-':
        x = literal(n.c[0])
        return None if x is None else '-' + x
    return None


def describe(n):
    """short source-like rendering of an lvalue (no positions, for stable identification)"""
    n = strip_casts(n)
    if n is None:
        return '?'
    if n.k == 'Ref':
        return str(n.a[2] if n.a[0] == 'L' else n.a[1])
    if n.k == 'Member':
        b = describe(n.c[0]) if n.c else ''
        return (b + ('->' if n.a[2] else '.') if b not in ('this', '') else '') + n.a[3]
    if n.k == 'This':
        return 'this'
    if n.k == 'Idx':
        return describe(n.c[0]) + '[]'
    if n.k == 'Un':
        return n.a + describe(n.c[0])
    if n.k == 'OpCall':
        q = qual(n.a[0]) or ''
        if q.endswith('operator[]'):
            return describe(n.c[0]) + '[]'
        if q.endswith('operator()'):
            return describe(n.c[0]) + '()'
        if q.endswith('operator*') or q.endswith('operator->'):
            return '*' + describe(n.c[0])
        return q
    if n.k == 'MCall':
        return describe(n.c[0]) + '.' + (qual(n.a[0]) or '?').rsplit('::', 1)[-1] + '()'
    if n.k == 'Call':
        return (qual(n.a[0]) or '?') + '()'
    if n.k in ('Int', 'Float', 'Bool'):
        return str(n.a)
    return n.k


def parallel_regions(prog):
    res = []
    for f in prog.functions.values():
        for n in f.walk():
            if n.k == 'OMP' and 'parallel' in n.a[0]:
                res.append((f, n))
    return res
