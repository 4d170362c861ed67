"""C03: the evaluation time reaches every constituent."""
from core import *
from ctxcall import Ctx, rec_class

DENS = 'potential::BaseDensity'
# on-the-fly symmetrisation adapters stand for a model at the default time (see the property statement)
SYMM = ('potential::Sphericalized<', 'potential::Axisymmetrized<')


def isdouble(t):
    return t.s.replace('const ', '').strip() == 'double'


def param_types(key):
    """number of parameters and whether the last one is a double, from a function key"""
    q = qual(key)
    s = key[len(q):]
    j = s.rfind(')')
    return s[1:j]


class TimeFlow(object):
    def __init__(self, prog):
        self.p = prog
        self.cx = Ctx(prog)
        self.tp = {}          # function key -> set of parameter positions that receive an evaluation time
        self.fields = set()   # data members that hold an evaluation time
        self.seed()
        self.close()
        self.live_()

    def seed(self):
        p = self.p
        p.method_info()
        fam = set(p.subclasses(DENS))
        for c in p.classes:
            if c.startswith('coord::IScalarFunction<'):
                fam |= set(p.subclasses(c))
        self.family = fam
        for c in fam:
            for m in p.classes[c].methods:
                k = m[0]
                nm = qual(k).split('::')[-1]
                if (nm.startswith('density') or nm.startswith('eval')) and param_types(k).endswith(',double'):
                    np = self.nparams(k)
                    self.tp.setdefault(k, set()).add(np - 1)

    def nparams(self, k):
        f = self.p.functions.get(k)
        if f is not None:
            return len(f.params)
        s = param_types(k)
        d = 0
        n = 1
        for ch in s:
            if ch in '<(':
                d += 1
            elif ch in '>)':
                d -= 1
            elif ch == ',' and d == 0:
                n += 1
        return n

    def callkeys(self, n):
        return [n.a[0]] if n.a[0] else []

    def args(self, n):
        a = call_args(n)
        if n.k == 'OpCall' and n.a[0] in self.p.methods:
            a = a[1:]
        return a

    def tpos(self, key):
        return self.tp.get(key, ())

    def close(self):
        """parameters and members which are passed on as an evaluation time"""
        p = self.p
        # candidate functions: those with double parameters or constructors
        ch = True
        while ch:
            ch = False
            for k, f in p.functions.items():
                if f.file.startswith('/') or 'torus/' in f.file:
                    continue
                ids = {q[0]: i for i, q in enumerate(f.params) if isdouble(q[2])}
                for n in self.sites(f):
                    pos = self.tp.get(n.a[0])
                    if not pos:
                        continue
                    a = self.args(n)
                    for j in pos:
                        if j >= len(a):
                            continue
                        e = strip_casts(a[j])
                        if e is None:
                            continue
                        if e.k == 'Ref' and e.a[0] == 'L' and e.a[1] in ids and ids[e.a[1]] not in self.tp.get(k, ()) and not self.assigned(f, e.a[1]):
                            self.tp.setdefault(k, set()).add(ids[e.a[1]])
                            ch = True
                        if e.k == 'Member' and e.a[0] == 'M' and e.a[1] not in self.fields and self.onthis(e):
                            self.fields.add(e.a[1])
                            ch = True
                for kind, name, w, ex in f.inits:
                    if kind == 'M' and name in self.fields and ex is not None:
                        e = strip_casts(ex)
                        if e is not None and e.k == 'Ref' and e.a[0] == 'L' and e.a[1] in ids and ids[e.a[1]] not in self.tp.get(k, ()):
                            self.tp.setdefault(k, set()).add(ids[e.a[1]])
                            ch = True

    def onthis(self, e):
        b = strip_casts(e.c[0]) if e.c and e.c[0] is not None else None
        return b is None or b.k == 'This'

    _s = None

    def sites(self, f):
        if self._s is None:
            self._s = {}
        if f.key not in self._s:
            self._s[f.key] = [n for n in f.walk() if n.k in CALLS and n.a[0]]
        return self._s[f.key]

    _as = None

    def assigned(self, f, i):
        if self._as is None:
            self._as = {}
        if f.key not in self._as:
            r = set()
            for n in f.walk():
                if n.k in ('Assign', 'AssignOp') or n.k == 'Un' and n.a in ('++', '--', 'p++', 'p--', '&'):
                    e = strip_casts(n.c[0])
                    if e is not None and e.k == 'Ref' and e.a[0] == 'L':
                        r.add(e.a[1])
            self._as[f.key] = r
        return i in self._as[f.key]

    # ---- is the time parameter used at all
    def live_(self):
        self.live = set()
        uses = {}
        for k, pos in self.tp.items():
            f = self.p.functions.get(k)
            if f is None:
                continue
            passed = {}
            for n in self.sites(f):
                for j in self.tpos(n.a[0]):
                    a = self.args(n)
                    if j < len(a):
                        for x in (a[j].walk() if a[j] is not None else ()):
                            passed[id(x)] = (n, j)
            for j in pos:
                i = f.params[j][0]
                nested = []
                for n in f.walk():
                    if n.k == 'Ref' and n.a[0] == 'L' and n.a[1] == i:
                        if id(n) in passed:
                            nested.append(passed[id(n)])
                        else:
                            self.live.add((k, j))
                # constructor: storing the time in a member makes it live
                for kind, name, w, ex in f.inits:
                    if kind == 'M' and name in self.fields and ex is not None and any(x.k == 'Ref' and x.a[0] == 'L' and x.a[1] == i for x in ex.walk()):
                        self.live.add((k, j))
                uses[(k, j)] = nested
        self.base_live = set(self.live)
        self.uses = uses
        self.res = {}
        self.memo = {}
        self.live = set()
        for k, j in uses:
            if self.is_live(k, j, self.thisctx(k)):
                self.live.add((k, j))

    def thisctx(self, k):
        f = self.p.functions.get(k)
        return (('this', ('s', f.cls)),) if f is not None and f.cls and f.cls in self.p.classes else ()

    def is_live(self, k, j, ctx):
        """can the time given to parameter j of k influence the result when called in this context"""
        if (k, j) in self.base_live:
            return True
        if (k, j) not in self.uses:
            return False
        # depth-first search over (function, parameter, context)
        seen = set()
        todo = [(k, j, ctx)]
        while todo:
            st = todo.pop()
            if st in seen:
                continue
            seen.add(st)
            k, j, ctx = st
            if (k, j) in self.base_live or self.memo.get(st):
                self.memo[(st)] = True
                return True
            if self.memo.get(st) is False or (k, j) not in self.uses:
                continue
            f = self.p.functions[k]
            for n, jj in self.uses[(k, j)]:
                for t, c in self.targets(f, n, ctx):
                    todo.append((t, jj, tuple(x for x in c if x[0] == 'this') or self.thisctx(t)))
        for st in seen:
            self.memo[st] = False
        return False

    def targets(self, f, n, ctx=()):
        r = self.res.get((id(n), ctx))
        if r is None:
            fc = self.fieldclasses(n)
            if fc is not None:
                r = []
                for c in fc:
                    for t, _ in self.cx.dispatch(n.a[0], ('x', c)) if n.a[1] else [(n.a[0], None)]:
                        r.append((t, (('this', ('x', c)),)))
            else:
                r = self.cx.resolve(f, dict(ctx), n)
            self.res[(id(n), ctx)] = r
        return r

    # ---- members which only ever hold objects of known classes
    _fc = None

    def fieldclasses(self, n):
        """classes of the object held by a data member on which a method is called, when all values ever
        stored in this member are newly created objects"""
        if n.k != 'MCall':
            return None
        e = strip_casts(n.c[0])
        while e is not None and e.k in ('OpCall', 'Un') and e.c:
            e = strip_casts(e.c[0])
        if e is None or e.k != 'Member' or e.a[0] != 'M':
            return None
        if self._fc is None:
            self._fc = {}
            self.stores = {}
            for g in self.p.functions.values():
                for kind, name, w, ex in g.inits:
                    if kind == 'M' and ex is not None:
                        self.stores.setdefault(name, []).append((g, ex))
                for x in g.walk():
                    l = r = None
                    if x.k == 'Assign':
                        l, r = x.c[0], x.c[1]
                    elif x.k == 'OpCall' and qual(x.a[0] or '').endswith('operator=') and len(x.c) > 1:
                        l, r = x.c[0], x.c[1]
                    l = strip_casts(l)
                    if l is not None and l.k == 'Member' and l.a[0] == 'M':
                        self.stores.setdefault(l.a[1], []).append((g, r))
        m = e.a[1]
        if m not in self._fc:
            self._fc[m] = None
            st = self.stores.get(m)
            if st:
                res = set()
                for g, ex in st:
                    c = self.created(g, ex)
                    if c is None:
                        res = None
                        break
                    res |= c
                self._fc[m] = res or None
        return self._fc[m]

    def created(self, g, ex, depth=0):
        """classes of objects created by an expression; the empty set for a null pointer; None if unknown"""
        ex = strip_casts(ex)
        if ex is None or depth > 8:
            return None
        if ex.k in ('Null', 'Int', 'GNU'):
            return set()
        if ex.k == 'NewE':
            for x in ex.walk():
                if x.k == 'New0':
                    c = rec_class(self.p, x.t)
                    return {c} if c else None
            return None
        if ex.k == 'New0':
            if ex.c and any(x is not None and not (x.k == 'DefArg') for x in ex.c):
                return self.created(g, ex.c[0], depth + 1)
            return set()
        if ex.k == 'Cond':
            a, b = self.created(g, ex.c[1], depth + 1), self.created(g, ex.c[2], depth + 1)
            return None if a is None or b is None else a | b
        if ex.k == 'Call' and ex.a[0] in self.p.functions:
            h = self.p.functions[ex.a[0]]
            r = set()
            n = 0
            for x in h.walk():
                if x.k == 'Return' and x.c:
                    c = self.created(h, x.c[0], depth + 1)
                    n += 1
                    if c is None:
                        return None
                    r |= c
            return r if n else None
        if ex.k == 'Ref' and ex.a[0] == 'L' and not self.assigned(g, ex.a[1]):
            d = self.localinit(g, ex.a[1])
            return self.created(g, d, depth + 1) if d is not None else None
        return None

    # ---- classification of an argument
    def available(self, f):
        """identifiers of this function's evaluation time: parameters and members"""
        r = set()
        for j in self.tp.get(f.key, ()):
            r.add(('L', f.params[j][0]))
        if f.cls:
            for b in self.p.bases_of(f.cls):
                for fl in self.fields:
                    if fl.rpartition('::')[0] == b:
                        r.add(('M', fl))
        return r

    def exact(self, f, e, av, depth=0):
        e = strip_casts(e)
        if e is None or depth > 6:
            return False
        if e.k == 'Ref' and e.a[0] == 'L':
            if ('L', e.a[1]) in av:
                return not self.assigned(f, e.a[1])
            d = self.localinit(f, e.a[1])
            return d is not None and not self.assigned(f, e.a[1]) and self.exact(f, d, av, depth + 1)
        if e.k == 'Member' and e.a[0] == 'M':
            return ('M', e.a[1]) in av
        if e.k == 'Cond':
            return self.exact(f, e.c[1], av, depth + 1) and self.exact(f, e.c[2], av, depth + 1)
        if e.k == 'Un' and e.a in ('*',) or e.k == 'Paren':
            return self.exact(f, e.c[0], av, depth + 1)
        if e.k in ('Idx', 'OpCall'):
            b = strip_casts(e.c[0])
            return b is not None and b.k == 'Member' and ('M', b.a[1]) in av
        return False

    def depends(self, f, e, av, depth=0):
        if e is None or depth > 6:
            return False
        for x in e.walk():
            if x.k == 'Ref' and x.a[0] == 'L':
                if ('L', x.a[1]) in av:
                    return True
                d = self.localinit(f, x.a[1])
                if d is not None and self.depends(f, d, av, depth + 1):
                    return True
            if x.k == 'Member' and ('M', x.a[1]) in av:
                return True
        return False

    _li = None

    def localinit(self, f, i):
        if self._li is None:
            self._li = {}
        if f.key not in self._li:
            r = {}
            for n in f.walk():
                if n.k == 'Var' and n.a[0] and n.c and n.c[0] is not None:
                    r[n.a[0]] = n.c[0]
            self._li[f.key] = r
        return self._li[f.key].get(i)


def check_c03(rep):
    prog = Program()
    T = TimeFlow(prog)
    for k in sorted(T.tp) + sorted(k for k, f in prog.functions.items() if f.cls and k not in T.tp and any(fl.rpartition('::')[0] in prog.bases_of(f.cls) for fl in T.fields)):
        f = prog.functions.get(k)
        if f is None:
            continue
        av = T.available(f)
        if not av:
            continue
        if any(f.cls and f.cls.startswith(x) for x in SYMM) or qual(k).startswith('raga::'):
            continue
        for n in T.sites(f):
            for j in T.tpos(n.a[0]):
                a = T.args(n)
                if j >= len(a):
                    continue
                lv = [t for t, c in T.targets(f, n, T.thisctx(k)) if T.is_live(t, j, tuple(x for x in c if x[0] == 'this') or T.thisctx(t))]
                if not lv:
                    rep.ok('static')
                    continue
                what = '%s -> %s' % (qual(k), qual(n.a[0]))
                if T.exact(f, a[j], av):
                    rep.ok('forwarded', what)
                else:
                    rep.bad('forwarded', what, f.loc(n), '%s is evaluated for a given time but evaluates %s at %s' % (qual(k), qual(n.a[0]),
                            'the default time' if a[j].k == 'DefArg' else 'a different time'), ['live in ' + qual(lv[0])])
    rep.notes.append('%d functions take an evaluation time, %d use it; members holding a time: %s' % (len(T.tp), len(T.live), ', '.join(sorted(T.fields))))
    params(rep, prog, T)
    python(rep, prog, T)
    return prog


FNC = 'math::IFunction'


def params(rep, prog, T):
    """time-dependent parameters of a model (functions of one variable held by value or pointer in a model class
    and evaluated somewhere at the evaluation time) are always evaluated at that same time"""
    fnc = set(prog.subclasses(FNC))
    calls = []
    for k, f in prog.functions.items():
        if f.cls not in T.family or any(f.cls.startswith(x) for x in SYMM):
            continue
        av = T.available(f)
        if not av:
            continue
        for n in f.walk():
            if n.k not in CALLS or not n.a[0]:
                continue
            m = prog.methods.get(n.a[0])
            if not m or m[0] not in fnc or not param_types(n.a[0]).replace('const ', '').startswith('double'):
                continue
            e = strip_casts(n.c[0])
            while e is not None and e.k in ('OpCall', 'Un', 'Idx') and e.c:
                e = strip_casts(e.c[0])
            if e is None or e.k != 'Member' or e.a[0] != 'M':
                continue
            a = T.args(n)
            calls.append((f, n, e.a[1], T.exact(f, a[0], av), T.depends(f, a[0], av)))
    tf = {m for f, n, m, ex, dep in calls if ex or dep}
    # all functions of the same kind held by a model that has one
    owners = {m.rpartition('::')[0] for m in tf}
    for f, n, m, ex, dep in calls:
        if m.rpartition('::')[0] not in owners:
            continue
        if ex:
            rep.ok('parameter', '%s: %s' % (qual(f.key), m.split('::')[-1]))
        elif m in tf or not reads_pos(f, T.args(n)[0]):
            rep.bad('parameter', '%s: %s' % (qual(f.key), m.split('::')[-1]), f.loc(n), '%s evaluates the time-dependent parameter %s at a different time than requested' % (qual(f.key), m.split('::')[-1]))
    rep.require('parameter', 20)


def reads_pos(f, e):
    return e is not None and any(x.k == 'Member' and 'coord::' in x.a[1] for x in e.walk() if x.a and isinstance(x.a, (list, tuple)) and len(x.a) > 1 and isinstance(x.a[1], str))


def python(rep, prog, T):
    """classes and functions of the Python interface that accept the argument t use it in every evaluation"""
    for k, f in prog.functions.items():
        if not f.file.endswith('interface_python.cpp'):
            continue
        src = source_of(prog, f)
        if not src:
            continue
        cls = f.cls
        fns = [g for g in prog.functions.values() if g.cls == cls] if cls and qual(k).split('::')[-1].split('@')[0] == cls.split('::')[-1].split('@')[0] else [f]
        cnt = 0
        for g in fns:
            av = {s for s in src if s[0] == 'M' or g is f}
            for n in T.sites(g):
                for j in T.tpos(n.a[0]):
                    a = T.args(n)
                    if j >= len(a):
                        continue
                    what = '%s -> %s' % (qual(g.key), qual(n.a[0]))
                    cnt += 1
                    if T.depends(g, a[j], av):
                        rep.ok('python', what)
                    else:
                        rep.bad('python', what, g.loc(n), '%s accepts the argument t but evaluates %s at a fixed time' % (qual(g.key), qual(n.a[0])))
    rep.require('python', 5)


def source_of(prog, f):
    """members and locals that receive the value of the named argument t"""
    def has_t(e):
        return e is not None and any(x.k in CALLS and 'NamedArgs' in (x.a[0] or '') and any(y.k == 'Str' and y.a in ('t', ('t',), ['t']) for y in x.walk()) for x in e.walk())
    r = set()
    for kind, name, w, ex in f.inits:
        if kind == 'M' and has_t(ex):
            r.add(('M', name))
    for n in f.walk():
        if n.k == 'Var' and n.a[0] and n.c and has_t(n.c[0]):
            r.add(('L', n.a[0]))
        elif n.k == 'Assign' or n.k == 'OpCall' and qual(n.a[0] or '').endswith('operator='):
            if len(n.c) > 1 and has_t(n.c[1]):
                e = strip_casts(n.c[0])
                if e is not None and e.k == 'Member':
                    r.add(('M', e.a[1]))
                elif e is not None and e.k == 'Ref':
                    r.add(('L', e.a[1]))
    return r
