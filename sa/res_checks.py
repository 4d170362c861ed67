"""C16: resources acquired outside self-releasing objects are released exactly once on every path.

Acquisitions are calls of external functions named *_alloc, *_calloc, malloc, calloc, strdup, fopen, new expressions
that are not given to a smart pointer, and calls of functions of the library that return such a resource.
States of a resource: 'A' held by a local variable, 'F' released, 'B' a parameter which the caller owns,
('M', field) stored in a member of the object, 'T' given away.
"""
from interp import *
from life_checks import name, tname, smart, owner

ALLOC = re.compile(r'^(?:malloc|calloc|realloc|strdup|fopen|\w+_(?:alloc|calloc|compcol|memdup))$')
FREE = re.compile(r'^(?:free|fclose|\w+_free)$')


def family(nm):
    if nm in ('malloc', 'calloc', 'realloc', 'strdup'):
        return 'free'
    if nm == 'fopen':
        return 'fclose'
    return re.sub(r'_(alloc|calloc|compcol|memdup)$', '_free', nm)


def own(f):
    return (f.body is not None or f.inits) and not f.file.startswith('/') and 'torus/' not in f.file


def external(prog, key):
    f = prog.functions.get(key)
    return f is None or f.file.startswith('/') or 'torus/' in f.file


class Res(object):
    def __init__(self, prog):
        self.p = prog
        prog.method_info()
        self.calls = Calls(prog)
        self.throws = Throws(self.calls)
        self.bad = {}
        self.count = {}
        self.gives = {}        # function -> family of the resource it returns
        self.frees = {}        # function -> {index of parameter: family}
        self.givesf = {}       # function -> {member of the structure it returns: family}
        self.freesf = {}       # function -> {(index of parameter, member of the structure it points to): family}
        self.taken = {}        # type of address-taken function -> keys
        for k, f in prog.functions.items():
            if not own(f):
                continue
            for n in f.walk():
                for c in n.c:
                    if c is not None and c.k == 'Ref' and c.a[0] == 'F' and not (n.k in CALLS):
                        g = prog.functions.get(c.a[1])
                        if g is not None:
                            self.taken.setdefault(self.sig(g), set()).add(c.a[1])

        # functions that return the object which a member of their argument points to
        self.derefs = {}
        for k, f in prog.functions.items():
            if f.body is None or len(f.params) != 1 or f.cls:
                continue
            b = f.body.c if f.body.k == 'Block' else [f.body]
            if len(b) == 1 and b[0] is not None and b[0].k == 'Return' and b[0].c and b[0].c[0] is not None:
                x = strip_casts(b[0].c[0])
                if x is not None and x.k == 'Un' and x.a == '*':
                    m = strip_casts(x.c[0])
                    if m is not None and m.k == 'Member' and m.a[0] == 'M' and m.c and m.c[0] is not None:
                        o = strip_casts(m.c[0])
                        if o.k == 'Ref' and o.a[0] == 'L':
                            self.derefs[k] = m.a[1]

    @staticmethod
    def sig(f):
        return len(f.params), tuple(p[2].s for p in f.params)

    def may_throw(self, n):
        if n.a and n.a[0] and re.match(r"math::\w*Matrix<\w+>::(?:elem|at|operator\(\))\(", str(n.a[0])):
            return False            # only if the index is out of range
        if n.k == 'Throw':
            return True
        key = n.a[0]
        if key is None:
            c = n.c[0]
            k = len(n.c) - 1
            for (np, ts), fs in self.taken.items():
                if np == k and any(self.throws.may(x) for x in fs):
                    return True
            return False
        return self.throws.may(key, bool(n.a[1])) is not None

    def problem(self, rule, f, what, line, text):
        self.bad.setdefault((rule, qual(f.key), what), (f, line, text))


class ResInterp(Interp):
    K = 60

    def __init__(self, R, f):
        Interp.__init__(self, R.p, f)
        self.R = R
        self.desc = {}          # resource -> (text, family, line)
        self.params = {q[0]: i for i, q in enumerate(f.params)}
        self.tests = {}

    def pkey(self, st):
        return frozenset((k, v) for k, v in st.d.items() if k[0] in ('r', 'pfr'))

    def joinval(self, k, a, b):
        if k[0] == 'r':
            return a if b is None else b if a is None else 'A' if 'A' in (a, b) else a
        return None

    # ---- values
    def slot(self, n):
        """a place that can hold a pointer: local variable, or member of a local structure or of this object"""
        n = strip_casts(n)
        if n is None:
            return None
        if n.k == 'Ref' and n.a[0] == 'L':
            return ('v', n.a[1])
        if n.k == 'Member' and n.a[0] == 'M':
            b = strip_casts(n.c[0]) if n.c and n.c[0] is not None else None
            if b is None or b.k == 'This':
                return ('t', n.a[1])
            if b.k == 'Ref' and b.a[0] == 'L' and not n.a[2]:
                return ('v', b.a[1], n.a[3])
        return None

    def x_Ref(self, n, st):
        if n.a[0] == 'L':
            i = n.a[1]
            v = st.get(('v', i))
            if v is None and i in self.params and n.t is not None and n.t.k == 'ptr':
                v = ('res', ('P', self.params[i]))
                if ('r', v[1]) not in st.d:
                    st = st.set(('r', v[1]), 'B')
            return [(st, v)]
        return [(st, None)]

    def x_Member(self, n, st):
        sl = self.slot(n)
        res = []
        for s, b in (self.ev(n.c[0], st) if n.c and n.c[0] is not None else [(st, None)]):
            if n.a[2]:
                self.used(b, s, n)
            v = s.get(sl) if sl else None
            if isinstance(b, tuple) and b[0] == 'res' and b[1][0] == 'P' and n.a[2] and n.t is not None and n.t.k == 'ptr':
                v = ('pf', b[1][1], n.a[3])
            if v is None and sl and sl[0] == 't' and n.t is not None and n.t.k == 'ptr':
                v = ('fld', n.a[1])
            res.append((s, v))
        return res

    def x_Cast(self, n, st):
        return self.ev(n.c[0], st) if n.c and n.c[0] is not None else [(st, None)]

    def x_DefArg(self, n, st):
        return [(st, None)]

    def x_Null(self, n, st):
        return [(st, 'null')]

    def x_Int(self, n, st):
        return [(st, None)]

    def x_Un(self, n, st):
        res = []
        for s, v in self.ev(n.c[0], st):
            if n.a == '*':
                self.used(v, s, n)
                v = v if isinstance(v, tuple) and v[0] in ('res', 'fld') else None      # delete &(*p)
                res.append((s, ('obj', v) if v else None))
            elif n.a == '&' and isinstance(v, tuple) and v[0] == 'obj':
                res.append((s, v[1]))
            elif n.a == '&' and strip_casts(n.c[0]).k == 'Ref' and strip_casts(n.c[0]).a[0] == 'L':
                res.append((s, ('addr', strip_casts(n.c[0]).a[1])))
            else:
                res.append((s, None))
        return res

    def used(self, v, st, n):
        if isinstance(v, tuple) and v[0] == 'res' and st.get(('r', v[1])) == 'F':
            self.R.problem('use', self.f, self.what(v[1]), n.line, 'uses %s after it was released' % self.what(v[1]))

    def what(self, r):
        if r[0] == 'P':
            return "the argument '%s'" % self.f.params[r[1]][1]
        return self.desc[r][0]

    def acquire(self, n, fam, text, st, part=None):
        r = ('n', id(n), part)
        self.desc[r] = (text, fam, n.line)
        if st.get(('r', r)) == 'A' and any(v == ('res', r) for v in st.d.values()):
            self.R.problem('leak', self.f, text, n.line, 'acquires %s again while the one acquired before is still held' % text)
        st = st.dropif(lambda k: st.d[k] == ('res', r))
        st = st.set(('r', r), 'A')
        self.R.count.setdefault('acquire', {})[self.f.key, n.line] = text
        return st, ('res', r)

    def release(self, v, fam, n, st):
        if not isinstance(v, tuple):
            return st
        if v[0] == 'fld':
            if st.get(('rf', v[1])):
                nm = v[1].rsplit('::', 1)[-1]
                self.R.problem('double', self.f, nm, n.line, "releases the member '%s' twice" % nm)
            return st.set(('rf', v[1]), fam)
        if v[0] == 'pf':
            return st.set(('pfr', v[1], v[2]), fam)
        if v[0] != 'res':
            return st
        r = v[1]
        cur = st.get(('r', r))
        if cur == 'F':
            self.R.problem('double', self.f, self.what(r), n.line, 'releases %s twice' % self.what(r))
        if r[0] == 'n':
            want = self.desc[r][1]
            if want != fam and want and fam and not (want == 'free' and fam == 'free'):
                self.R.problem('mismatch', self.f, self.what(r), n.line, 'releases %s by %s instead of %s' % (self.what(r), fam, want))
            self.R.count.setdefault('release', {})[self.f.key, n.line] = self.what(r)
        return st.set(('r', r), 'F').set(('fam', r), fam)

    def give(self, v, st, to='T'):
        """the resource is now owned by something else"""
        if isinstance(v, tuple) and v[0] == 'obj':
            v = v[1]
        if isinstance(v, tuple) and v[0] == 'str':
            for fld, x in v[1]:
                st = self.give(x, st, to)
        if isinstance(v, tuple) and v[0] == 'res' and st.get(('r', v[1])) == 'A':
            return st.set(('r', v[1]), to)
        return st

    # ---- statements
    def vardecl(self, v, st):
        if not v.c or v.c[0] is None:
            return [st.dropif(lambda k: k[0] == 'v' and k[1] == v.a[0])]
        e = v.c[0]
        res = []
        for s, w in self.full(e, st):
            s = s.dropif(lambda k: k[0] == 'v' and k[1] == v.a[0])
            if v.t.k == 'ptr' and isinstance(w, tuple) and w[0] in ('res', 'fld') or w == 'null' and v.t.k == 'ptr':
                s = s.set(('v', v.a[0]), w)
            elif isinstance(w, tuple) and w[0] == 'str':
                for fld, x in w[1]:
                    s = s.set(('v', v.a[0], fld), x)
            elif v.t.k == 'ref' or v.t.k == 'ptr':
                if isinstance(w, tuple) and w[0] in ('obj', 'addr'):
                    s = s.set(('v', v.a[0]), w)
            else:
                s = self.give(w, s)
            res.append(s)
        return self.merge(res)

    def x_Assign(self, n, st):
        res = []
        sl = self.slot(n.c[0])
        for s, v in self.ev(n.c[1], st):
            if sl is None:
                for s2, w in self.ev(n.c[0], s):
                    res.append((self.give(v, s2), v if isinstance(v, tuple) and v[0] == 'res' else None))
                continue
            if sl[0] == 't':
                old = s.get(sl, ('fld', sl[1]))
                if isinstance(v, tuple) and v[0] == 'res' and v[1][0] == 'n':
                    # is what the member referred to before released?
                    if 'K' not in self.f.fl and sl[1] in self.R.fields and ('rf', sl[1]) not in s.d and s.get(sl) != 'null':
                        self.R.problem('overwrite', self.f, sl[1].rsplit('::', 1)[-1], n.line, "stores a new resource in the member '%s' without releasing the previous one" % sl[1].rsplit('::', 1)[-1])
                    s = self.give(v, s, ('M', sl[1]))
                s = s.set(sl, v) if v is not None else s.drop(sl)
                s = s.drop(('rf', sl[1]))
            elif sl[0] == 'v' and len(sl) == 2 and isinstance(v, tuple) and v[0] == 'str':
                for fld, x in v[1]:
                    s = s.set(sl + (fld,), x)
            elif len(sl) >= 2 and n.c[0].t is not None and n.c[0].t.k != 'ptr' and n.t.k != 'ptr':
                s = self.give(v, s)
            else:
                s = s.set(sl, v) if v is not None else s.drop(sl)
            res.append((s, v))
        return self.mergev(res)

    def ctorinit(self, kind, nm, expr, st):
        if expr is None:
            return [st]
        res = []
        for s, v in self.ev(expr, st):
            if kind == 'M' and isinstance(v, tuple) and v[0] == 'res' and v[1][0] == 'n':
                fld = nm
                ft = self.R.p.field(nm.rsplit('::', 1)[0], nm.rsplit('::', 1)[1])
                t = [x for x in ft if hasattr(x, 'k')][0] if ft is not None else None
                if t is not None and t.k == 'ptr':
                    s = self.give(v, s, ('M', fld)).set(('t', fld), v)
                else:
                    s = self.give(v, s)
            res.append(s)
        return self.merge(res)

    # ---- conditions
    def assume(self, n, v, st, truth):
        if n is not None and n.k == 'Bin' and n.a in ('==', '!='):
            for a, b in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                if strip_casts(b) is not None and (strip_casts(b).k == 'Null' or strip_casts(b).k in ('Int', 'GNU') and a.t is not None and a.t.k == 'ptr'):
                    sl = self.slot(a)
                    if sl is not None:
                        return self.isnull(sl, st, truth == (n.a == '=='))
            return [st]
        if v == 'null':
            return [] if truth else [st]
        if isinstance(v, tuple) and v[0] in ('res', 'fld'):
            sl = self.slot(n)
            if sl is not None:
                return self.isnull(sl, st, not truth)
            if not truth and v[0] == 'res':
                return [self.gone(v, st)]
        return [st]

    def isnull(self, sl, st, null):
        v = st.get(sl)
        if v == 'null':
            return [st] if null else []
        if null:
            if isinstance(v, tuple) and v[0] == 'res':
                st = self.gone(v, st)
            if sl[0] == 't':
                st = st.set(('rf', sl[1]), None)
            return [st.set(sl, 'null')]
        return [st]

    def gone(self, v, st):
        return st.drop(('r', v[1]))

    # ---- expressions
    def x_NewE(self, n, st):
        cur = [st]
        for c in n.c:
            if c is not None and c.k != 'Cast':
                cur = [s for x in cur for s, v in self.ev(c, x)]
        if n.a and n.a[1]:
            return [(s, None) for s in cur]
        arr = bool(n.a and n.a[0])
        res = []
        for s in cur:
            res.append(self.acquire(n, 'delete[]' if arr else 'delete', 'the object created by new %s' % tname(n.t).replace(' *', ''), s))
        return res

    def x_Delete(self, n, st):
        res = []
        for s, v in self.ev(n.c[0], st):
            arr = 'delete[]' if n.a and (n.a is True or n.a == 1 or isinstance(n.a, (list, tuple)) and n.a[0]) else 'delete'
            res.append((self.release(v, arr, n, s), None))
        return res

    def x_New0(self, n, st):
        cur = [(st, [])]
        for c in n.c:
            cur = [(s, l + [v]) for x, l in cur for s, v in (self.ev(c, x) if c is not None else [(x, None)])]
        res = []
        for s, vs in cur:
            if n.a[0] is not None and self.R.may_throw(n):
                self.raise_(n, s)
            for v in vs:
                s = self.give(v, s)
            res.append((s, None))
        return res

    def call(self, n, st, args, obj):
        key = n.a[0]
        cur = [(st, None)]
        if obj is not None:
            cur = self.ev(obj, st)
        cur = [(s, [], o) for s, o in cur]
        for c in args:
            cur = [(s, l + [v], o) for x, l, o in cur for s, v in (self.ev(c, x) if c is not None else [(x, None)])]
        res = []
        nm = name(key) if key else ''
        ext = key is None or external(self.R.p, key)
        for s, vs, o in cur:
            for v in vs:
                if not (FREE.match(nm) and ext):
                    self.used(v, s, n)
            if key is not None and ext and FREE.match(nm):
                res.append((self.release(vs[0] if vs else None, nm, n, s), None))
                continue
            fr = {}
            for t in (self.R.p.targets(key, bool(n.a[1])) if key else ()):
                fr.update(self.R.frees.get(t, {}))
                for (i, fld), fam in sorted(self.R.freesf.get(t, {}).items()):
                    if i < len(vs) and isinstance(vs[i], tuple) and vs[i][0] == 'addr':
                        s = self.release(s.get(('v', vs[i][1], fld)), fam, n, s)
                    elif i < len(vs) and isinstance(vs[i], tuple) and vs[i][0] == 'res' and vs[i][1][0] == 'P':
                        s = self.release(('pf', vs[i][1][1], fld), fam, n, s)
            for i, fam in fr.items():
                if i < len(vs):
                    s = self.release(vs[i], fam, n, s)
            if self.R.may_throw(n):
                self.raise_(n, s)
            if nm == 'realloc' and ext and vs:
                s = self.release(vs[0], 'free', n, s)
            if key is not None and ext and ALLOC.match(nm) and n.t is not None and n.t.k == 'ptr':
                res.append(self.acquire(n, family(nm), 'the result of %s()' % nm, s))
                continue
            fam = self.R.gives.get(key)
            if fam:
                res.append(self.acquire(n, fam, 'the result of %s()' % nm, s))
                continue
            g = self.R.derefs.get(key)
            if g is not None and args and strip_casts(args[0]) is not None and strip_casts(args[0]).k == 'Un' and \
                    strip_casts(args[0]).a == '*' and strip_casts(strip_casts(args[0]).c[0]).k == 'This':
                res.append((s, ('obj', s.get(('t', g), ('fld', g)))))
                continue
            gf = self.R.givesf.get(key)
            if gf:
                l = []
                for fld, fam in sorted(gf.items()):
                    s, v = self.acquire(n, fam, "the member '%s' of the result of %s()" % (fld, nm), s, fld)
                    l.append((fld, v))
                res.append((s, ('str', tuple(l))))
                continue
            if key is not None and key.startswith('std::') and (nm.startswith(('reset', 'push_back', 'insert', 'operator=')) ):
                for v in vs:
                    s = self.give(v, s)
            res.append((s, None))
        return self.mergev(res)

    def x_Call(self, n, st):
        return self.call(n, st, n.c[1:], n.c[0])

    def x_MCall(self, n, st):
        return self.call(n, st, n.c[1:], n.c[0])

    def x_OpCall(self, n, st):
        if n.a[0] and name(n.a[0]) == 'operator=' and len(n.c) == 2:
            g = self.R.p.functions.get(n.a[0])
            if g is None or g.body is None or 'd' in g.fl:
                if not n.a[0].startswith('std::'):
                    return self.x_Assign(n, st)
        return self.call(n, st, n.c, None)

    def s_Return(self, n, sts):
        for st in sts:
            if n.c and n.c[0] is not None:
                for s, v in self.full(n.c[0], st):
                    e = strip_casts(n.c[0])
                    if e is not None and e.k == 'New0' and len(e.c) == 1:
                        e = strip_casts(e.c[0])
                    if e is not None and e.k == 'Ref' and e.a[0] == 'L' and e.t is not None and e.t.k == 'rec':
                        for k, x in list(s.d.items()):
                            if k[0] == 'v' and len(k) == 3 and k[1] == e.a[1]:
                                s = self.give(x, s, 'R')
                    g = v
                    s = self.give(v, s, 'R')
                    self.exits.append(('return', n, s, v))
            else:
                self.exits.append(('return', n, st, None))
        return []


def classfields(R):
    """raw pointer members that are given a resource by some method of their class"""
    R.fields = set()
    for k, f in R.p.functions.items():
        if not own(f) or not f.cls:
            continue
        I = ResInterp(R, f)
        I.run(S())
        for kind, n, s, v in I.exits:
            for kk, x in s.d.items():
                if kk[0] == 'r' and isinstance(x, tuple) and x[0] == 'M':
                    R.fields.add(x[1])


def relevant(R, f):
    for n in f.walk():
        if n.k in ('NewE', 'Delete'):
            return True
        if n.k in CALLS and n.a[0]:
            nm = name(n.a[0])
            if ALLOC.match(nm) or FREE.match(nm) or n.a[0] in R.gives or n.a[0] in R.frees or n.a[0] in R.givesf or n.a[0] in R.freesf:
                return True
    return False


def summaries(R):
    """functions that return resources or release their arguments"""
    for rnd in range(4):
        ch = False
        for k, f in R.p.functions.items():
            if not own(f) or not relevant(R, f):
                continue
            I = ResInterp(R, f)
            I.run(S())
            for kind, n, s, v in I.exits:
                if isinstance(v, tuple) and v[0] == 'res' and v[1][0] == 'n' and s.get(('r', v[1])) == 'R' and f.ret.k == 'ptr':
                    fam = I.desc[v[1]][1]
                    if fam.startswith('delete') and f.ret.sub is not None and f.ret.sub.k == 'rec' and 'C' in f.fl:
                        continue        # created for users of the library
                    if R.gives.get(k) != fam:
                        R.gives[k] = fam
                        ch = True
                e = strip_casts(n.c[0]) if n is not None and n.k == 'Return' and n.c and n.c[0] is not None else None
                if e is not None and e.k == 'New0' and len(e.c) == 1:
                    e = strip_casts(e.c[0])
                if e is not None and f.ret.k == 'rec':
                    l = []
                    if e.k == 'Ref' and e.a[0] == 'L':
                        l = [(kk[2], x) for kk, x in s.d.items() if kk[0] == 'v' and len(kk) == 3 and kk[1] == e.a[1]]
                    elif isinstance(v, tuple) and v[0] == 'str':
                        l = v[1]
                    for fld, x in l:
                        if isinstance(x, tuple) and x[0] == 'res' and x[1][0] == 'n' and s.get(('r', x[1])) == 'R':
                            gf = R.givesf.setdefault(k, {})
                            if fld not in gf:
                                gf[fld] = I.desc[x[1]][1]
                                ch = True
                for kk, x in s.d.items():
                    if kk[0] == 'pfr' and kind != 'throw' and kk[1:] not in R.freesf.setdefault(k, {}):
                        R.freesf[k][kk[1:]] = x
                        ch = True
                    if kk[0] == 'r' and kk[1][0] == 'P' and x == 'F' and kind != 'throw':
                        fr = R.frees.setdefault(k, {})
                        if kk[1][1] not in fr:
                            fr[kk[1][1]] = s.get(('fam', kk[1]))
                            ch = True
        if not ch:
            break


def check_c16(rep):
    prog = Program()
    R = Res(prog)
    R.fields = set()
    summaries(R)
    R.bad = {}
    R.count = {}
    rel = [f for k, f in sorted(prog.functions.items()) if own(f) and relevant(R, f)]
    # first pass: which members own resources
    for f in rel:
        I = ResInterp(R, f)
        I.run(S())
        for kind, n, s, v in I.exits:
            for kk, x in s.d.items():
                if kk[0] == 'r' and isinstance(x, tuple) and x[0] == 'M':
                    R.fields.add(x[1])
    R.bad = {}
    R.count = {}
    for f in rel:
        I = ResInterp(R, f)
        I.run(S())
        held = {}
        okk = set()
        for kind, n, s, v in I.exits:
            for kk, x in s.d.items():
                if kk[0] != 'r' or kk[1][0] != 'n':
                    continue
                r = kk[1]
                if x == 'A':
                    held.setdefault(r, (kind, n))
                elif isinstance(x, tuple) and x[0] == 'M' and kind == 'throw' and 'K' in f.fl:
                    held.setdefault(r, ('ctor', n))
                okk.add(r)
        for r in okk | set(held):
            if r in held:
                kind, n = held[r]
                text = I.desc[r][0]
                R.problem('leak', f, text, n.line if n is not None else f.end, {
                    'throw': 'does not release %s (acquired in line %d) if an exception is raised here',
                    'ctor': 'does not release %s (acquired in line %d) if an exception leaves the constructor here'}.get(kind, 'does not release %s (acquired in line %d) on a path that ends here') % (text, I.desc[r][2]))
            else:
                rep.ok('release', qual(f.key))
    for (rule, fn, what), (f, line, text) in sorted(R.bad.items(), key=lambda x: x[0]):
        rep.bad(rule, '%s|%s' % (fn, what), '%s:%d' % (f.loc().rsplit(':', 1)[0], line), '%s %s' % (fn, text))
    members(R, rep)
    rep.require('release', 20)
    rep.require('member', 4)
    return prog


def members(R, rep):
    """classes with members that own resources: destructor, copy constructor and assignment"""
    p = R.p
    for fld in sorted(R.fields):
        cls, nm = fld.rsplit('::', 1)
        c = p.classes.get(cls)
        if c is None:
            continue
        rep.ok('member', fld)
        fs = [f for f in p.functions.values() if f.cls == cls]
        d = [f for f in fs if 'D' in f.fl]
        if not any(releases(R, f, fld) for f in d):
            rep.bad('member', '%s|destructor' % fld, (d[0] if d else fs[0]).loc(), "%s: the destructor does not release the member '%s'" % (cls, nm))
        for what, flag in (('copy constructor', c.ucc), ('assignment operator', c.uca)):
            if not flag and not nocopy(p, cls, what):
                rep.bad('member', '%s|%s' % (fld, what), fs[0].loc(), "%s owns a resource through the member '%s' but has an implicit %s" % (cls, nm, what))
            else:
                rep.ok('member', fld)
        for f in fs:
            if 'K' in f.fl:
                for kind, key, written, e in f.inits:
                    if kind == 'M' and key == fld and e is not None:
                        x = strip_casts(e)
                        if x is not None and x.k == 'Member' and x.a[1] == fld:
                            rep.bad('member', '%s|shared' % fld, f.loc(), "%s: the member '%s' of the new object refers to the resource owned by the other one" % (qual(f.key), nm))
            for n in f.walk():
                if n.k == 'Assign' and n.c[0] is not None and strip_casts(n.c[0]).k == 'Member' and strip_casts(n.c[0]).a[1] == fld:
                    x = strip_casts(n.c[1])
                    if x is not None and x.k == 'Member' and x.a[1] == fld:
                        rep.bad('member', '%s|shared' % fld, f.loc(n), "%s: the member '%s' refers to the resource owned by another object" % (qual(f.key), nm))


def nocopy(p, cls, what):
    """objects of the class cannot be copied (constructed from or assigned from another one)"""
    c = p.classes.get(cls)
    if c is None:
        return False
    if what == 'copy constructor' and c.dcc:
        return True
    if what == 'assignment operator':
        for k, (cl, nm, flags, over, access) in p.methods.items():
            if cl == cls and nm == 'operator=' and (access == 2 or 'X' in flags):
                return True
        if c.dcc and any(x[1].k == 'ref' or x[1].const for x in c.fields):
            return True
    return any(nocopy(p, b, what) for b in p.bases_of(cls) if b != cls)


def releases(R, f, fld):
    I = ResInterp(R, f)
    I.run(S())
    return bool(I.exits) and all(('rf', fld) in s.d or s.get(('t', fld)) == 'null' for kind, n, s, v in I.exits)
