"""Symbolic reasoning about the sizes of containers (used by C24 and C25).

Path-sensitive interpretation of function bodies.  Integer values and container sizes are linear forms over atoms
(values at function entry, results of calls, loop variables at an arbitrary iteration); conditions tested on the path
are linear inequalities.  Each element access is an obligation  0 <= index < size  to be implied by them.
Loops are analysed once, for an arbitrary iteration: everything modified in them is forgotten except for monotonicity
and for relations between modified quantities that are proved to be preserved by an iteration.
"""
from interp import *

VEC = 'std::vector<'
STR = 'std::basic_string<'
MAX32 = 2**31 - 1
DEBUG = 0


def tn(t):
    while t is not None and t.k in ('ref', 'rref'):
        t = t.sub
    s = (t.s or '') if t is not None else ''
    return s[6:] if s.startswith('const ') else s


def kindof(t):
    s = tn(t)
    if t is not None and t.k == 'ptr':
        return None
    if s.startswith(VEC) and not s.startswith('std::vector<bool'):
        return 'vec'
    if s.startswith(STR):
        return 'str'
    if s.startswith('math::Matrix<') or s.startswith('math::IMatrixDense<'):
        return 'mat'
    return None


def own(f):
    return f.body is not None and not f.file.startswith('/') and 'torus/' not in f.file


# ---- linear forms: ('l', const, ((atom, coef), ...), width)
def lin(c, terms=(), w=None):
    d = {}
    for a, k in terms:
        d[a] = d.get(a, 0) + k
    return ('l', c, tuple(sorted(((a, k) for a, k in d.items() if k), key=repr)), w)


def islin(v):
    return isinstance(v, tuple) and v and v[0] == 'l'


def add(a, b, k=1, w=None):
    return lin(a[1] + k * b[1], a[2] + tuple((x, k * y) for x, y in b[2]), w)


def offset(v):
    """value of an integer, or the position of an iterator"""
    return v[2] if isinstance(v, tuple) and v and v[0] == 'it' else v


def const(v):
    return v[1] if islin(v) and not v[2] else None


ZERO = lin(0)


class Prover(object):
    """implication between linear inequalities (forms >= 0); atoms flagged 'u' are non-negative"""
    def __init__(self):
        self.memo = {}

    def nonneg(self, a):
        return a[0] in ('n', 'u', 'div', 'mod')

    def prove(self, g, cons):
        k = (g, cons)
        r = self.memo.get(k)
        if r is None:
            if len(self.memo) > 200000:
                self.memo.clear()
            self.steps = 0
            idx = {}
            for c in cons:
                for a, x in c[2]:
                    if x < 0:
                        idx.setdefault((a, -1), []).append(c)
                    else:
                        idx.setdefault((a, 1), []).append(c)
            r = self.memo[k] = self.go(g, idx, 6, set())
        return r

    def extra(self, a):
        """built-in facts about an atom, as forms >= 0 in which it has a negative / positive coefficient"""
        if a[0] == 'div':      # x / k:  x - k*q >= 0,  k*q + k-1 - x >= 0
            x, k = a[1], a[2]
            return [add(x, lin(0, ((a, k),)), -1), add(lin(k - 1, ((a, k),)), x, -1)]
        if a[0] == 'mod':
            return [lin(a[2] - 1, ((a, -1),))]
        return []

    def go(self, g, idx, depth, seen):
        neg = [(a, k) for a, k in g[2] if k < 0]
        pos = [(a, k) for a, k in g[2] if k > 0 and not self.nonneg(a)]
        if not neg and not pos:
            if g[1] >= 0:
                return True
            pos = [(a, k) for a, k in g[2] if k > 0]
            if not pos:
                return False
        self.steps += 1
        if depth == 0 or self.steps > 400 or g in seen:
            return False
        seen = seen | {g}
        for a, k in (neg + pos)[:3]:
            cands = idx.get((a, -1 if k < 0 else 1), [])
            cands = cands + [c for c in self.extra(a) if dict(c[2]).get(a, 0) * k > 0]
            for c in cands:
                x = dict(c[2])[a]
                # g - (k/x) c  must stay integral: scale g instead
                m, q = abs(x), abs(k)
                h = add(lin(g[1] * m, tuple((b, y * m) for b, y in g[2])), c, -q)
                if m > 1:
                    d = 0
                    from math import gcd
                    for b, y in h[2]:
                        d = gcd(d, y)
                    if d > 1:
                        h = lin(-((-h[1]) // d) if False else h[1] // d if h[1] % d == 0 else (h[1] // d), tuple((b, y // d) for b, y in h[2]))
                if self.go(h, idx, depth - 1, seen):
                    return True
        return False


PROVER = Prover()


class Sizes(object):
    def __init__(self, prog, scope):
        self.p = prog
        self.scope = scope           # predicate: is an access to this type of container an obligation
        self.obl = {}                # (file, line, text) -> [ok, function key, rule]
        self.retmemo = {}
        self.active = []
        self.addr = set()
        for f in prog.functions.values():
            if f.body is None:
                continue
        self.reached = set()

    def internal(self, key):
        return '@' in key.rsplit(')', 1)[-1] or key.startswith('(anonymous')

    def prepare(self):
        fs = [f for k, f in sorted(self.p.functions.items()) if own(f)]
        self.uses, self.callers, self.inl = set(), {}, set()
        for f in fs:
            for n in f.walk():
                if self.access(n):
                    self.uses.add(f.key)
                if n.k in CALLS and n.a[0] in self.p.functions:
                    self.callers.setdefault(n.a[0], set()).add(f.key)

    def small(self, f):
        """a predicate or accessor that takes containers: its result may tell something about their sizes"""
        return f.ret is not None and f.ret.k in ('bool', 'int', 'uint') and any(kindof(q[2]) for q in f.params) and sum(1 for n in f.walk()) < 150

    def inlinable(self, k):
        f = self.p.functions.get(k)
        return f is not None and own(f) and 'K' not in f.fl and 'D' not in f.fl

    def access(self, n):
        """is the node an element access in scope"""
        if n.k == 'OpCall' and n.a[0] and n.c and n.c[0] is not None:
            q = qual(n.a[0])
            if q.endswith('::operator[]') and kindof(n.c[0].t) in ('vec', 'str'):
                return self.scope(n.c[0].t)
        if n.k == 'MCall' and n.a[0] and n.c and n.c[0] is not None:
            q = qual(n.a[0])
            if q.rsplit('::', 1)[-1] in ('front', 'back', 'pop_back', 'erase') and kindof(n.c[0].t) in ('vec', 'str'):
                return self.scope(n.c[0].t)
        return False


class SizeInterp(Interp):
    K = 24

    def __init__(self, eng, f, prefix=(), depth=0):
        Interp.__init__(self, eng.p, f)
        self.e = eng
        self.prefix = prefix
        self.depth = depth
        self.ids = {}
        self.taken = set()
        self.names = {q[0]: q[1] for q in f.params}
        self.pids = {q[0] for q in f.params}
        for n in f.walk():
            if n.k == 'Un' and n.a == '&' and n.c and n.c[0] is not None:
                x = strip_casts(n.c[0])
                if x is not None and x.k == 'Ref' and x.a[0] == 'L' and x.t is not None and x.t.k in ('int', 'uint', 'bool', 'enum'):
                    self.taken.add(x.a[1])
            elif n.k == 'Var':
                self.names[n.a[0]] = n.a[1]

    def nid(self, n):
        i = self.ids.get(id(n))
        if i is None:
            i = self.ids[id(n)] = len(self.ids)
        return self.prefix + (i,)

    def pkey(self, st):
        return frozenset((k, v) for k, v in st.d.items() if v in (TRUE, FALSE))

    def join(self, a, b):
        """common knowledge of two states; values that differ become new unknowns that keep
        the common limits"""
        if a == b:
            return a
        j = Interp.join(self, a, b)
        for k in sorted(set(a.d) & set(b.d), key=repr):
            if k[0] not in ('i', 'n') or a.d[k] == b.d[k]:
                continue
            v, w = a.d[k], b.d[k]
            if not (islin(v) and islin(w)):
                continue
            self.joins = getattr(self, 'joins', 0) + 1
            x = lin(0, ((('v' if k[0] == 'i' else 'u', self.prefix + ('j', self.joins), k[1]), 1),))
            j = j.set(k, x)
            lims = [(ZERO, 1)] + [(j.d[q], d) for q in j.d if q != k and q[0] in ('i', 'n') and islin(j.d[q]) for d in (1, -1)]
            for l, d in lims:
                if self.prove(add(v, l, -1) if d > 0 else add(l, v, -1), a) and self.prove(add(w, l, -1) if d > 0 else add(l, w, -1), b):
                    y = self.fact(j, add(x, l, -1) if d > 0 else add(l, x, -1))
                    j = y if y is not None else j
        return j

    # ---- facts
    def cons(self, st):
        return frozenset(k[1] for k in st.d if k[0] == 'c')

    def prove(self, g, st):
        return PROVER.prove(g, self.cons(st))

    def fact(self, st, g):
        """adds g >= 0; None if contradictory"""
        if not g[2]:
            return st if g[1] >= 0 else None
        g = lin(g[1], g[2])
        if ('c', g) in st.d:
            return st
        if self.prove(lin(-g[1] - 1, tuple((a, -k) for a, k in g[2])), st):
            return None
        return st.set(('c', g), 1)

    def fresh(self, n, what='', uns=False):
        return lin(0, ((('u' if uns else 'v', self.nid(n), what), 1),))

    def unsigned(self, t):
        while t is not None and t.k in ('ref', 'rref'):
            t = t.sub
        return t is not None and t.k == 'uint'

    def vers(self, st, path):
        return tuple(v for v in (st.get(('ver', path[:i])) for i in range(1, len(path) + 1)) if v is not None)

    def size(self, st, path):
        v = st.get(('n', path))
        if v is not None:
            return v
        if len(path) > 1 and isinstance(path[-1], tuple) and path[-1][0] == '[':
            v = st.get(('en', path[:-1]))
            if v is not None:
                return v
        return lin(0, ((('n', path, self.vers(st, path)), 1),))

    def nonempty(self, st, path):
        return len(path) > 1 and isinstance(path[-1], tuple) and path[-1][0] == '[' and ('ne', path[:-1]) in st.d and ('n', path) not in st.d

    def load(self, st, path, n, t):
        v = st.get(('i', path))
        if v is not None:
            return v
        if path[0][0] == 'G' and str(path[0][1]).endswith('::npos'):
            return lin(2**64 - 1)
        if path[0][0] == 'L' and path[0][1] in self.taken and len(path) == 1:
            return self.fresh(n, 'x', self.unsigned(t))
        return lin(0, ((('u' if self.unsigned(t) else 'i', path, self.vers(st, path)), 1),))

    def havoc(self, st, path, n):
        L = len(path)
        st = st.dropif(lambda k: k[0] in ('n', 'i', 'en', 'ne') and k[1][:L] == path)
        st = st.set(('ver', path), self.nid(n))
        return self.touch(st, path)

    def touch(self, st, path):
        """an element of a container was modified: facts on all its elements are no longer known"""
        for i in range(1, len(path)):
            if isinstance(path[i], tuple) and path[i][0] == '[':
                cp = path[:i]
                st = st.drop(('en', cp), ('ne', cp))
                st = st.dropif(lambda k: k[0] in ('n', 'i', 'en', 'ne') and len(k[1]) > i and k[1][:i] == cp and k[1] != path and k[1][:len(path)] != path and isinstance(k[1][i], tuple))
        return st

    def setc(self, st, path, val, n):
        """assigns a container value"""
        if isinstance(val, tuple) and val[0] == 'lv':
            src = val[1]
            val = ('cv', self.size(st, src), st.get(('en', src)), st.get(('ne', src)))
        st2 = self.havoc(st, path, n)
        if isinstance(val, tuple) and val[0] == 'cv':
            if val[1] is not None:
                st2 = st2.set(('n', path), val[1])
            if val[2] is not None:
                st2 = st2.set(('en', path), val[2])
            if val[3]:
                st2 = st2.set(('ne', path), 1)
        return st2

    def resolve(self, v, st, n):
        """exact value of a possibly wrapped unsigned expression"""
        if not islin(v) or v[3] is None:
            return v
        if not self.prove(lin(v[1], v[2]), st):
            return self.fresh(n, 'wrap', True)
        if v[3] == 'u32':
            hi = v[1] + sum(k * MAX32 for a, k in v[2] if k > 0)
            if hi >= 2**32 and not self.prove(lin(2**32 - 1 - v[1], tuple((a, -k) for a, k in v[2])), st):
                return self.fresh(n, 'wrap', True)
        return lin(v[1], v[2])

    # ---- expressions
    def path(self, n, st):
        if n.a[0] == 'L':
            al = st.get(('al', n.a[1]))
            if al is not None:
                return al
            return (('L', n.a[1]),)
        if n.a[0] == 'G':
            return (('G', n.a[1]),)
        return None

    def x_Ref(self, n, st):
        if n.a[0] == 'E':
            return [(st, lin(int(n.a[2])) if len(n.a) > 2 and isinstance(n.a[2], int) else None)]
        p = self.path(n, st)
        return [(st, ('lv', p) if p else None)]

    def x_This(self, n, st):
        return [(st, ('ptr', (('T',),)))]

    def x_Member(self, n, st):
        res = []
        for s, b in self.ev(n.c[0], st) if n.c and n.c[0] is not None else [(st, ('ptr', (('T',),)))]:
            v = None
            if n.a[0] == 'M' and isinstance(b, tuple):
                if b[0] == 'lv':
                    v = ('lv', b[1] + (n.a[1],))
                elif b[0] == 'ptr' and b[1] is not None:
                    v = ('lv', (b[1] if b[1] == (('T',),) else b[1] + ('*',)) + (n.a[1],))
            res.append((s, v))
        return res

    def x_Int(self, n, st):
        try:
            return [(st, lin(int(n.a)))]
        except (TypeError, ValueError):
            return [(st, None)]

    x_Const = x_Int

    def x_Char(self, n, st):
        return [(st, None)]

    def x_Null(self, n, st):
        return [(st, 'null')]

    def x_Str(self, n, st):
        return [(st, ('cv', None, None, None))]

    def x_Cast(self, n, st):
        if not n.c or n.c[0] is None:
            return [(st, None)]
        k = n.a[0]
        res = []
        for s, v in self.ev(n.c[0], st):
            if k == 'LValueToRValue':
                if isinstance(v, tuple) and v[0] == 'lv':
                    t = n.c[0].t
                    t = t.sub if t is not None and t.k in ('ref', 'rref') else t
                    if t is not None and t.k in ('int', 'uint', 'enum'):
                        v = self.load(s, v[1], n, t)
                    elif t is not None and t.k == 'bool':
                        v = s.get(('i', v[1]))
                        if v is None:
                            v = ('bv', self.lvpath(n.c[0], s))
                    elif t is not None and t.k == 'ptr':
                        v = s.get(('i', v[1])) or ('ptr', v[1])
                    else:
                        v = None
                elif not islin(v):
                    v = None
            elif k == 'ArrayToPointerDecay':
                v = ('ptr', v[1]) if isinstance(v, tuple) and v[0] == 'lv' else v
            elif k == 'IntegralCast':
                if isinstance(v, tuple) and v[0] == 'cmp':
                    v = None
                if islin(v):
                    ft, tt = n.c[0].t, n.t
                    if v[3] is not None and not (self.unsigned(tt) and self.wid(tt) == v[3]):
                        if not self.unsigned(tt) and self.wid(tt) == v[3]:
                            v = lin(v[1], v[2])          # back to a signed type of the same width: exact
                        else:
                            v = self.resolve(v, s, n)
                    elif self.unsigned(tt) and not self.unsigned(ft) and v[3] is None:
                        v = lin(v[1], v[2], self.wid(tt))
                        if self.prove(lin(v[1], v[2]), s):
                            v = lin(v[1], v[2])
            elif k in ('IntegralToBoolean',):
                v = ('cmp', '!=', v, ZERO) if islin(v) else None
            elif k in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'c', 'MaterializeTemporary'):
                pass
            elif k == 'FloatingToIntegral':
                v = self.fresh(n, 'f', self.unsigned(n.t))
            else:
                if not (isinstance(v, tuple) and v[0] in ('lv', 'cv', 'ptr')):
                    v = None
                if k in ('IntegralToFloating', 'PointerToBoolean'):
                    v = None
            res.append((s, v))
        return res

    def wid(self, t):
        s = tn(t)
        return 'u64' if 'long' in s or s in ('size_t', 'std::size_t') else 'u32'

    def lvpath(self, e, st):
        x = strip_casts(e)
        if x is not None and x.k == 'Ref':
            return self.path(x, st)
        return None

    def bin(self, op, a, b, n, st):
        if a in (TRUE, FALSE) and op in ('==', '!=', '&', '|', '^') and b in (TRUE, FALSE):
            x, y = a[1], b[1]
            return ('b', {'&': x and y, '|': x or y, '==': x == y, '!=': x != y, '^': x != y}[op])
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if islin(a) and islin(b):
                return ('cmp', op, self.resolve(a, st, n), self.resolve(b, st, n.c[1] if n.c and n.c[1] is not None else n))
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'it' and a[1] == b[1]:
                return ('cmp', op, a[2], b[2])
            return None
        if isinstance(a, tuple) and a[0] == 'it' and islin(b) and op in '+-':
            b = self.resolve(b, st, n)
            return ('it', a[1], add(a[2], b, 1 if op == '+' else -1))
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'it' and a[1] == b[1] and op == '-':
            return add(a[2], b[2], -1)
        if op in '+-*':
            a = lin(int(a[1])) if a in (TRUE, FALSE) else a
            b = lin(int(b[1])) if b in (TRUE, FALSE) else b
        if not (islin(a) and islin(b)):
            return self.fresh(n, 'o', self.unsigned(n.t)) if n.t is not None and n.t.k in ('int', 'uint') else None
        u = self.unsigned(n.t)
        w = self.wid(n.t) if u else None
        if op in '+-':
            r = add(a, b, 1 if op == '+' else -1, w)
        elif op == '*':
            ca, cb = const(a), const(b)
            if ca is not None:
                a, b, cb = b, a, ca
            if cb is None:
                a, b = self.resolve(a, st, n.c[0]), self.resolve(b, st, n.c[1])
                if repr(a) > repr(b):
                    a, b = b, a
                r = lin(0, ((('u' if self.pos(a, st) and self.pos(b, st) else 'v', 'prod', a, b), 1),), None)
                return r
            else:
                r = lin(a[1] * cb, tuple((x, k * cb) for x, k in a[2]), w)
        elif op == '/':
            a = self.resolve(a, st, n.c[0])
            cb = const(b)
            if cb and cb > 0 and self.pos(a, st):
                ca = const(a)
                return lin(ca // cb) if ca is not None else lin(0, ((('div', a, cb), 1),))
            return self.fresh(n, 'o', u)
        elif op == '%':
            a = self.resolve(a, st, n.c[0])
            cb = const(b)
            if cb and cb > 0 and self.pos(a, st):
                return lin(0, ((('mod', a, cb), 1),))
            return self.fresh(n, 'o', u)
        else:
            return self.fresh(n, 'o', u)
        if w and r[2] == () and r[1] >= 0:
            r = lin(r[1])
        return r

    def pos(self, a, st):
        return self.prove(lin(a[1], a[2]), st)

    def truth(self, l):
        """splits states by a comparison used as a value"""
        res = []
        for s, v in l:
            if isinstance(v, tuple) and v and v[0] in ('cmp', 'bv', 'sne'):
                res += [(x, TRUE) for x in self.assume(None, v, s, True)] + [(x, FALSE) for x in self.assume(None, v, s, False)]
            else:
                res.append((s, v))
        return res

    def x_Bin(self, n, st):
        res = []
        for s, a in self.ev(n.c[0], st):
            if n.a in ('&', '|', '^'):
                l1 = self.truth([(s, a)])
            else:
                l1 = [(s, a)]
            for s1, a1 in l1:
                for s2, b in self.ev(n.c[1], s1):
                    for s3, b1 in (self.truth([(s2, b)]) if n.a in ('&', '|', '^') else [(s2, b)]):
                        res.append((s3, b1 if n.a == ',' else self.bin(n.a, a1, b1, n, s3)))
        return self.mergev(res)

    def x_Un(self, n, st):
        if n.a in ('++', '--', 'p++', 'p--'):
            res = []
            for s, v in self.ev(n.c[0], st):
                r = None
                if isinstance(v, tuple) and v[0] == 'lv' and n.c[0].t is not None:
                    t = n.c[0].t.sub if n.c[0].t.k in ('ref', 'rref') else n.c[0].t
                    if t.k in ('int', 'uint'):
                        o = self.load(s, v[1], n, t)
                        d = 1 if '++' in n.a else -1
                        if islin(o):
                            x = add(o, lin(d), 1, self.wid(t) if t.k == 'uint' and d < 0 else None)
                            x = self.resolve(x, s, n)
                            s = self.touch(s, v[1]).set(('i', v[1]), x)
                            r = o if n.a[0] == 'p' else x
                        else:
                            s = self.havoc(s, v[1], n)
                    else:
                        s = self.havoc(s, v[1], n)
                res.append((s, r))
            return res
        res = []
        for s, v in self.ev(n.c[0], st):
            if n.a == '&':
                v = ('ptr', v[1][:-1] + ('*',)) if False else ('adr', v[1]) if isinstance(v, tuple) and v[0] == 'lv' else None
            elif n.a == '*':
                v = ('lv', v[1] + ('*',)) if isinstance(v, tuple) and v[0] == 'ptr' else ('lv', v[1]) if isinstance(v, tuple) and v[0] == 'adr' else None
            elif n.a == '-':
                v = lin(-v[1], tuple((a, -k) for a, k in v[2]), v[3]) if islin(v) else None
            elif n.a == '+':
                pass
            else:
                v = None
            res.append((s, v))
        return res

    def assign(self, st, p, v, t, n):
        """stores a scalar"""
        st = self.touch(st, p)
        if t is not None and t.k in ('int', 'uint', 'enum') and islin(v):
            if v[3] is not None and t.k == 'int':
                v = lin(v[1], v[2])
            v = self.resolve(v, st, n)
            return st.set(('i', p), v)
        if t is not None and t.k == 'bool' and v in (TRUE, FALSE):
            return st.set(('i', p), v)
        if t is not None and t.k == 'ptr' and isinstance(v, tuple) and v[0] in ('ptr', 'adr'):
            return st.set(('i', p), v)
        if t is not None and t.k in ('int', 'uint'):
            return st.set(('i', p), self.fresh(n, 'as', t.k == 'uint'))
        return self.havoc(st, p, n)

    def x_Assign(self, n, st):
        res = []
        for s0, v in self.truth(self.ev(n.c[1], st)):
            for s, l in self.ev(n.c[0], s0):
                if isinstance(l, tuple) and l[0] == 'lv':
                    t = n.c[0].t
                    t = t.sub if t is not None and t.k in ('ref', 'rref') else t
                    if kindof(t):
                        s = self.setc(s, l[1], v, n)
                    elif t is not None and t.k == 'float':
                        pass
                    else:
                        s = self.assign(s, l[1], v, t, n)
                res.append((s, l if isinstance(l, tuple) and l[0] == 'lv' else v))
        return self.mergev(res)

    def x_AssignOp(self, n, st):
        res = []
        for s0, v in self.truth(self.ev(n.c[1], st)):
            for s, l in self.ev(n.c[0], s0):
                if isinstance(l, tuple) and l[0] == 'lv':
                    t = n.c[0].t
                    t = t.sub if t is not None and t.k in ('ref', 'rref') else t
                    if t is not None and t.k in ('int', 'uint'):
                        o = self.load(s, l[1], n, t)
                        s = self.assign(s, l[1], self.bin(n.a[:-1], o, v, n, s), t, n)
                    elif t is not None and t.k == 'bool':
                        for s1, o in self.truth([(s, s.get(('i', l[1])) or ('bv', l[1]))]):
                            w = self.bin(n.a[:-1], o, v, n, s1)
                            if w not in (TRUE, FALSE) and n.a == '&=' and FALSE in (o, v):
                                w = FALSE
                            if w not in (TRUE, FALSE) and n.a == '|=' and TRUE in (o, v):
                                w = TRUE
                            res.append((self.assign(s1, l[1], w, t, n), l))
                        continue
                    elif t is None or t.k != 'float':
                        s = self.havoc(s, l[1], n)
                res.append((s, l))
        return self.mergev(res)

    # ---- conditions
    def assume(self, n, v, st, truth):
        if isinstance(v, tuple) and v and v[0] == 'cmp':
            op, a, b = v[1:]
            if not truth:
                op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}[op]
            if not (islin(a) and islin(b)):
                return [st]
            d = add(a, b, -1)
            e = add(b, a, -1)
            if op == '<':
                r = self.fact(st, add(e, lin(-1)))
            elif op == '<=':
                r = self.fact(st, e)
            elif op == '>':
                r = self.fact(st, add(d, lin(-1)))
            elif op == '>=':
                r = self.fact(st, d)
            elif op == '==':
                r = self.fact(st, d)
                r = self.fact(r, e) if r is not None else None
            else:
                if not d[2]:
                    return [st] if d[1] else []
                if self.prove(d, st):            # a >= b and a != b
                    r = self.fact(st, add(d, lin(-1)))
                elif self.prove(e, st):
                    r = self.fact(st, add(e, lin(-1)))
                else:
                    return [st]
            return [r] if r is not None else []
        if isinstance(v, tuple) and v and v[0] == 'bv' and v[1]:
            return [st.set(('i', v[1]), ('b', truth))]
        if islin(v):
            return self.assume(n, ('cmp', '!=', v, ZERO), st, truth)
        return [st]

    def assume_case(self, cond, v, case, items, st):
        if islin(v) and case is not None and case.k == 'Case':
            c = self.ev(case.c[0], st)[0][1] if case.c and case.c[0] is not None else None
            if islin(c):
                return self.assume(None, ('cmp', '==', v, c), st, True)
        return [st]

    # ---- declarations
    def vardecl(self, v, st):
        i, t = v.a[0], v.t
        e = v.c[0] if v.c else None
        p = (('L', i),)
        st = st.dropif(lambda k: k[0] in ('n', 'i', 'en', 'ne', 'ver') and k[1][:1] == p or k[0] == 'al' and k[1] == i)
        if t is not None and t.k in ('ref', 'rref'):
            res = []
            for s, w in self.ev(e, st) if e is not None else [(st, None)]:
                if isinstance(w, tuple) and w[0] == 'lv':
                    s = s.set(('al', i), w[1])
                elif isinstance(w, tuple) and w[0] == 'cv':
                    s = self.setc(s, p, w, v)
                elif islin(w):
                    s = s.set(('i', p), self.resolve(w, s, v))
                else:
                    s = s.set(('ver', p), self.nid(v))
                res.append(s)
            return res
        k = kindof(t)
        if e is None:
            return [s.set(('ver', p), self.nid(v)) for s in [st]]
        res = []
        for s, w in self.truth(self.full(e, st)):
            if k:
                s = self.setc(s, p, w if isinstance(w, tuple) else None, v)
            elif t is not None and t.k in ('int', 'uint', 'bool', 'enum', 'ptr'):
                s = self.assign(s, p, w, t, v)
            elif t is not None and t.k == 'rec' and isinstance(w, tuple) and w[0] == 'it':
                s = s.set(('i', p), w)
            else:
                s = s.set(('ver', p), self.nid(v))
                if t is not None and t.k == 'rec' and isinstance(w, tuple) and w[0] == 'rec':
                    for f, x in w[1]:
                        s = s.set((f[0], p + f[1]), x)
            res.append(s)
        return self.merge(res)

    def leave(self, decls, st, n):
        ids = {v.a[0] for v in decls if v is not None and v.a}
        return st.dropif(lambda k: k[0] in ('n', 'i', 'en', 'ne', 'ver') and k[1][0][0] == 'L' and k[1][0][1] in ids or k[0] == 'al' and k[1] in ids)

    def ctorinit(self, kind, name, expr, st):
        if expr is None:
            return [st]
        res = []
        for s, v in self.truth(self.ev(expr, st)):
            if kind == 'M' or kind == 'field' or name:
                p = (('T',), name)
                t = self.fieldtype(name)
                if kindof(t):
                    s = self.setc(s, p, v if isinstance(v, tuple) else None, expr)
                elif t is not None and t.k in ('int', 'uint', 'bool'):
                    s = self.assign(s, p, v, t, expr)
            res.append(s)
        return self.merge(res)

    def fieldtype(self, key):
        c, _, f = key.rpartition('::')
        k = self.p.classes.get(c)
        if k is not None:
            for fd in k.fields:
                if fd[0] == f or fd[0] == key:
                    return fd[1]
        return None

    # ---- loops: one arbitrary iteration
    def modified(self, nodes):
        """locations modified in a loop: list of (node of the lvalue, kind of change)"""
        res = []
        for top in nodes:
            if top is None:
                continue
            for n in top.walk():
                if n.k == 'Un' and n.a in ('++', '--', 'p++', 'p--'):
                    res.append((n.c[0], 'up' if '++' in n.a else 'down'))
                elif n.k == 'Assign':
                    res.append((n.c[0], 'set'))
                elif n.k == 'AssignOp':
                    x = strip_casts(n.c[1])
                    c = x is not None and x.k == 'Int'
                    res.append((n.c[0], 'up' if n.a == '+=' and (c or self.unsigned(n.c[0].t)) else 'down' if n.a == '-=' and (c or self.unsigned(n.c[0].t)) else 'set'))
                elif n.k in ('MCall', 'OpCall', 'Call', 'New0'):
                    for a, how in self.changed(n):
                        res.append((a, how))
        return res

    def changed(self, n):
        """arguments / objects that a call may modify"""
        key = n.a[0] or ''
        q = qual(key)
        nm = q.rsplit('::', 1)[-1]
        res = []
        args = list(n.c)
        f = self.p.functions.get(key)
        if n.k == 'OpCall' and '_iterator' in q and nm in ('operator++', 'operator--', 'operator+=', 'operator-=', 'operator=') and args and args[0] is not None:
            return [(args[0], 'up' if nm == 'operator++' else 'down' if nm == 'operator--' else 'set')]
        if n.k == 'MCall' or n.k == 'OpCall' and (key in self.p.methods or q.startswith('std::vector<') or q.startswith('std::basic_string<')):
            o = args[0]
            args = args[1:]
            isconst = key.endswith(' const')
            if o is not None and not isconst:
                k = kindof(o.t)
                if k and nm in ('operator[]', 'front', 'back', 'begin', 'end', 'at', 'size', 'empty', 'operator()', 'data', 'rows', 'cols', 'c_str', 'rbegin', 'rend', 'reserve', 'capacity'):
                    pass
                elif k and nm in ('push_back', 'emplace_back', 'append', 'operator+='):
                    res.append((o, 'grow'))
                elif nm in ('operator*', 'operator->', 'get', 'operator bool', 'operator!') and not k:
                    pass
                else:
                    res.append((o, 'set'))
        elif n.k == 'Call':
            args = args[1:]
        elif n.k == 'OpCall':
            if nm in ('operator<<', 'operator>>') and q.startswith('std::'):
                args = args[1:] if nm == 'operator>>' else []
        types = self.argtypes(n, key, f, len(args))
        for j, a in enumerate(args):
            if a is None:
                continue
            t = types[j] if j < len(types) else None
            if t is None:
                x = a
                if x.k == 'Cast' and x.a[0] == 'LValueToRValue' or x.t is None:
                    continue
                if x.k in ('Int', 'Float', 'Str', 'Bool'):
                    continue
                if x.k == 'Un' and x.a == '&':
                    res.append((x.c[0], 'set'))
                continue
            if t == 'mref':
                res.append((a, 'set'))
            elif t == 'mptr':
                x = strip_casts(a)
                if x is not None and x.k == 'Un' and x.a == '&':
                    res.append((x.c[0], 'elem'))
                elif x is not None and x.k in ('Ref', 'Member'):
                    res.append((x, 'set'))
        return res

    def argtypes(self, n, key, f, m):
        """for each argument: 'mref' non-const reference, 'mptr' non-const pointer, '' otherwise"""
        if f is not None:
            r = []
            for q in f.params:
                t = q[2]
                r.append('mref' if t.k in ('ref', 'rref') and not (t.sub.const if t.sub is not None else False) and not tn(t).startswith('const ') and not t.s.startswith('const ') else
                         'mptr' if t.k == 'ptr' and t.sub is not None and not t.sub.const else '')
            return r
        s = key[:key.rfind(')')] if ')' in key else key
        i = sig_open(s)
        if i is None:
            return [''] * m
        parts = split_args(s[i + 1:])
        return ['mref' if (x.endswith('&') and not x.startswith('const ')) else 'mptr' if x.endswith('*') and not x.startswith('const ') else '' for x in parts]

    def lvpaths(self, e, st):
        """paths denoted by a modified lvalue expression, without evaluating it (prefix if indexed)"""
        x = e
        while x is not None:
            x = strip_casts(x)
            if x is None:
                return None
            if x.k == 'Ref':
                return self.path(x, st) if x.a[0] in ('L', 'G') else None
            if x.k == 'Member' and x.a[0] == 'M':
                b = strip_casts(x.c[0]) if x.c and x.c[0] is not None else None
                if b is None or b.k == 'This':
                    return (('T',), x.a[1])
                p = self.lvpaths(b, st)
                if p is None:
                    return None
                ptr = b.t is not None and b.t.k == 'ptr'
                return p + (('*',) if ptr else ()) + (x.a[1],)
            if x.k == 'Idx':
                p = self.lvpaths(x.c[0], st)
                return p + (('[', '?'),) if p else None
            if x.k == 'OpCall' and x.c and x.c[0] is not None and (qual(x.a[0] or '').endswith('operator[]') or qual(x.a[0] or '').endswith('operator()')):
                p = self.lvpaths(x.c[0], st)
                return p + (('[', '?'),) if p else None
            if x.k == 'MCall' and x.c and x.c[0] is not None and kindof(x.c[0].t) and qual(x.a[0]).rsplit('::', 1)[-1] in ('front', 'back', 'at', 'begin', 'end'):
                p = self.lvpaths(x.c[0], st)
                return p + (('[', '?'),) if p else None
            if x.k == 'Un' and x.a == '*':
                p = self.lvpaths(x.c[0], st)
                return p + ('*',) if p else None
            if x.k == 'This':
                return (('T',),)
            if x.k == 'Cond':
                return self.lvpaths(x.c[1], st)
            return None
        return None

    def loop(self, head, cond, body, inc, first_body=False):
        node = body if body is not None else cond
        leaving = self.leaving(body)
        mods = self.modified([cond, body, inc])
        declared = {v.a[0] for x in [body] if x is not None for d in x.walk() if d.k == 'Decl' for v in d.c if v is not None}
        out = []
        for st in head:
            changes = {}          # path -> set of kinds
            for e, how in mods:
                if id(e) in leaving:
                    continue      # changed only when the loop is left afterwards
                p = self.lvpaths(e, st)
                if p is None or p[0][0] == 'L' and p[0][1] in declared and ('al', p[0][1]) not in st.d:
                    continue
                elem = False
                for i, x in enumerate(p):
                    if isinstance(x, tuple) and x[0] == '[':
                        p, elem = p[:i], True
                        break
                t = e.t.sub if e.t is not None and e.t.k in ('ref', 'rref') else e.t
                if elem and t is not None and t.k == 'float':
                    continue
                if how == 'elem':
                    continue
                changes.setdefault(p, set()).add('elem' if elem else how)
            # quantities: (kind, path)
            quant = {}
            its = {}              # iterators: the container
            for p, hows in changes.items():
                if hows <= {'grow'} or hows <= {'grow', 'elem'}:
                    quant[('n', p)] = self.size(st, p)
                v = st.get(('i', p))
                if isinstance(v, tuple) and v and v[0] == 'it':
                    its[p] = v[1]
                    v = v[2]
                if islin(v) and 'elem' not in hows:
                    quant[('i', p)] = v
            guesses = []
            qs = sorted(quant, key=repr)
            for a in qs:
                for b in qs:
                    if a != b:
                        d = add(quant[b], quant[a], -1)
                        if self.prove(d, st):
                            guesses.append((a, b))
            for p, c in list(its.items()):
                if any(q[:len(c)] == c and hows != {'elem'} for q, hows in changes.items()):
                    del its[p]
                    quant.pop(('i', p), None)
            guesses = [g for g in guesses if all(x[0] == 'n' or x in quant for x in g)]
            # upper limits taken from the condition
            limits = []
            if cond is not None:
                for a, lim in self.limits(cond, st, changes):
                    if a in quant and self.prove(add(lim, quant[a], -1), st):
                        limits.append((a, lim))
            # a boolean flag that keeps its initial value
            flags = [(('i', p), st.get(('i', p))) for p in changes if st.get(('i', p)) in (TRUE, FALSE)]
            saved = (dict((k, list(v)) for k, v in self.e.obl.items()), len(self.exits), [len(b[0]) for b in self.tries], {k: len(v) for k, v in self.gotos.items()})
            while True:
                s = st
                for p in sorted(changes, key=repr):
                    hows = changes[p]
                    if hows == {'elem'}:
                        # elements are modified, not the container itself
                        s = s.dropif(lambda k: k[0] in ('n', 'i', 'en', 'ne') and len(k[1]) > len(p) and k[1][:len(p)] == p and isinstance(k[1][len(p)], tuple) and k[1][len(p)][0] == '[').drop(('en', p), ('ne', p))
                        s = s.set(('ver', p + ('[]',)), self.nid(node))
                        continue
                    old = quant.get(('n', p))
                    oldi = st.get(('i', p))
                    uns = None
                    s = self.havoc(s, p, node)
                    if old is not None:
                        a = lin(0, ((('n', p, self.nid(node)), 1),))
                        s = s.set(('n', p), a)
                        x = self.fact(s, add(a, old, -1))
                        s = x if x is not None else s
                    if p in its and islin(quant.get(('i', p))):
                        a = lin(0, ((('v', self.nid(node), p), 1),))
                        s = s.set(('i', p), ('it', its[p], a))
                    elif islin(oldi):
                        uns = self.pathunsigned(p, mods, st)
                        a = lin(0, ((('u' if uns else 'v', self.nid(node), p), 1),))
                        s = s.set(('i', p), a)
                        if hows <= {'up'}:
                            x = self.fact(s, add(a, oldi, -1))
                            s = x if x is not None else s
                        elif hows <= {'down'}:
                            x = self.fact(s, add(oldi, a, -1))
                            s = x if x is not None else s
                base = s
                for a, b in guesses:
                    va, vb = offset(s.get(a)), offset(s.get(b))
                    x = self.fact(s, add(vb, va, -1)) if va is not None and vb is not None else s
                    s = x if x is not None else s
                for a, lim in limits:
                    x = self.fact(s, add(lim, offset(s.get(a)), -1))
                    s = x if x is not None else s
                for p in its:
                    x = self.fact(s, offset(s.get(('i', p)))) if ('i', p) in quant and changes[p] <= {'up'} and self.prove(quant[('i', p)], st) else s
                    s = x if x is not None else s
                sts = [s]
                for k, v in flags:
                    pass
                ctl = Ctl()
                self.loops.append(ctl)
                res = []
                if first_body:
                    b = self.merge(self.stmt(body, sts) + ctl.cont)
                    t, f = self.branches(cond, b)
                    back = t
                    # the first iteration from the original state
                    res += f
                else:
                    t, f = self.branches(cond, sts)
                    res += f
                    b = self.stmt(body, t) if body is not None else t
                    b = self.merge(b + ctl.cont)
                    if inc is not None:
                        b = self.merge([x for y in b for x, v in self.full(inc, y)])
                    back = b
                self.loops.pop()
                badg = [g for g in guesses if any(not self.holds(x, g) for x in back)]
                badl = [l for l in limits if any(not (islin(offset(x.get(l[0]))) and self.prove(add(l[1], offset(x.get(l[0])), -1), x)) for x in back)]
                if not badg and not badl:
                    break
                guesses = [g for g in guesses if g not in badg]
                limits = [l for l in limits if l not in badl]
                self.e.obl.clear()
                self.e.obl.update(dict((k, list(v)) for k, v in saved[0].items()))
                del self.exits[saved[1]:]
                for b, m in zip(self.tries, saved[2]):
                    del b[0][m:]
                for k in list(self.gotos):
                    del self.gotos[k][saved[3].get(k, 0):]
            out += res + ctl.brk
        return self.merge(out)

    def leaving(self, body):
        """expressions in blocks that end by leaving the loop or the function"""
        res = set()

        def go(n, inner):
            if n is None or n.k == 'Try':
                return
            if n.k == 'Block':
                last = [c for c in n.c if c is not None][-1:]
                if last and (last[0].k in ('Return', 'Goto') or last[0].k == 'Break' and not inner):
                    if not any(d.k in ('Continue', 'Label', 'Try') for d in n.walk()):
                        for d in n.walk():
                            res.add(id(d))
                        return
            for c in n.c:
                if c is not None:
                    go(c, inner or n.k in ('For', 'While', 'Do', 'Switch'))
        if body is not None and body.k == 'Block':
            for c in body.c:
                if c is not None:
                    go(c, c.k in ('For', 'While', 'Do', 'Switch'))
        return res

    def holds(self, st, g):
        a, b = offset(st.get(g[0])), offset(st.get(g[1]))
        return islin(a) and islin(b) and self.prove(add(b, a, -1), st)

    def pathunsigned(self, p, mods, st):
        for e, how in mods:
            if self.lvpaths(e, st) == p:
                return self.unsigned(e.t)
        return False

    def limits(self, cond, st, changes):
        """quantities compared with unmodified expressions in the loop condition"""
        res = []
        for n in cond.walk():
            if n.k == 'OpCall' and n.a[0] and ('operator!=' in qual(n.a[0]) or '::operator<<' in n.a[0] and 'iterator' in n.a[0]) and len(n.c) == 2 and None not in n.c:
                p = self.lvpaths(n.c[0], st)
                if p in changes and isinstance(st.get(('i', p)), tuple) and st.get(('i', p))[0] == 'it':
                    r = self.ev(n.c[1], st)
                    if len(r) == 1 and isinstance(r[0][1], tuple) and r[0][1] and r[0][1][0] == 'it' and r[0][1][1] == st.get(('i', p))[1]:
                        res.append((('i', p), r[0][1][2]))
            elif n.k == 'Bin' and n.a in ('<', '<=', '!='):
                p = self.lvpaths(n.c[0], st)
                if p in changes and not any(self.lvpaths(x, st) in changes for x in n.c[1].walk() if x.k in ('Ref', 'Member')):
                    r = self.ev(n.c[1], st)
                    if len(r) == 1 and islin(r[0][1]):
                        res.append((('i', p), add(self.resolve(r[0][1], st, n), lin(1 if n.a == '<=' else 0))))
        return res

    # ---- calls
    def x_Call(self, n, st):
        key = n.a[0] or ''
        cur = [(st, ())]
        for c in n.c:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(c, s):
                    nxt.append((s2, vs + (v,)))
            cur = self.mergev(nxt)
        res = []
        for s, vs in cur:
            res += self.call(n, s, key, vs)
        return self.mergev(res)

    x_MCall = x_Call
    x_OpCall = x_Call

    def obligation(self, n, rule, g, st, text, forms=()):
        k = (self.f.file, n.line, rule, text)
        ok = g is not None and self.prove(g, st)
        o = self.e.obl.get(k)
        if o is None:
            o = self.e.obl[k] = [ok, self.f.key, False]
        elif not ok:
            o[0] = False
        if not ok and not o[2]:
            # could the callers ensure it: does it depend on anything given by them
            o[2] = any(self.given(a) for x in forms if islin(x) for a, c in x[2])
        return ok

    def given(self, a):
        """is the atom a value or a size supplied by the caller"""
        if a[0] in ('div', 'mod'):
            return any(self.given(b) for b, c in a[1][2])
        if len(a) > 2 and a[1] == 'prod':
            return any(self.given(b) for x in a[2:] for b, c in x[2])
        p = a[1]
        return isinstance(p, tuple) and p and isinstance(p[0], tuple) and (p[0][0] == 'T' or p[0][0] == 'L' and p[0][1] in self.pids)

    def index(self, n, o, i, st, what=None):
        """obligation 0 <= i < size for an access to a container lvalue"""
        path = o[1] if isinstance(o, tuple) and o[0] == 'lv' else None
        k = kindof(n.c[0].t)
        if not self.e.scope(n.c[0].t):
            return st
        sz = self.size(st, path) if path else o[1] if isinstance(o, tuple) and o[0] == 'cv' else None
        text = what or describe(n, self)
        if k == 'str' and path and self.nonempty(st, path):
            st2 = self.fact(st, add(sz, lin(-1)))
            st = st2 if st2 is not None else st
        if i is None or sz is None:
            self.obligation(n, 'index', None, st, text, (sz, i))
            return st
        lo = self.prove(lin(i[1], i[2]), st)
        g = add(sz, i, -1) if k == 'str' and what is None else add(add(sz, i, -1), lin(-1))
        ok = lo and self.prove(g, st)
        self.obligation(n, 'index', ZERO if ok else None, st, text, (sz, i))
        if ok or path is None:
            return st
        # report once: assume from here on that the access was valid
        return st

    def call(self, n, st, key, vs):
        q = qual(key)
        nm = q.rsplit('::', 1)[-1]
        o = vs[0] if vs else None
        ot = n.c[0].t if n.c and n.c[0] is not None else None
        k = kindof(ot) if n.k in ('MCall', 'OpCall') else None
        if k and isinstance(o, tuple) and o[0] in ('lv', 'cv', 'ptr', 'adr'):
            if o[0] == 'adr':
                o = ('lv', o[1])
            if o[0] == 'ptr':
                o = ('lv', o[1] + ('*',))
            r = self.container(n, st, key, q, nm, k, o, vs[1:])
            if r is not None:
                return r
        elif k:
            r = self.container(n, st, key, q, nm, k, None, vs[1:])
            if r is not None:
                return r
        if n.k == 'OpCall' and isinstance(o, tuple) and o[0] == 'lv' and isinstance(st.get(('i', o[1])), tuple) and st.get(('i', o[1]))[0] == 'it':
            it = st.get(('i', o[1]))
            if nm == 'operator++' or nm == 'operator--':
                return [(st.set(('i', o[1]), ('it', it[1], add(it[2], lin(1 if nm.endswith('++') else -1)))), o)]
            if nm == 'operator*':
                return [(st, ('lv', it[1] + (('[', it[2]),)))]
            o = it
        if q.startswith('__gnu_cxx::operator'):
            # free operators on iterators: the name may carry template arguments
            m = next((x for x in ('!=', '==', '<=', '>=', '-', '+') if q[len('__gnu_cxx::operator'):].startswith(x)), None)
            nm = 'operator' + (m or q[len('__gnu_cxx::operator')])
        ops = {'operator<=': '<=', 'operator>=': '>=', 'operator>': '>', 'operator+': '+', 'operator-': '-', 'operator<': '<', 'operator!=': '!=', 'operator==': '=='}
        if nm in ops and n.k == 'OpCall' and len(vs) == 2 and isinstance(o, tuple) and o[0] == 'it':
            b = vs[1]
            if isinstance(b, tuple) and b[0] == 'lv':
                b = st.get(('i', b[1])) or b
            return [(st, self.bin(ops[nm], o, b, n, st))]
        if nm in ('min', 'max') and q.startswith('std::') and len(vs) == 3:
            a, b = [self.rv(x, n.c[j + 1], st) for j, x in enumerate(vs[1:])]
            if islin(a) and islin(b):
                r = self.fresh(n, nm, self.unsigned(n.t))
                s = st
                for x in (a, b):
                    y = self.fact(s, add(x, r, -1) if nm == 'min' else add(r, x, -1))
                    s = y if y is not None else s
                return [(s, r)]
        if q == 'utils::splitString':
            z = lin(0, ((('n', 'split', self.nid(n)), 1),))
            return [(st, ('cv', z, None, True))]
        f = self.p.functions.get(key)
        if f is not None and own(f) and self.depth < 4 and self.e.internal(key) and self.e.inlinable(key) and key not in self.e.active and (key in self.e.inl or self.e.small(f)):
            return self.inline(n, f, st, vs)
        s = st
        rs = self.e.summary(key) if f is not None and key in self.e.summ else None
        for a, how in self.changed(n):
            if how == 'elem':
                continue
            p = self.lvpaths(a, s)
            if p is not None:
                if n.k == 'Call' and a.k == 'Ref' and a.t is not None and a.t.k == 'ptr':
                    p = p + ('*',)
                s = self.havoc(s, p, n)
        if n.k == 'MCall' and isinstance(o, tuple) and o == ('ptr', (('T',),)) and not key.endswith(' const'):
            s = self.havoc(s, (('T',),), n)
        kk = kindof(n.t)
        if kk:
            return [(s, ('cv', lin(0, ((('n', 'ret', self.nid(n)), 1),)), None, None))]
        t = n.t
        if t is not None and t.k in ('int', 'uint'):
            if n.k in ('MCall',) and key.endswith(' const') and len(vs) == 1 and isinstance(o, tuple) and o[0] in ('lv', 'ptr', 'adr'):
                # a property of an object that was not modified in between
                p = o[1] + ((nm + '()',) if o[0] == 'lv' else ('*', nm + '()'))
                return [(s, self.load(s, p, n, t))]
            return [(s, self.fresh(n, 'call', t.k == 'uint'))]
        return [(s, None)]

    def rv(self, v, e, st):
        if isinstance(v, tuple) and v and v[0] == 'lv' and e is not None and e.t is not None:
            t = e.t.sub if e.t.k in ('ref', 'rref') else e.t
            if t.k in ('int', 'uint'):
                return self.load(st, v[1], e, t)
        return self.resolve(v, st, e) if islin(v) else v

    def inline(self, n, f, st, vs):
        I = SizeInterp(self.e, f, self.nid(n), self.depth + 1)
        s = st
        args = vs[1:] if n.k in ('Call', 'MCall') else vs
        for q, v, e in zip(f.params, args, n.c[1:] if n.k in ('Call', 'MCall') else n.c):
            t = q[2]
            p = (('L', q[0]),)
            s = s.dropif(lambda k: k[0] in ('n', 'i', 'en', 'ne', 'ver') and k[1][:1] == p or k[0] == 'al' and k[1] == q[0])
            if t.k in ('ref', 'rref'):
                if isinstance(v, tuple) and v[0] == 'lv':
                    s = s.set(('al', q[0]), v[1])
                elif isinstance(v, tuple) and v[0] == 'cv':
                    s = self.setc(s, p, v, n)
                elif islin(v):
                    s = s.set(('i', p), self.resolve(v, s, n))
                else:
                    s = s.set(('ver', p), self.nid(n))
            elif kindof(t):
                s = self.setc(s, p, v if isinstance(v, tuple) else None, n)
            elif t.k in ('int', 'uint', 'bool', 'enum', 'ptr'):
                s = self.assign(s, p, v, t, n)
            else:
                s = s.set(('ver', p), self.nid(n))
        self.e.active.append(f.key)
        I.run(s)
        self.e.active.pop()
        res = []
        local = {q[0] for q in f.params} | {x.a[0] for x in f.walk() if x.k == 'Var'}
        for kind, node, x, v in I.exits:
            if kind == 'throw':
                self.raise_(n, x)
                continue
            if isinstance(v, tuple) and v and v[0] == 'lv':
                if v[1][0][0] == 'L' and v[1][0][1] in local:
                    v = ('cv', I.size(x, v[1]), x.get(('en', v[1])), x.get(('ne', v[1]))) if kindof(f.ret) else None
            if isinstance(v, tuple) and v and v[0] in ('it', 'ptr', 'adr') and v[1] and v[1][0][0] == 'L' and v[1][0][1] in local:
                v = None
            x = x.dropif(lambda k: k[0] in ('n', 'i', 'en', 'ne', 'ver') and k[1][0][0] == 'L' and k[1][0][1] in local or k[0] == 'al' and k[1] in local)
            if f.ret is not None and f.ret.k == 'bool':
                for y, b in self.truth([(x, v)]):
                    res.append((y, b))
                continue
            res.append((x, v))
        return self.mergev(res)

    def container(self, n, st, key, q, nm, k, o, args):
        lv = isinstance(o, tuple) and o[0] == 'lv'
        path = o[1] if lv else None

        def size():
            return self.size(st, path) if lv else (o[1] if isinstance(o, tuple) and o[1] is not None else lin(0, ((('n', 'tmp', self.nid(n)), 1),)))
        A = [self.rv(a, n.c[j + 1], st) for j, a in enumerate(args)]
        if k == 'mat':
            if nm in ('rows', 'cols', 'size') and lv:
                return [(st, lin(0, ((('n', path + (nm,), self.vers(st, path)), 1),)))]
            if nm == 'operator()' or nm == 'operator[]':
                return [(st, ('lv', path + (('[', tuple(A)),)) if lv else None)]
            return None
        if nm in ('size', 'length'):
            z = size()
            if lv and self.nonempty(st, path):
                s = self.fact(st, add(z, lin(-1)))
                return [(s if s is not None else st, z)]
            return [(st, z)]
        if nm == 'empty':
            if lv and self.nonempty(st, path):
                return [(st, FALSE)]
            return [(st, ('cmp', '==', size(), ZERO))]
        if nm == 'operator[]':
            i = A[0] if islin(A[0]) else None
            st = self.index(n, o, i, st)
            if not lv:
                return [(st, None)]
            return [(st, ('lv', path + (('[', i if i is not None else self.nid(n)),)))]
        if nm in ('front', 'back'):
            z = size()
            st = self.index(n, o, ZERO if nm == 'front' else add(z, lin(-1)), st, what='%s.%s()' % (describe(n.c[0], self), nm))
            return [(st, ('lv', path + (('[', ZERO if nm == 'front' else add(z, lin(-1))),)) if lv else None)]
        if nm in ('begin', 'end', 'cbegin', 'cend') and lv:
            return [(st, ('it', path, ZERO if 'begin' in nm else size()))]
        if nm in ('c_str', 'data', 'capacity', 'reserve', 'compare', 'at'):
            return [(st, ('lv', path + (('[', A[0] if islin(A[0]) else self.nid(n)),)) if nm == 'at' and lv else None)]
        if nm in ('find', 'rfind', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of') and k == 'str':
            # a position below the size, or npos
            r = self.fresh(n, 'find', True)
            s = self.fact(st, add(add(size(), r, -1), lin(-1)))
            res = [(s, r)] if s is not None else []
            res.append((st, lin(2**64 - 1)))
            return res
        if nm == 'substr':
            return [(st, ('cv', lin(0, ((('n', 'sub', self.nid(n)), 1),)), None, None))]
        if not lv:
            if key.endswith(' const'):
                return [(st, ('cv', lin(0, ((('n', 'ret', self.nid(n)), 1),)), None, None) if kindof(n.t) else None)]
            return None
        if nm == 'operator=':
            return [(self.setc(st, path, args[0], n), o)]
        if nm == 'clear':
            return [(self.setc(st, path, ('cv', ZERO, None, True), n), None)]
        if nm in ('push_back', 'emplace_back'):
            z = add(size(), lin(1))
            ne = st.get(('ne', path))
            s = st.drop(('en', path), ('ne', path))
            s = s.set(('n', path), z)
            return [(s, None)]
        if nm in ('resize', 'assign') and A and islin(A[0]):
            z = A[0]
            en = None
            if len(args) > 1 and isinstance(args[1], tuple) and args[1][0] == 'cv':
                en = args[1][1]
            if nm == 'resize':
                s = st.drop(('en', path), ('ne', path)).set(('n', path), z)
                return [(s, None)]
            return [(self.setc(st, path, ('cv', z, en, None), n), None)]
        if nm == 'pop_back':
            z = size()
            if self.e.scope(n.c[0].t):
                self.obligation(n, 'index', add(z, lin(-1)), st, '%s.pop_back()' % describe(n.c[0], self), (z,))
            return [(st.set(('n', path), add(z, lin(-1))), None)]
        if nm == 'erase':
            z = size()
            its = [a[2] if isinstance(a, tuple) and a and a[0] == 'it' and a[1] == path else a if islin(a) else None for a in A]
            if k == 'vec' or (its and args and isinstance(args[0], tuple) and args[0][0] == 'it'):
                text = '%s.erase()' % describe(n.c[0], self)
                if len(its) == 1 and its[0] is not None:
                    if self.e.scope(n.c[0].t):
                        ok = self.prove(its[0], st) and self.prove(add(add(z, its[0], -1), lin(-1)), st)
                        self.obligation(n, 'index', ZERO if ok else None, st, text, [z] + its)
                    y = add(z, lin(-1))
                elif len(its) == 2 and its[0] is not None and its[1] is not None:
                    if self.e.scope(n.c[0].t):
                        ok = self.prove(its[0], st) and self.prove(add(z, its[1], -1), st) and self.prove(add(its[1], its[0], -1), st)
                        self.obligation(n, 'index', ZERO if ok else None, st, text, [z] + its)
                    y = add(z, add(its[1], its[0], -1), -1)
                else:
                    y = None
                ne, en = st.get(('ne', path)), st.get(('en', path))
                s = self.havoc(st, path, n)
                if y is not None:
                    s = s.set(('n', path), y)
                if ne:
                    s = s.set(('ne', path), 1)
                if en is not None:
                    s = s.set(('en', path), en)
                return [(s, None)]
            return [(self.havoc(st, path, n), o)]
        if nm in ('operator+=', 'append') and k == 'str':
            z = size()
            s = self.havoc(st, path, n)
            s2 = self.fact(s, add(self.size(s, path), z, -1))
            return [(s2 if s2 is not None else s, o)]
        if nm == 'swap' and isinstance(args[0], tuple) and args[0][0] == 'lv':
            a = ('cv', self.size(st, path), st.get(('en', path)), st.get(('ne', path)))
            b = ('cv', self.size(st, args[0][1]), st.get(('en', args[0][1])), st.get(('ne', args[0][1])))
            return [(self.setc(self.setc(st, path, b, n), args[0][1], a, n.c[1]), None)]
        if key.endswith(' const'):
            return None
        return [(self.havoc(st, path, n), None)]

    def x_New0(self, n, st):
        key = n.a[0] or ''
        k = kindof(n.t)
        cur = [(st, ())]
        for c in n.c:
            nxt = []
            for s, vs in cur:
                if c is not None and c.k == 'DefArg':
                    nxt.append((s, vs + ('def',)))
                    continue
                for s2, v in self.ev(c, s):
                    nxt.append((s2, vs + (v,)))
            cur = self.mergev(nxt)
        res = []
        for s, vs in cur:
            vs = [v for v in vs if v != 'def']
            v = None
            if k in ('vec', 'str'):
                args = [c for c in n.c if c is not None and c.k != 'DefArg']
                A = [self.rv(a, args[j], s) for j, a in enumerate(vs)]
                if not vs:
                    v = ('cv', ZERO, None, True)
                elif isinstance(vs[0], tuple) and vs[0][0] in ('lv', 'cv') and len(vs) == 1 and kindof(args[0].t) == k:
                    src = vs[0]
                    v = src if src[0] == 'cv' else ('cv', self.size(s, src[1]), s.get(('en', src[1])), s.get(('ne', src[1])))
                elif isinstance(vs[0], tuple) and len(vs) == 2 and isinstance(vs[1], tuple) and vs[0][0] == vs[1][0] == 'it' and vs[0][1] == vs[1][1]:
                    v = ('cv', add(vs[1][2], vs[0][2], -1), None, None)
                elif islin(A[0]) and (k == 'vec' or len(vs) == 2):
                    en = None
                    if k == 'vec':
                        en = vs[1][1] if len(vs) > 1 and isinstance(vs[1], tuple) and vs[1][0] == 'cv' else self.size(s, vs[1][1]) if len(vs) > 1 and isinstance(vs[1], tuple) and vs[1][0] == 'lv' and kindof(args[1].t) else None
                        if en is None and len(vs) == 1 and 'vector<std::vector' in tn(n.t)[:30]:
                            en = ZERO
                    v = ('cv', A[0], en, None)
                else:
                    x = strip_casts(args[0])
                    if k == 'str' and x is not None and x.k == 'Str' and len(vs) == 1:
                        v = ('cv', lin(len(x.a)) if isinstance(x.a, str) else None, None, None)
                    else:
                        v = ('cv', lin(0, ((('n', 'new', self.nid(n)), 1),)), None, None)
            else:
                for a, how in self.changed(n):
                    if how != 'elem':
                        p = self.lvpaths(a, s)
                        if p is not None:
                            s = self.havoc(s, p, n)
                if n.t is not None and n.t.k == 'rec' and len(vs) == 1 and isinstance(vs[0], tuple) and vs[0][0] == 'it':
                    v = vs[0]
            res.append((s, v))
        return self.mergev(res)

    def x_Idx(self, n, st):
        res = []
        for s, b in self.ev(n.c[0], st):
            for s2, i in self.ev(n.c[1], s):
                i = self.rv(i, n.c[1], s2)
                t = n.c[0].c[0].t if n.c[0].k == 'Cast' and n.c[0].a[0] == 'ArrayToPointerDecay' and n.c[0].c else None
                v = None
                if isinstance(b, tuple) and b[0] in ('ptr', 'adr'):
                    v = ('lv', b[1] + (('[', i if islin(i) else self.nid(n)),))
                res.append((s2, v))
        return self.mergev(res)

    def omp_region(self, n, sts):
        for c in n.c:
            if c is not None:
                sts = self.stmt(c, sts)
        return sts

    def catch(self, h, st):
        return st

    def post(self, n, st, vals):
        return [(st, None)]

    def s_Try(self, n, sts):
        # any statement of the block may throw: the handler sees what was modified in it as unknown
        mods = self.modified([n.c[0]])
        box = []
        self.tries.append((box, catches_all(n)))
        out = self.stmt(n.c[0], sts)
        self.tries.pop()
        hin = []
        for st in sts:
            s = st
            for e, how in mods:
                p = self.lvpaths(e, st)
                if p is None or p[0][0] == 'L' and p not in (st.d) and False:
                    continue
                for i, x in enumerate(p):
                    if isinstance(x, tuple) and x[0] == '[':
                        p = p[:i]
                        s = s.drop(('en', p), ('ne', p)).dropif(lambda k: k[0] in ('n', 'i', 'en', 'ne') and len(k[1]) > len(p) and k[1][:len(p)] == p)
                        p = None
                        break
                if p is not None:
                    s = self.havoc(s, p, e)
            hin.append(s)
        for h in n.c[1:]:
            out = out + self.stmt(h.c[0], [self.catch(h, s) for s in hin])
        return self.merge(out)


def sig_open(s):
    """position of the parenthesis that opens the parameter list of a key"""
    d = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] in ')>' and not (s[i] == '>' and s[i-1] == '-'):
            d += 1
        elif s[i] in '(<':
            if d == 0 and s[i] == '(':
                return i
            d -= 1
    return None


def split_args(s):
    r, d, cur = [], 0, ''
    for c in s:
        if c in '<(':
            d += 1
        elif c in '>)':
            d -= 1
        if c == ',' and d == 0:
            r.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        r.append(cur.strip())
    return r


def describe(n, I):
    """readable form of an lvalue expression"""
    x = strip_casts(n)
    if x is None:
        return '?'
    if x.k == 'Ref':
        return str(x.a[2]) if x.a[0] == 'L' else str(x.a[1]).rsplit('::', 1)[-1]
    if x.k == 'Member':
        return str(x.a[3])
    if x.k == 'Int':
        return str(x.a)
    if x.k == 'This':
        return 'this'
    if x.k == 'Idx':
        return '%s[%s]' % (describe(x.c[0], I), describe(x.c[1], I))
    if x.k == 'OpCall' and x.a[0] and qual(x.a[0]).endswith('operator[]'):
        return '%s[%s]' % (describe(x.c[0], I), describe(x.c[1], I))
    if x.k == 'MCall' and x.a[0]:
        return '%s.%s()' % (describe(x.c[0], I), qual(x.a[0]).rsplit('::', 1)[-1])
    if x.k == 'Bin':
        return '%s%s%s' % (describe(x.c[0], I), x.a, describe(x.c[1], I))
    if x.k == 'Un':
        return '%s%s' % (x.a, describe(x.c[0], I))
    return '..'


def textscope(t):
    s = tn(t)
    return s.startswith(STR) or s.startswith('std::vector<std::basic_string<')


def analyse(prog, scope):
    """functions are analysed on their own; an internal function whose accesses need something its callers
    must ensure is then analysed in the context of each of its callers instead"""
    import time
    prog.method_info()
    E = Sizes(prog, scope)
    E.summ = {}
    E.prepare()
    work = sorted(E.uses)
    done = {}
    while work:
        nxt = set()
        for k in work:
            f = prog.functions[k]
            E.obl = {}
            t = time.time()
            E.active = [k]
            SizeInterp(E, f).run(S())
            done[k] = E.obl
            if DEBUG and time.time() - t > 1:
                print('%.1f s' % (time.time() - t), qual(k), flush=True)
            if any(not o[0] and o[2] for o in E.obl.values()) and k not in E.inl and E.internal(k) and E.callers.get(k) and E.inlinable(k):
                E.inl.add(k)
                nxt |= E.callers[k]
        work = sorted(nxt)
    E.obl = {}
    for k, o in done.items():
        if k in E.inl:
            continue
        for x, (ok, key, dep) in o.items():
            y = E.obl.setdefault(x, [True, key, dep])
            y[0] = y[0] and ok
    return E


def check_c24(rep):
    prog = Program()
    E = analyse(prog, textscope)
    for (file, line, rule, text), (ok, key, dep) in sorted(E.obl.items()):
        if ok:
            rep.ok(rule, '%s: %s' % (qual(key), text))
        else:
            rep.bad(rule, '%s|%s' % (qual(key), text), '%s:%d' % (file, line), '%s: nothing tested before ensures that %s exists' % (qual(key), text))
    rep.require('index', 60)
    return prog
