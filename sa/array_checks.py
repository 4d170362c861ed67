"""C22: array objects are validated before their elements are accessed as raw memory.

Path-sensitive analysis of the functions of the Python interface: for each array object (identified by the place
it comes from) the facts established on the current path - it is an array at all, element type, byte order,
contiguity, number of dimensions, length of each dimension as a symbolic expression - are collected from the calls
that create it and from the conditions that were tested.  Each element access is an obligation to be implied by them.
"""
import re
from interp import *
from facts import AnalysisError
from bound_checks import table_functions, PYFILE
from pyref import apiname, pytype, NULLV

NPY = {0: 'bool', 1: 'char', 2: 'unsigned char', 3: 'short', 5: 'int', 6: 'unsigned int', 7: 'long', 8: 'unsigned long', 11: 'float', 12: 'double', 14: 'std::complex<float>', 15: 'std::complex<double>', 17: '_object *'}
CONTIG, ENSURECOPY = 0x1, 0x20
ACCESS = re.compile(r'^pygama::pyArrayElem<(.*)>\(')
CREATED = ('new', 'newdata')


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t[1:]:
            if isinstance(x, tuple):
                for y in subterms(x):
                    yield y


def mentions(t, what):
    return any(x == what for x in subterms(t))


class Arrays(object):
    def __init__(self, prog, rep):
        self.p, self.rep = prog, rep
        self.tab = table_functions(prog)
        self.inlined = set()
        self.obl = {}           # (function, line, rule, text) -> (ok, location, key)
        self.classreq = {}      # field -> set of requirements on the elements of a container member
        self.seen = 0
        self.uses = {}
        self._mi = {}
        self._gc = {}

    def inmod(self, key):
        f = self.p.functions.get(key)
        return f is not None and f.file == PYFILE and f.body is not None

    def usesarrays(self, key):
        """does the function itself access elements or properties of arrays"""
        if key not in self.uses:
            f = self.p.functions[key]
            self.uses[key] = any((apiname(n) or '').startswith('PyArray_') or n.k == 'Call' and n.a[0] and ACCESS.match(n.a[0]) for n in f.walk())
        return self.uses[key]

    def report(self, f, n, rule, ok, text, key):
        k = (f.loc(n), rule, key)
        o = self.obl.get(k)
        if o is None or o[0] and not ok:
            self.obl[k] = (ok, text, f, n)

    def globconst(self, key):
        """value of a constant integer"""
        if key not in self._gc:
            self._gc[key] = None
            if key in self.p.globals:
                i = self.p.global_init(key)
                self._gc[key] = self.fold(i) if i is not None else None
        return self._gc[key]

    def fold(self, e):
        e = strip_casts(e)
        if e.k == 'Int':
            return int(e.a)
        if e.k == 'Ref' and e.a[0] == 'E':
            return e.a[2]
        if e.k == 'Ref' and e.a[0] == 'G':
            return self.globconst(e.a[1])
        if e.k == 'Cond':
            c = self.fold(e.c[0])
            return None if c is None else self.fold(e.c[1] if c else e.c[2])
        if e.k == 'Bin' and e.a in ('==', '!=', '<', '>', '<=', '>=', '+', '-', '*'):
            a, b = self.fold(e.c[0]), self.fold(e.c[1])
            if a is None or b is None:
                return None
            return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '+': a + b, '-': a - b, '*': a * b}[e.a]
        return None

    def maxidx(self, key, i):
        """number of elements accessed through a pointer parameter at constant offsets (None if unknown)"""
        if (key, i) in self._mi:
            return self._mi[(key, i)]
        self._mi[(key, i)] = None
        f = self.p.functions.get(key)
        if f is None or f.body is None or i >= len(f.params):
            return None
        pid = f.params[i][0]
        best, covered = 0, set()
        for n in f.walk():
            if n.k == 'Idx':
                b, j = strip_casts(n.c[0]), strip_casts(n.c[1])
                if b.k == 'Ref' and b.a[0] == 'L' and b.a[1] == pid:
                    covered.add(id(b))
                    if j.k != 'Int':
                        return None
                    best = max(best, int(j.a) + 1)
        for n in f.walk():
            if n.k == 'Ref' and n.a[0] == 'L' and n.a[1] == pid and id(n) not in covered:
                return None
        self._mi[(key, i)] = best
        return best

    def run(self):
        # functions that receive arrays from other functions of the module are analysed at their calls
        for k in sorted(self.p.functions):
            f = self.p.functions[k]
            if f.file != PYFILE or f.body is None or k in self.tab:
                continue
            for q in f.params:
                t = q[2].sub if q[2].k in ('ref', 'rref') else q[2]
                if t.k == 'ptr' and t.sub.name == 'tagPyArrayObject':
                    self.inlined.add(k)
        for k in sorted(self.p.functions):
            f = self.p.functions[k]
            if f.file != PYFILE or f.body is None or k in self.inlined or ACCESS.match(k):
                continue
            if not self.usesarrays(k) and not any(n.k in CALLS and n.a[0] in self.inlined for n in f.walk()) and not any(n.k == 'New0' and n.a[0] for n in f.walk()):
                continue
            self.seen += 1
            a = ArrFlow(self, f)
            a.go()
        if self.rep is None:
            return
        for (loc, rule, key), (ok, text, f, n) in sorted(self.obl.items(), key=lambda x: (x[0][0], x[0][1], str(x[0][2]))):
            if ok:
                self.rep.ok(rule, '%s: %s' % (qual(f.key), text))
            else:
                self.rep.bad(rule, '%s: %s' % (qual(f.key), text), f.loc(n), '%s (in %s)' % (text, f.q))


class ArrFlow(Interp):
    K = 60

    def __init__(self, A, f, depth=0):
        Interp.__init__(self, A.p, f)
        self.A = A
        self.depth = depth
        self.ids = {}
        self.par = None

    def go(self, st=None):
        f = self.f
        if st is None:
            st = S()
            for i, q in enumerate(f.params):
                t = q[2].sub if q[2].k in ('ref', 'rref') else q[2]
                if pytype(t) or t.k == 'ptr' and t.sub.s == 'void':
                    st = st.set(('v', ('L', q[0])), ('arr', ('arg', q[1], f.n)))
        self.run(st)

    def pkey(self, st):
        return frozenset((k, st.d[k] if k[0] == 'all' else 0) for k in st.d if k[0] == 'all' or k[0] == 'f' and k[1][0] in ('isarr', 'ndim', 'type', 'native', 'contig') or k[0] == 'f' and k[1][0] == 'eq' and (k[1][1][0] in ('dim', 'ndim', 'type', 'sz') or k[1][2][0] in ('dim', 'ndim', 'type', 'sz')))

    def nid(self, n):
        if id(n) not in self.ids:
            self.ids[id(n)] = '%s:%d#%d' % (n.fn.n, n.line, len(self.ids))
            self.ids.setdefault('keep', []).append(n)
        return self.ids[id(n)]

    # ---- facts
    def fact(self, st, *f):
        return st.set(('f', f), True)

    def has(self, st, *f):
        return ('f', f) in st.d

    def forget(self, st, what):
        """drop everything that mentions a term or token"""
        def m(k):
            if k[0] in ('f', 'v', 'all'):
                return mentions(k[1], what) or k[0] == 'v' and isinstance(st.d[k], tuple) and mentions(st.d[k], what)
            return False
        return st.dropif(m)

    def newtok(self, st, n, what, facts=()):
        tok = (what, self.nid(n))
        st = self.forget(st, tok)
        for f in facts:
            st = self.fact(st, f[0], tok, *f[1:])
        return st, ('arr', tok)

    def norm(self, t, st):
        """simplified term"""
        if not isinstance(t, tuple) or t[0] in ('c', 'u'):
            return t
        if t[0] == 'dim':
            ax = self.const(t[2], st)
            if ax is not None and t[2] != ('c', ax):
                t = ('dim', t[1], ('c', ax))
            return t
        if t[0] in ('+', '-', '*', '/', '%'):
            a, b = self.norm(t[1], st), self.norm(t[2], st)
            if a[0] == 'c' and b[0] == 'c':
                try:
                    return ('c', {'+': a[1] + b[1], '-': a[1] - b[1], '*': a[1] * b[1], '/': a[1] // b[1] if b[1] else 0, '%': a[1] % b[1] if b[1] else 0}[t[0]])
                except TypeError:
                    return (t[0], a, b)
            if t[0] in ('+', '*') and repr(b) < repr(a):
                a, b = b, a
            return (t[0], a, b)
        return t

    def const(self, t, st):
        for x in self.closure(t, st):
            if x[0] == 'c':
                return x[1]
        return None

    def closure(self, t, st):
        """terms equal to t"""
        eqs = [(k[1][1], k[1][2]) for k in st.d if k[0] == 'f' and k[1][0] == 'eq']
        t0 = t
        if t[0] in ('+', '-', '*', '/'):
            t = self.norm(t, st)
        elif t[0] == 'dim' and t[2][0] != 'c':
            t = self.norm(t, st)
        res = [t]
        for x in res:
            for a, b in eqs:
                for y, z in ((a, b), (b, a)):
                    if (y == x or y[0] in ('dim', '+', '-', '*', '/') and y != x and self.shallow(y, st) == x) and z not in res:
                        res.append(z)
        if t0 not in res:
            res.append(t0)
        return res

    def shallow(self, t, st):
        if t[0] == 'dim' and t[2][0] != 'c':
            k = self.ndimval(t[1], st)
            if k is not None and t[2] == ('-', ('ndim', t[1]), ('c', 1)):
                return ('dim', t[1], ('c', k - 1))
            return t
        if t[0] in ('+', '*') and repr(t[2]) < repr(t[1]):
            return (t[0], t[2], t[1])
        return t

    def ndimval(self, tok, st):
        for k in st.d:
            if k[0] == 'f' and k[1][0] == 'eq':
                a, b = k[1][1:3]
                for x, y in ((a, b), (b, a)):
                    if x == ('ndim', tok) and y[0] == 'c':
                        return y[1]
        return None

    def lessthan(self, i, d, st, depth=0):
        """is term i < term d on this path"""
        ci, cd = self.closure(i, st), self.closure(d, st)
        kd = [x[1] for x in cd if x[0] == 'c']
        ki = [x[1] for x in ci if x[0] == 'c']
        if ki and kd:
            return ki[0] < kd[0]
        facts = [k[1] for k in st.d if k[0] == 'f' and k[1][0] in ('lt', 'le')]
        if ki:
            # a lower limit of d
            if ki[0] < 0:
                return True
            for op, a, b in facts:
                if b in cd:
                    ka = self.const(a, st)
                    if ka is not None and (ki[0] <= ka if op == 'lt' else ki[0] < ka):
                        return True
            if ki[0] == 0 and any(self.has(st, 'ne', x, ('c', 0)) for x in cd):
                return True
        for op, a, b in facts:
            if op == 'lt' and a in ci:
                if b in cd:
                    return True
                kb = self.const(b, st)
                if kd and kb is not None and kb <= kd[0]:
                    return True
                if depth < 2 and b not in ci and any(self.le(b, x, st) for x in cd):
                    return True
        # p/q < m  if  p < q*m;  p%q < q
        for x in ci:
            if x[0] == '%' and any(y == x[2] for y in cd):
                return True
            if x[0] == '/' and depth < 2:
                for y in cd:
                    for z in ci and [('*', x[2], y)]:
                        if any(self.lessthan(x[1], w, st, depth + 1) for w in [self.norm(z, st)]):
                            return True
        # a*n+b < m*n  if  a<m, b<n
        for x in ci:
            if x[0] == '+':
                for p, q in ((x[1], x[2]), (x[2], x[1])):
                    if p[0] == '*':
                        for y in cd:
                            if y[0] == '*':
                                for a, n in ((p[1], p[2]), (p[2], p[1])):
                                    for m, n2 in ((y[1], y[2]), (y[2], y[1])):
                                        if n == n2 and depth < 3 and self.lessthan(a, m, st, depth + 1) and self.lessthan(q, n, st, depth + 1):
                                            return True
        return False

    def lower(self, t, st, depth=0):
        """a lower limit of an integer term (None if unknown)"""
        if t[0] == 'c':
            return t[1]
        best = 0 if t[0] in ('sz', 'dim', 'size', 'ndim') else None
        for x in self.closure(t, st):
            if x[0] == 'c':
                return x[1]
        for k in st.d:
            if k[0] == 'f' and k[1][0] in ('lt', 'le') and k[1][2] == t:
                ka = self.const(k[1][1], st)
                if ka is not None:
                    ka += k[1][0] == 'lt'
                    best = ka if best is None else max(best, ka)
        if best is None and t[0] in ('+', '-', '*') and depth < 4:
            a, b = self.lower(t[1], st, depth + 1), self.lower(t[2], st, depth + 1)
            if a is not None and b is not None:
                if t[0] == '+':
                    return a + b
                if t[0] == '-' and t[2][0] == 'c':
                    return a - t[2][1]
                if t[0] == '*' and a >= 0 and b >= 0:
                    return a * b
        return best

    def upper(self, t, st):
        if t[0] == 'c':
            return t[1]
        if t[0] == '*':
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                if a[0] == 'c' and a[1] < 0:
                    l = self.lower(b, st)
                    if l is not None:
                        return a[1] * l
        return None

    def le(self, a, b, st):
        ca, cb = self.closure(a, st), self.closure(b, st)
        if any(x in cb for x in ca):
            return True
        for k in st.d:
            if k[0] == 'f' and k[1][0] in ('le', 'lt') and k[1][1] in ca and k[1][2] in cb:
                return True
        return False

    # ---- conditions
    NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}

    def compare(self, op, a, b, st):
        """[states] in which a op b holds"""
        ka, kb = self.const(a, st), self.const(b, st)
        if ka is not None and kb is not None:
            return [st] if {'==': ka == kb, '!=': ka != kb, '<': ka < kb, '>': ka > kb, '<=': ka <= kb, '>=': ka >= kb}[op] else []
        if op == '==':
            for x in self.closure(a, st):
                for y in self.closure(b, st):
                    if self.has(st, 'ne', x, y) or self.has(st, 'ne', y, x):
                        return []
            for x, y in ((a, b), (b, a)):
                u, l = self.upper(self.norm(x, st), st), self.lower(y, st)
                if u is not None and l is not None and u < l:
                    return []
            a, b = sorted((a, b), key=repr)
            return [self.fact(st, 'eq', a, b)]
        if op == '!=':
            if b in self.closure(a, st):
                return []
            return [self.fact(st, 'ne', a, b) if kb is not None or ka is None else self.fact(st, 'ne', b, a)]
        if op in ('>', '>='):
            return self.compare({'>': '<', '>=': '<='}[op], b, a, st)
        if op == '<':
            if self.le(b, a, st):
                return []
            return [self.fact(st, 'lt', a, b)]
        if self.lessthan(b, a, st):
            return []
        if ka == 0 or kb == 0 and b == ('c', 0) and a[0] in ('sz', 'dim'):
            if kb == 0:
                x, y = sorted((a, b), key=repr)
                return [self.fact(st, 'eq', x, y)]
        return [self.fact(st, 'le', a, b)]

    def assume(self, n, v, st, truth):
        if v is None:
            return [st]
        if v[0] == 'cmp':
            op = v[1] if truth else self.NEG[v[1]]
            return self.compare(op, v[2], v[3], st)
        if v[0] == 'n':
            return self.compare('!=' if truth else '==', v[1], ('c', 0), st)
        if v[0] == 'check':
            f = v[1:]
            if truth:
                return [self.fact(st, *f)]
            return [] if self.has(st, *f) else [self.fact(st, 'not') if False else st]
        if v == NULLV:
            return [] if truth else [st]
        if v[0] in ('arr', 'row', 'data', '&', 'ap'):
            if v[0] == 'arr':
                if truth:
                    return [self.fact(st, 'nn', v[1])] if not self.has(st, 'null', v[1]) else []
                return [self.fact(st, 'null', v[1])] if not self.has(st, 'nn', v[1]) else []
            return [st] if truth else []
        return [st]

    def assume_case(self, cond, v, case, items, st):
        if v is None or v[0] != 'n':
            return [st]
        vals = []
        for c in items:
            if c.k == 'Case':
                x = strip_casts(c.c[0])
                k = int(x.a) if x.k == 'Int' else x.a[2] if x.k == 'Ref' and x.a[0] == 'E' else None
                if k is None and x.k == 'Const':
                    k = int(x.a)
                if c is case:
                    return self.compare('==', v[1], ('c', k), st) if k is not None else [st]
                vals.append(k)
        for k in vals:
            if k is not None:
                sts = self.compare('!=', v[1], ('c', k), st)
                if not sts:
                    return []
                st = sts[0]
        return [st]

    # ---- locations
    def loc(self, n, st):
        k = n.k
        if k == 'Ref':
            if n.a[0] == 'L':
                r = st.get(('r', n.a[1]))
                return [(st, r if r is not None else ('L', n.a[1]))]
            if n.a[0] == 'G':
                return [(st, ('G', n.a[1]))]
            return [(st, None)]
        if k == 'Member':
            if n.a[0] == 'G':
                return [(st, ('G', n.a[1]))]
            b = n.c[0] if n.c else None
            if b is None or strip_casts(b).k == 'This':
                return [(st, ('F', 'this', n.a[1]))]
            if n.a[2]:
                res = []
                for s, v in self.ev(b, st):
                    if v is not None and v[0] == 'arr':
                        res.append((s, ('F', v[1], n.a[1])))
                    elif v is not None and v[0] == '&':
                        res.append((s, ('F', v[1], n.a[1])))
                    else:
                        res.append((s, None))
                return res
            return [(s, ('F', l, n.a[1]) if l is not None else None) for s, l in self.loc(b, st)]
        if k == 'Un' and n.a == '*':
            return [(s, v[1] if v is not None and v[0] == '&' else None) for s, v in self.ev(n.c[0], st)]
        if k == 'Idx':
            res = []
            for s, v in self.ev(n.c[0], st):
                for s2, i in self.ev(n.c[1], s):
                    if v is not None and v[0] in ('row', 'data'):
                        self.ptraccess(n, v, i, s2)
                        res.append((s2, None))
                    elif v is not None and v[0] == '&' and v[1] is not None and i is not None and i[0] == 'n':
                        l = v[1]
                        if l[0] == 'E' and l[2] == ('c', 0):
                            l = l[1]
                        res.append((s2, ('E', l, self.norm(i[1], s2))))
                    else:
                        res.append((s2, None))
            return res
        if k == 'OpCall' and n.a[0] and re.search(r'::operator\[\]\(', n.a[0]) and n.a[0].startswith('std::vector'):
            res = []
            for s, l in self.loc(n.c[0], st):
                for s2, i in self.ev(n.c[1], s):
                    res.append((s2, ('E', l, self.norm(i[1], s2)) if l is not None and i is not None and i[0] == 'n' else ('E', l, ('u', '?')) if l is not None else None))
            return res
        if k == 'Cast' and n.c:
            return self.loc(n.c[0], st)
        if k == 'Assign':
            return [x for s, v in self.ev(n, st) for x in self.loc(n.c[0], s)]
        if k == 'Cond':
            t, f = self.branch(n.c[0], st)
            return [x for s in t for x in self.loc(n.c[1], s)] + [x for s in f for x in self.loc(n.c[2], s)]
        return [(s, None) for s, v in self.ev(n, st)]

    def load(self, n, l, st):
        t = n.t.sub if n.t is not None and n.t.k in ('ref', 'rref') else n.t
        if l is None:
            return None
        v = st.get(('v', l))
        if v is not None:
            return v
        if l[0] == 'G' and t is not None and t.s.startswith('const'):
            k = self.A.globconst(l[1])
            if k is not None:
                return ('n', ('c', k))
        if pytype(t):
            if l[0] == 'E':
                return ('arr', ('elem',) + l[1:])
            if l[0] in ('F', 'G'):
                return ('arr', ('fld',) + l)
            return ('arr', ('var',) + l)
        if t is not None and t.k in ('int', 'uint', 'enum', 'bool', 'char'):
            return ('n', ('ld', l))
        return None

    def store(self, l, v, st):
        if l is None:
            return st
        if not (l[0] == 'E'):
            st = st.dropif(lambda k: k[0] == 'f' and (mentions(k[1], ('ld', l)) or mentions(k[1], ('ld', ('B', l)))))
        if v is not None and v[0] == 'check' or v is not None and v[0] == 'cmp':
            v = None
        if v is None:
            return st.drop(('v', l))
        return st.set(('v', l), v)

    # ---- expressions
    def x_Ref(self, n, st):
        if n.a[0] == 'E':
            try:
                return [(st, ('n', ('c', int(n.a[2]))))]
            except (TypeError, ValueError):
                return [(st, None)]
        if n.a[0] == 'F':
            return [(st, None)]
        return [(s, ('&', l) if l is not None else None) for s, l in self.loc(n, st)]

    def x_Member(self, n, st):
        if n.a[0] == 'F':
            return [(s, None) for s, v in (self.ev(n.c[0], st) if n.c else [(st, None)])]
        return [(s, ('&', l) if l is not None else None) for s, l in self.loc(n, st)]

    def x_Idx(self, n, st):
        return [(s, ('&', l) if l is not None else None) for s, l in self.loc(n, st)]

    def x_This(self, n, st):
        return [(st, None)]

    def x_Null(self, n, st):
        return [(st, NULLV)]

    def x_Int(self, n, st):
        return [(st, ('n', ('c', int(n.a))))]

    def x_Const(self, n, st):
        try:
            return [(st, ('n', ('c', int(n.a))))]
        except (TypeError, ValueError):
            return [(st, None)]

    def x_DefArg(self, n, st):
        return self.ev(n.c[0], st)

    def x_Cast(self, n, st):
        k = n.a[0]
        if k == 'NullToPointer':
            return [(st, NULLV)]
        if k == 'LValueToRValue':
            return [(s, self.load(n.c[0], l, s)) for s, l in self.loc(n.c[0], st)]
        if not n.c:
            return [(st, None)]
        res = []
        for s, v in self.ev(n.c[0], st):
            if v is not None and v[0] == 'data' and n.t is not None and n.t.k == 'ptr':
                e = n.t.sub.s.replace('const ', '')
                if e != 'void' and v[2] is None:
                    v = ('data', v[1], e)
                    self.dataaccess(n, v, s)
            elif v is not None and v[0] == 'n' and k in ('IntegralToBoolean',) and v[1][0] == 'c':
                v = ('b', v[1][1] != 0)
            res.append((s, v))
        return res

    def x_Un(self, n, st):
        if n.a == '&':
            x = strip_casts(n.c[0])
            if x.k == 'Call' and x.a[0] and ACCESS.match(x.a[0]):
                res = []
                for s, v in self.ev(x, st):
                    res.append((s, v))
                return res
            return [(s, ('&', l) if l is not None else None) for s, l in self.loc(n.c[0], st)]
        if n.a == '*':
            res = []
            for s, v in self.ev(n.c[0], st):
                if v is not None and v[0] in ('row', 'data'):
                    self.ptraccess(n, v, ('n', ('c', 0)), s)
                    res.append((s, None))
                else:
                    res.append((s, ('&', v[1]) if v is not None and v[0] == '&' else None))
            return res
        if n.a in ('++', '--', 'post++', 'post--', '++post', '--post') or '++' in str(n.a) or '--' in str(n.a):
            res = []
            for s, l in self.loc(n.c[0], st):
                if l is not None:
                    old = s.get(('v', l))
                    if old is not None and old[0] == 'n':
                        s = self.close(s, old[1])
                    u = ('u', self.nid(n))
                    s = self.forget(s, u)
                    s = self.store(l, ('n', u), s)
                    if '++' in str(n.a) and old is not None and (old[1] == u or self.lessthan(('c', -1), old[1], s)):
                        s = self.fact(s, 'le', ('c', 0), u)
                res.append((s, None))
            return res
        res = []
        for s, v in self.ev(n.c[0], st):
            if n.a == '-' and v is not None and v[0] == 'n':
                res.append((s, ('n', self.norm(('-', ('c', 0), v[1]), s))))
            else:
                res.append((s, v if n.a == '+' else None))
        return res

    def close(self, st, idx):
        """the iteration for element idx of a container has ended: remember what holds for all elements so far"""
        conts = set()
        for k in st.d:
            if k[0] == 'f':
                for t in subterms(k[1]):
                    if t[:1] == ('elem',) and t[-1] == idx:
                        conts.add(t)
        for tok in conts:
            c = tok[1]
            fs = frozenset((k[1][0],) + k[1][2:] for k in st.d if k[0] == 'f' and k[1][0] in ('isarr', 'native', 'contig') and k[1][1] == tok)
            nd = self.ndimval(tok, st)
            if nd is not None:
                fs |= {('ndim', nd)}
            ty = [y[1] for y in self.closure(('type', tok), st) if y[0] == 'c']
            if ty:
                fs |= {('type', ty[0])}
            old = st.get(('all', c))
            st = st.set(('all', c), fs if old is None or idx == ('c', 0) else old & fs)
        return st

    def x_Assign(self, n, st):
        res = []
        boolean = n.t is not None and n.t.k == 'bool'
        vals = self.bools(n.c[1], st) if boolean else self.ev(n.c[1], st)
        for s, v in vals:
            for s2, l in self.loc(n.c[0], s):
                s2 = self.store(l, self.sym(n.c[1], v), s2)
                res.append((s2, v))
        return self.mergev(res)

    def sym(self, e, v):
        t = e.t
        if v is None and t is not None and t.k in ('int', 'uint') :
            return ('n', ('u', self.nid(e)))
        if v is not None and v[0] == '&' and (t is None or t.k != 'ptr'):
            return None
        return v

    def bools(self, e, st):
        t, f = self.branch(e, st)
        return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]

    def x_AssignOp(self, n, st):
        res = []
        op = n.a.rstrip('=') if isinstance(n.a, str) else n.a[0].rstrip('=')
        for s, l in self.loc(n.c[0], st):
            if n.c[0].t is not None and n.c[0].t.k == 'bool' and op in ('&', '|') and l is not None:
                old = s.get(('v', l))
                for s2, v in self.bools(n.c[1], s):
                    if old in (TRUE, FALSE):
                        r = ('b', (old[1] and v[1]) if op == '&' else (old[1] or v[1]))
                    else:
                        r = FALSE if op == '&' and v == FALSE else TRUE if op == '|' and v == TRUE else None
                    res.append((self.store(l, r, s2), None))
                continue
            for s2, v in self.ev(n.c[1], s):
                old = self.load(n.c[0], l, s2)
                if l is not None:
                    u = ('u', self.nid(n))
                    s2 = self.forget(s2, u)
                    s2 = self.store(l, ('n', u), s2)
                res.append((s2, None))
        return self.mergev(res)

    def vardecl(self, v, st):
        t = v.t
        L = ('L', v.a[0])
        if v.c and v.c[0] is not None and t is not None:
            if t.k in ('ref', 'rref'):
                return [s.set(('r', v.a[0]), l) if l is not None else s.drop(('r', v.a[0])) for s, l in self.loc(v.c[0], st)]
            if t.k == 'bool':
                return [self.store(L, r, s) for s, r in self.bools(v.c[0], st)]
            x = v.c[0]
            if x.k == 'InitList':
                cur = [st.dropif(lambda k: k[0] == 'v' and k[1][0] == 'E' and k[1][1] == L)]
                for i, c in enumerate(x.c):
                    nxt = []
                    for s in cur:
                        for s2, r in (self.ev(c, s) if c is not None else [(s, None)]):
                            nxt.append(self.store(('E', L, ('c', i)), self.sym(c, r), s2) if c is not None else s2)
                    cur = nxt
                return cur
            if t.k == 'rec':
                st = self.forget(st, L)
                return [s for s, r in self.ev(x, st)]
            return [self.store(L, self.sym(x, r), s) for s, r in self.ev(x, st)]
        return [self.forget(st, L).drop(('v', L))]

    def x_Bin(self, n, st):
        if n.a == ',':
            return [(s2, v) for s, _ in self.ev(n.c[0], st) for s2, v in self.ev(n.c[1], s)]
        res = []
        for s, a in self.ev(n.c[0], st):
            for s2, b in self.ev(n.c[1], s):
                r = None
                if n.a in self.NEG:
                    if a is not None and b is not None and a[0] == 'n' and b[0] == 'n':
                        r = ('cmp', n.a, a[1], b[1])
                    elif NULLV in (a, b) and n.a in ('==', '!='):
                        o = b if a == NULLV else a
                        if o == NULLV:
                            r = TRUE if n.a == '==' else FALSE
                        elif o is not None and o[0] == 'arr':
                            r = ('nul', n.a == '==', o[1])
                        elif o is not None and o[0] in ('&', 'row', 'data'):
                            r = FALSE if n.a == '==' else TRUE
                    elif n.a in ('!=', '==') and self.swapcheck(n):
                        t = self.swaptok(n, s2)
                        if t is not None:
                            r = ('check', 'native', t)
                elif n.a in ('+', '-', '*', '/', '%') and a is not None and b is not None:
                    if a[0] == 'n' and b[0] == 'n':
                        r = ('n', self.norm((n.a, a[1], b[1]), s2))
                    elif a[0] in ('row', 'data') and b[0] == 'n':
                        r = ('row', a[1], ('u', self.nid(n)), a[2]) if a[0] == 'data' else ('off',) + a[1:]
                elif n.a in ('&',) and a is not None and b is not None and a[0] == 'n' and b[0] == 'n' and a[1][0] == 'c' and b[1][0] == 'c':
                    r = ('n', ('c', a[1][1] & b[1][1]))
                elif n.a in ('|',) and a is not None and b is not None and a[0] == 'n' and b[0] == 'n' and a[1][0] == 'c' and b[1][0] == 'c':
                    r = ('n', ('c', a[1][1] | b[1][1]))
                res.append((s2, r))
        return self.mergev(res)

    def swapcheck(self, n):
        return n.a == '!=' and any(x.k == 'Member' and x.a[0] == 'M' and x.a[3] == 'byteorder' for x in n.walk()) and any(x.k in ('Char', 'Int') for x in n.walk())

    def swaptok(self, n, st):
        for x in n.walk():
            if x.k == 'Call' and x.a[0] and qual(x.a[0]) == 'PyArray_DESCR':
                for s, v in self.ev(x.c[1], st):
                    if v is not None and v[0] == 'arr':
                        return v[1]
        return None

    def branch(self, n, st):
        if n is not None and n.k == 'Bin' and n.a in ('==', '!='):
            T, F = [], []
            for s, v in self.ev(n, st):
                if v is not None and v[0] == 'nul':
                    for truth, out in ((True, T), (False, F)):
                        isnull = truth == v[1]
                        if isnull and self.has(s, 'nn', v[2]) or not isnull and self.has(s, 'null', v[2]):
                            continue
                        out.append(self.fact(s, 'null' if isnull else 'nn', v[2]))
                elif v == TRUE:
                    T.append(s)
                elif v == FALSE:
                    F.append(s)
                else:
                    T += self.assume(n, v, s, True)
                    F += self.assume(n, v, s, False)
            return self.merge(T), self.merge(F)
        return Interp.branch(self, n, st)

    # ---- calls
    def args(self, exprs, st):
        cur = [(st, ())]
        for c in exprs:
            nxt = []
            for s, vs in cur:
                for s2, v in (self.ev(c, s) if c is not None else [(s, None)]):
                    nxt.append((s2, vs + (v,)))
            cur = self.mergev(nxt)
        return cur

    def arg(self, v):
        return v[1] if v is not None and v[0] == 'arr' else None

    def need(self, n, tok, st, what):
        """property of an array is read: it must be an array"""
        if tok[0] in CREATED or tok[0] == 'from' or self.has(st, 'isarr', tok):
            ok = True
        elif self.internal(tok):
            return
        else:
            ok = False
        self.A.report(self.f, n, 'object', ok, '%s of %s is read %s' % (what, self.src(tok), 'after it has been verified to be an array' if ok else 'without verifying that it is an array'), tok)

    def internal(self, tok):
        """objects that do not come directly from the user"""
        return tok[0] in ('fld', 'var') or tok[0] == 'elem' and tok[1] is not None and self.provenance(tok[1]) != 'user'

    def provenance(self, l):
        """where do the elements of a container come from"""
        if l[0] == 'F':
            return 'member'
        if l[0] == 'L':
            for n in self.f.walk():
                if n.k == 'Var' and n.a[0] == l[1]:
                    if n.c and n.c[0] is not None and any(x.k in CALLS and x.a[0] and qual(x.a[0]) == 'pygama::toPyObjectArray' for x in n.c[0].walk()):
                        return 'user'
        return 'local'

    def src(self, tok):
        if tok[0] == 'arg':
            return 'the argument ' + tok[1]
        if tok[0] == 'elem':
            return 'an element of a list of objects'
        return {'from': 'the converted array', 'call': 'the result of a user-defined function', 'new': 'the new array', 'newdata': 'the new array', 'parsed': 'an argument', 'item': 'an element of a tuple or dictionary'}.get(tok[0], 'an object')

    def api(self, n, name, exprs, vs, st):
        a0 = self.arg(vs[0]) if vs else None
        if name == 'PyArray_FromAny':
            d = vs[1]
            fl = vs[4]
            facts = [('isarr',)]
            if d is not None and d[0] == 'descr':
                facts += [('native',)]
            st, v = self.newtok(st, n, 'from', facts)
            if d is not None and d[0] == 'descr' and d[1] is not None:
                st = self.compare('==', ('type', v[1]), d[1], st)[0]
            k = self.const(fl[1], st) if fl is not None and fl[0] == 'n' else None
            if k is not None and k & CONTIG:
                st = self.fact(st, 'contig', v[1])
            lo, hi = vs[2], vs[3]
            if lo is not None and hi is not None and lo[0] == hi[0] == 'n' and lo[1] == hi[1] and lo[1][0] == 'c' and lo[1][1] > 0:
                st = self.compare('==', ('ndim', v[1]), lo[1], st)[0]
            return [(st, v)]
        if name == 'PyArray_DescrFromType':
            return [(st, ('descr', vs[0][1] if vs[0] is not None and vs[0][0] == 'n' else None))]
        if name in ('PyArray_New', 'PyArray_Zeros', 'PyArray_Empty'):
            i = 1 if name == 'PyArray_New' else 0
            st, v = self.newtok(st, n, 'new', [('isarr',), ('native',), ('contig',)])
            nd, dims = vs[i], vs[i + 1]
            ty = vs[3] if name == 'PyArray_New' else ('n', vs[2][1]) if vs[2] is not None and vs[2][0] == 'descr' and vs[2][1] is not None else None
            if nd is not None and nd[0] == 'n':
                st = self.compare('==', ('ndim', v[1]), nd[1], st)[0]
            if ty is not None and ty[0] == 'n':
                st = self.compare('==', ('type', v[1]), ty[1], st)[0]
            if dims is not None and dims[0] == '&' and dims[1] is not None:
                k = self.const(nd[1], st) if nd is not None and nd[0] == 'n' else None
                for ax in range(k or 0):
                    x = st.get(('v', dims[1] if k == 1 and dims[1][0] != 'E' and ('v', dims[1]) in st.d else ('E', dims[1], ('c', ax))))
                    if x is not None and x[0] == 'n':
                        r = self.compare('==', ('dim', v[1], ('c', ax)), x[1], st)
                        st = r[0] if r else st
            return [(st, v)]
        if name in ('PyArray_NDIM', 'PyArray_TYPE', 'PyArray_DIM', 'PyArray_DATA', 'PyArray_DIMS', 'PyArray_BYTES') and vs:
            if a0 is None:
                return [(st, None)]
            self.need(n, a0, st, {'PyArray_NDIM': 'the number of dimensions', 'PyArray_TYPE': 'the element type', 'PyArray_DIM': 'the shape', 'PyArray_DIMS': 'the shape'}.get(name, 'the data'))
            if name == 'PyArray_NDIM':
                return [(st, ('n', ('ndim', a0)))]
            if name == 'PyArray_TYPE':
                return [(st, ('n', ('type', a0)))]
            if name == 'PyArray_DIM':
                i = vs[1]
                if i is None or i[0] != 'n':
                    return [(st, None)]
                t = self.norm(('dim', a0, self.norm(i[1], st)), st)
                if a0[0] not in CREATED and not self.internal(a0):
                    ok = self.lessthan(i[1], ('ndim', a0), st) or i[1] == ('-', ('ndim', a0), ('c', 1))
                    self.A.report(self.f, n, 'ndim', ok, 'the length of dimension %s of %s is read %s' % (self.show(i[1]), self.src(a0), 'after its number of dimensions has been verified' if ok else 'without verifying that it has that many dimensions'), (a0, i[1]))
                return [(st, ('n', t))]
            if name == 'PyArray_DIMS':
                return [(st, None)]
            return [(st, ('data', a0, None))]
        if name == 'PyArray_MultiplyList':
            for x in exprs[0].walk():
                if x.k == 'Call' and apiname(x) in ('PyArray_DIMS', 'PyArray_NDIM') and len(x.c) > 1:
                    for s, v in self.ev(x.c[1], st):
                        if v is not None and v[0] == 'arr':
                            return [(st, ('n', ('size', v[1])))]
            return [(st, None)]
        if name == 'PyObject_TypeCheck' and a0 is not None:
            if any(x.k == 'Idx' and any(y.k == 'Ref' and y.a[0] == 'G' and y.a[1].startswith('PyArray_API') for y in x.walk()) for x in n.c[2].walk()):
                return [(st, ('check', 'isarr', a0))]
            return [(st, None)]
        if name in ('PyArray_CHKFLAGS',) and a0 is not None:
            k = self.const(vs[1][1], st) if vs[1] is not None and vs[1][0] == 'n' else None
            if k is not None and k & CONTIG:
                return [(st, ('check', 'contig', a0))]
            return [(st, None)]
        if name == 'PyArray_ISNOTSWAPPED' and a0 is not None:
            return [(st, ('check', 'native', a0))]
        if name in ('PyArg_ParseTupleAndKeywords', 'PyArg_ParseTuple'):
            for i, (e, v) in enumerate(zip(exprs, vs)):
                if v is not None and v[0] == '&' and e.t is not None and e.t.k == 'ptr' and pytype(e.t.sub):
                    st = st.set(('v', v[1]), ('arr', ('parsed', str(v[1]))))
                elif v is not None and v[0] == '&' and v[1][0] == 'L':
                    st = st.set(('v', v[1]), ('n', ('u', '%s.%d' % (self.nid(n), i)))) if e.t.sub.k in ('int', 'uint') else st.drop(('v', v[1]))
            return [(st, None)]
        if name in ('PyObject_CallFunctionObjArgs', 'PyObject_Call', 'PyObject_CallMethod', 'PyObject_CallObject', 'PyObject_CallFunction', 'PyRun_StringFlags', 'PyObject_GetAttrString', 'PySequence_GetItem', 'PyObject_GetItem'):
            st, v = self.newtok(st, n, 'call')
            return [(st, v)]
        if name in ('PyTuple_GetItem', 'PyList_GetItem', 'PyDict_GetItemString', 'PyDict_GetItem'):
            st, v = self.newtok(st, n, 'item')
            return [(st, v)]
        if name == 'Py_INCREF' or name == 'Py_DECREF' or name.startswith('Py_X'):
            return [(st, None)]
        # variables passed by address
        for e, v in zip(exprs, vs):
            if v is not None and v[0] == '&' and v[1] is not None and e.t is not None and e.t.k == 'ptr' and not e.t.s.startswith('const') and v[1][0] == 'L':
                st = st.drop(('v', v[1]))
        t = n.t
        if t is not None and t.k in ('int', 'uint'):
            u = ('u', self.nid(n))
            return [(self.forget(st, u), ('n', u))]
        if pytype(t):
            st, v = self.newtok(st, n, 'call')
            return [(st, v)]
        return [(st, None)]

    def show(self, t):
        return str(t[1]) if t[0] == 'c' else '(not constant)'

    def x_Call(self, n, st):
        name = apiname(n)
        exprs = n.c[1:]
        res = []
        if n.a[0] and ACCESS.match(n.a[0]):
            for s, vs in self.args(exprs, st):
                res.append((s, self.access(n, ACCESS.match(n.a[0]).group(1), exprs, vs, s)))
            return self.mergev(res)
        if name:
            for s, vs in self.args(exprs, st):
                res += self.api(n, name, exprs, vs, s)
            return self.mergev(res)
        pre = [(st, None)]
        if n.a[0] is None and n.c[0] is not None:
            pre = self.ev(n.c[0], st)
        for s0, _ in pre:
            for s, vs in self.args(exprs, s0):
                res += self.call(n, n.a[0], exprs, vs, None, s)
        return self.mergev(res)

    def x_MCall(self, n, st):
        res = []
        q = qual(n.a[0]) if n.a[0] else ''
        if re.sub(r'<.*>', '', q) == 'std::vector::size' or q.endswith('::size') and q.startswith('std::vector'):
            for s, l in self.loc(n.c[0], st):
                res.append((s, ('n', ('sz', l)) if l is not None else None))
            return res
        if '::operator bool(' in (n.a[0] or ''):
            return [(s, ('n', ('ld', ('B', l))) if l is not None else None) for s, l in self.loc(n.c[0], st)]
        for s0, ov in self.ev(n.c[0], st):
            for s, vs in self.args(n.c[1:], s0):
                res += self.call(n, n.a[0], n.c[1:], vs, n.c[0], s)
        return self.mergev(res)

    def x_OpCall(self, n, st):
        if n.a[0] and re.search(r'::operator\[\]\(', n.a[0]) and n.a[0].startswith('std::vector'):
            return [(s, ('&', l) if l is not None else None) for s, l in self.loc(n, st)]
        res = []
        for s, vs in self.args(n.c, st):
            res += self.call(n, n.a[0], n.c, vs, None, s)
        return self.mergev(res)

    def x_New0(self, n, st):
        res = []
        for s, vs in self.args(n.c, st):
            self.ctorreq(n, vs, s)
            res += self.call(n, n.a[0], n.c, vs, None, s)
        return self.mergev(res)

    def call(self, n, key, exprs, vs, obj, st):
        res = []
        tail = None
        if key is not None and self.A.inmod(key):
            f = self.p.functions[key]
            if key in self.A.inlined and self.depth < 3:
                return self.inline(n, f, exprs, vs, st)
            # rows of arrays passed to helper functions
            for i, v in enumerate(vs):
                if v is not None and v[0] in ('row', 'data') and i < len(f.params):
                    m = self.A.maxidx(key, i)
                    if m is not None and m > 0:
                        self.ptraccess(n, v, ('n', ('c', m - 1)), st)
        elif key is not None:
            for i, v in enumerate(vs):
                if v is not None and v[0] in ('row', 'data') and key in self.p.functions:
                    m = self.A.maxidx(key, i)
                    if m is not None and m > 0:
                        self.ptraccess(n, v, ('n', ('c', m - 1)), st)
        ts = self.p.functions[key].params if key in self.p.functions else ()
        for i, (e, v) in enumerate(zip(exprs, vs)):
            if v is not None and v[0] == '&' and v[1] is not None:
                t = ts[i][2] if i < len(ts) else None
                if t is None and e.t is not None:
                    t = e.t
                if t is not None and t.k in ('ref', 'ptr') and not t.s.startswith('const'):
                    l = v[1]
                    if ('v', l) in st.d or l[0] == 'L':
                        st = st.dropif(lambda k: k == ('v', l) or k[0] == 'v' and k[1][0] == 'E' and k[1][1] == l)
        t = n.t
        if t is not None and t.k in ('int', 'uint'):
            u = ('u', self.nid(n))
            return [(self.forget(st, u), ('n', u))]
        if pytype(t):
            st, v = self.newtok(st, n, 'call')
            return [(st, v)]
        return [(st, None)]

    def inline(self, n, f, exprs, vs, st):
        for (pid, pname, t, dflt), v in zip(f.params, vs):
            if t.k in ('ref', 'rref'):
                st = st.set(('r', pid), v[1]) if v is not None and v[0] == '&' else st.drop(('r', pid))
            else:
                st = self.store(('L', pid), v, st)
        sub = ArrFlow(self.A, f, self.depth + 1)
        sub.ids = self.ids
        sub.go(st)
        res = []
        for kind, m, s, v in sub.exits:
            if kind == 'throw':
                self.raise_(n, s)
            else:
                res.append((s, v))
        return self.mergev(res)

    # ---- obligations
    def hastype(self, tok, T, st):
        for x in self.closure(('type', tok), st):
            if x[0] == 'c':
                return NPY.get(x[1]) == T or T == 'std::complex<float>' and x[1] == 14 or T == 'std::complex<double>' and x[1] == 15
        return None

    def access(self, n, T, exprs, vs, st):
        T = T.replace('galaxymodel::StorageNumT', 'float')
        tok = self.arg(vs[0])
        idx = [v[1] if v is not None and v[0] == 'n' else None for v in vs[1:]]
        if tok is None:
            self.A.report(self.f, n, 'object', False, 'an element is accessed in an object of unknown origin', 'unknown')
            return None
        if tok[0] in ('fld', 'var'):
            return ('row', tok, tuple(idx), T)
        src = self.src(tok)
        key = (tok[0],)
        created = tok[0] in CREATED
        ht = self.hastype(tok, T, st)
        if tok[0] == 'elem' and self.provenance(tok[1]) == 'member':
            self.memberreq(n, tok, T, len(idx), st)
            return ('row', tok, tuple(idx), T)
        if self.internal(tok):
            return ('row', tok, tuple(idx), T)
        if not created:
            ok = tok[0] == 'from' or self.has(st, 'isarr', tok)
            self.A.report(self.f, n, 'object', ok, 'elements of %s are accessed %s' % (src, 'after it has been verified to be an array' if ok else 'without verifying that it is an array'), key)
        if not (created and ht is None):
            self.A.report(self.f, n, 'type', bool(ht), 'elements of %s are accessed as %s %s' % (src, T, 'which is their type' if ht else 'but their type was not verified' if ht is None else 'but have a different type'), key)
        ok = self.has(st, 'native', tok) or T == '_object *'
        self.A.report(self.f, n, 'byteorder', ok, 'elements of %s are accessed %s' % (src, 'in native byte order' if ok else 'without verifying their byte order'), key)
        nd = self.ndimval(tok, st)
        ok = nd == len(idx) if nd is not None else self.const(('ndim', tok), st) == len(idx)
        if not (created and nd is None and self.const(('ndim', tok), st) is None):
            self.A.report(self.f, n, 'ndim', ok, '%s is indexed in %d dimension(s) %s' % (src, len(idx), 'as verified' if ok else 'but its number of dimensions was not verified'), key)
        for ax, i in enumerate(idx):
            self.bound(n, tok, ax, i, st, src)
        return ('row', tok, tuple(idx), T)

    def bound(self, n, tok, ax, i, st, src):
        d = ('dim', tok, ('c', ax))
        if tok[0] in CREATED:
            ki = self.const(i, st) if i is not None else None
            kd = self.const(d, st)
            if ki is not None and kd is not None:
                self.A.report(self.f, n, 'bounds', ki < kd, 'index %s of dimension %d of %s is %s' % (ki, ax, src, 'within its length' if ki < kd else 'outside its length'), (tok[0], ax))
            return
        ok = i is not None and self.lessthan(i, d, st)
        self.A.report(self.f, n, 'bounds', ok, 'the index in dimension %d of %s is %s' % (ax, src, 'within its length' if ok else 'not known to be within its length'), (tok[0], ax, self.show(i) if i is not None else '?'))

    def ptraccess(self, n, v, i, st):
        """element i of a pointer into the data of an array"""
        tok = v[1]
        if tok[0] in ('fld', 'var') or self.internal(tok):
            return
        src = self.src(tok)
        ok = self.has(st, 'contig', tok)
        self.A.report(self.f, n, 'layout', ok, 'consecutive elements of %s are accessed through a pointer %s' % (src, 'after it was made contiguous' if ok else 'but it may be not contiguous'), (tok[0],))
        if i is None or i[0] != 'n':
            return
        if v[0] == 'row' and isinstance(v[2], tuple) and v[2] and isinstance(v[2][0], tuple):
            idx = v[2]
            last = self.const(idx[-1], st)
            k = self.const(i[1], st)
            if last is None or k is None:
                return
            d = ('dim', tok, ('c', len(idx) - 1))
            kd = self.const(d, st)
            if tok[0] in CREATED and kd is None:
                return
            ok = self.lessthan(('c', last + k), d, st)
            self.A.report(self.f, n, 'bounds', ok, 'element %d of a row of %s is %s' % (last + k, src, 'within its length' if ok else 'not known to be within its length'), (tok[0], 'row', k))
        elif v[0] == 'data' and tok[0] not in CREATED:
            ok = self.lessthan(i[1], ('size', tok), st)
            if not ok and self.const(('ndim', tok), st) == 1:
                ok = self.lessthan(i[1], ('dim', tok, ('c', 0)), st)
            self.A.report(self.f, n, 'bounds', ok, 'the index into the data of %s is %s' % (src, 'within its size' if ok else 'not known to be within its size'), (tok[0], 'data'))

    def dataaccess(self, n, v, st):
        tok, T = v[1], v[2]
        if tok[0] in ('fld', 'var') or self.internal(tok):
            return
        src = self.src(tok)
        ht = self.hastype(tok, T, st)
        if not (tok[0] in CREATED and ht is None):
            self.A.report(self.f, n, 'type', bool(ht), 'the data of %s are accessed as %s %s' % (src, T, 'which is their type' if ht else 'but their type was not verified' if ht is None else 'but have a different type'), (tok[0],))
        ok = self.has(st, 'contig', tok)
        self.A.report(self.f, n, 'layout', ok, 'the data of %s are accessed through a pointer %s' % (src, 'after it was made contiguous' if ok else 'but may be not contiguous'), (tok[0],))
        ok = self.has(st, 'native', tok)
        self.A.report(self.f, n, 'byteorder', ok, 'the data of %s are accessed %s' % (src, 'in native byte order' if ok else 'without verifying their byte order'), (tok[0],))

    # ---- containers held by members
    def memberreq(self, n, tok, T, nd, st):
        fld = tok[1][2]
        self.A.classreq.setdefault(fld, set()).update({('isarr',), ('native',), ('ndim', nd)})
        # the element type must have been compared with an array of types filled from the same container
        ok = False
        for k in st.d:
            if k[0] == 'f' and k[1][0] == 'eq':
                for a, b in ((k[1][1], k[1][2]), (k[1][2], k[1][1])):
                    if a[0] == 'ld' and a[1][0] == 'E' and a[1][1][0] == 'F' and a[1][2] == tok[-1] and b[0] == 'c' and NPY.get(b[1]) == T and self.typesof(a[1][1][2], fld):
                        ok = True
        if self.hastype(tok, T, st):
            ok = True
        self.A.report(self.f, n, 'type', ok, 'elements of %s are accessed as %s %s' % (self.src(tok), T, 'which is their type' if ok else 'but their type was not verified'), ('member', fld))

    def typesof(self, field, container):
        """is the member filled only with the types of the elements of the other one"""
        cls = field.rsplit('::', 1)[0]
        found = False
        for k, f in self.p.functions.items():
            if f.cls != cls or f.body is None:
                continue
            for n in f.walk():
                if n.k == 'MCall' and n.a[0] and n.c[0] is not None and any(x.k == 'Member' and x.a[0] == 'M' and x.a[1] == field for x in n.c[0].walk()) and '::push_back' in n.a[0]:
                    if any(apiname(x) == 'PyArray_TYPE' and any(y.k == 'Member' and y.a[0] == 'M' and y.a[1] == container for y in x.walk()) for x in n.c[1].walk()):
                        found = True
                    else:
                        return False
        return found

    def ctorreq(self, n, vs, st):
        f = self.p.functions.get(n.a[0])
        if f is None or f.file != PYFILE:
            return
        for kind, name, written, expr in f.inits:
            if expr is None or name not in self.A.classreq:
                continue
            r = strip_casts(expr)
            for i, q in enumerate(f.params):
                if r.k == 'Ref' and r.a[0] == 'L' and r.a[1] == q[0] and i < len(vs) and vs[i] is not None and vs[i][0] == '&':
                    c = vs[i][1]
                    if self.const(('sz', c), st) == 0:
                        continue
                    fs = st.get(('all', c), frozenset())
                    for req in sorted(self.A.classreq[name]):
                        ok = req in fs
                        what = {'isarr': 'array objects', 'native': 'arrays in native byte order', 'ndim': 'arrays with %s dimensions' % (req[1:] or ('?',))[0]}[req[0]]
                        self.A.report(self.f, n, 'elements', ok, 'all elements of the list passed to %s %s verified to be %s' % (f.q, 'were' if ok else 'were not', what), (name, req))


def check_c22(rep):
    p = Program()
    A = Arrays(p, None)
    A.run()                     # finds the requirements of classes that keep lists of arrays
    B = Arrays(p, rep)
    B.classreq = A.classreq
    B.run()
    rep.notes.append('%d functions of the Python interface that use arrays' % B.seen)
    rep.require('object', 60, 'accesses to array objects')
    rep.require('type', 45, 'typed accesses to elements')
    rep.require('ndim', 45, 'multidimensional accesses')
    rep.require('bounds', 30, 'indices')
    return p
