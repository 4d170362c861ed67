"""Nullness and definite-assignment interpretation of evaluation routines (C01, C02).

A state maps
  ('v', id)          abstract value of a local or parameter: 'null', 'nonnull', ('p', root, path), ('b', bool), ('i', n), 'U'
  ('u', root, path)  this cell has not been assigned yet (absent: assigned)
  ('c', text)        an atomic condition known to be true / false
root is ('L', local id), ('P', parameter id or 'this').  Calls are followed with the exact abstract arguments.
"""
from interp import *
from ctxcall import Ctx, rec_class

NUM = {'double', 'float', 'int', 'bool', 'unsigned int', 'long', 'unsigned long', 'short', 'char', 'unsigned char', 'long double', 'std::complex<double>'}


def bare(t):
    return t.s.replace('const ', '').strip() if t is not None else ''


class Cells(object):
    """layout of tracked types"""
    def __init__(self, prog):
        self.p = prog
        self.memo = {}

    def of_class(self, c):
        if c in self.memo:
            return self.memo[c]
        self.memo[c] = None
        k = self.p.classes.get(c)
        if k is None or k.poly or k.union:
            return None
        res = []
        for b in k.bases:
            s = self.of_class(b[0])
            if s is None:
                return None
            res += s
        for f in k.fields:
            t = f[1]
            key = c + '::' + f[0]
            if t.k == 'arr':
                if bare(t.sub) in NUM:
                    res.append((key,))
                    continue
                return None
            if t.k in ('ptr', 'ref', 'rref'):
                return None
            if bare(t) in NUM or bare(t) in self.p.enums:
                res.append((key,))
                continue
            s = self.of_class(t.name) if t.name else None
            if s is None:
                return None
            res += [(key,) + x for x in s]
        if not res or len(res) > 40:
            return None
        self.memo[c] = tuple(res)
        return self.memo[c]

    def of_type(self, t):
        """tuple of paths, or None if values of this type are not tracked"""
        if t is None:
            return None
        if t.k in ('ref', 'rref'):
            t = t.sub
        if t.k == 'arr':
            n = t.len
            if bare(t.sub) in NUM and n and 0 < int(n) <= 64:
                return tuple((('#', i),) for i in range(int(n)))
            return None
        if t.k == 'ptr':
            return None
        if bare(t) in NUM:
            return ((),)
        return self.of_class(t.name) if t.name else None

    def userctor(self, key):
        f = self.p.functions.get(key)
        return f if f is not None and 'd' not in f.fl else None


def shift(path, k):
    if k is None:
        return path + ('*',) if not path or path[-1] != '*' else path
    if path and isinstance(path[-1], tuple) and path[-1][0] == '#':
        return path[:-1] + (('#', path[-1][1] + k),)
    return path if k == 0 else path + (('#', k),)


class Engine(object):
    """interprocedural driver: memoised summaries per (function, abstract arguments)"""
    def __init__(self, prog):
        self.p = prog
        self.cells = Cells(prog)
        self.cx = Ctx(prog)
        prog.method_info()
        self.memo = {}
        self.active = []
        self.stack = []
        self.fed = set()         # outputs for which some caller passes an unassigned variable
        self.fedby = set()       # ... or an unassigned output of its own
        self.problems = {}      # (rule, function key, line, text) -> trace
        self.deref = 0          # dereferences of optional outputs examined
        self.nfun = set()
        self.readsum = {}        # summary -> parameters read before they are assigned
        self.optional()

    # ---- which pointer parameters may be null
    def optional(self):
        p = self.p
        opt = {}
        fwd = []
        fam = {}
        for k, m in p.methods.items():
            pass
        for f in p.functions.values():
            for i, q in enumerate(f.params):
                if q[3] and q[2].k == 'ptr':
                    opt.setdefault(f.key, set()).add(i)
            ids = {q[0]: i for i, q in enumerate(f.params) if q[2].k == 'ptr'}
            for n in f.walk():
                if n.k in CALLS and n.a[0]:
                    a = call_args(n)
                    if n.k == 'OpCall' and n.a[0] in p.methods:
                        a = a[1:]
                    for i, e in enumerate(a):
                        if e is None or e.t is None or e.t.k != 'ptr':
                            continue
                        self.argnull(f, ids, n.a[0], i, e, opt, fwd)
        ch = True
        over = p.method_info()
        rev = {}
        for k, ov in over.items():
            for b in (ov or ()):
                rev.setdefault(b, set()).add(k)
        while ch:
            ch = False
            for src, si, dst, di in fwd:
                if si in opt.get(src, ()) and di not in opt.get(dst, ()):
                    opt.setdefault(dst, set()).add(di)
                    ch = True
            for k in list(opt):
                for o in list(over.get(k, ()) or ()) + list(rev.get(k, ())):
                    if not opt[k] <= opt.get(o, set()):
                        opt.setdefault(o, set()).update(opt[k])
                        ch = True
        self.opt = opt

    def argnull(self, f, ids, key, i, e, opt, fwd):
        s = strip_casts(e)
        if s is None:
            return
        if s.k == 'DefArg' and s.c:
            return self.argnull(f, ids, key, i, s.c[0], opt, fwd)
        if s.k in ('Null', 'GNU') or s.k == 'Int' and s.a == '0':
            opt.setdefault(key, set()).add(i)
        elif s.k == 'Cond' and nonempty(s) is not None:
            pass
        elif s.k == 'Cond':
            self.argnull(f, ids, key, i, s.c[1], opt, fwd)
            self.argnull(f, ids, key, i, s.c[2], opt, fwd)
        elif s.k == 'Ref' and s.a[0] == 'L' and s.a[1] in ids:
            fwd.append((f.key, ids[s.a[1]], key, i))

    def virtual(self, key):
        m = self.p.methods.get(key)
        return bool(m and 'V' in m[2])

    def contract(self, key, virt):
        return virt and bool(self.opt.get(key))

    def problem(self, rule, f, n, text, trace=()):
        k = (rule, f.key, n.line if n is not None else f.line, text)
        self.problems.setdefault(k, trace)

    # ---- summaries
    def summary(self, key, args, this=None):
        """args: tuple of abstract arguments ('null', 'nonnull', ('p', frozenset of unset paths), ('b',x), ('i',n), 'U', None);
        returns list of (return value, tuple of remaining unset path sets per parameter)"""
        mk = (key, args, this)
        if mk in self.memo:
            return self.memo[mk]
        if mk in self.active or len(self.active) > 40 or any(a[0] == key for a in self.active):
            return None
        self.active.append(mk)
        f = self.p.functions[key]
        self.nfun.add(key)
        I = FillInterp(self, f, args, this)
        self.stack.append(I)
        I.run(I.initial())
        res = I.outcomes()
        self.active.pop()
        self.stack.pop()
        self.memo[mk] = res
        self.readsum[mk] = {i for i, q in enumerate(f.params) if q[0] in I.reads}
        return res


def nonempty(n):
    # "v.empty() ? NULL : &v[0]" (in any form): null only if there are no elements
    def null(e):
        e = strip_casts(e)
        return e is not None and (e.k in ('Null', 'GNU') or e.k == 'Int' and str(e.a) == '0')

    def first(e):
        e = strip_casts(e)
        if e is None:
            return False
        if e.k == 'MCall':
            return qual(e.a[0] or '').startswith('std::') and qual(e.a[0]).endswith('::data')
        if e.k == 'Un' and e.a == '&':
            e = strip_casts(e.c[0])
            return e.k in ('OpCall', 'MCall') and qual(e.a[0] or '').startswith('std::') and qual(e.a[0]).rsplit('::', 1)[-1] in ('operator[]', 'front', 'at')
        return False
    if n.t is None or n.t.k != 'ptr':
        return None
    return n.c[2] if null(n.c[1]) and first(n.c[2]) else n.c[1] if null(n.c[2]) and first(n.c[1]) else None


class FillInterp(Interp):
    K = 60
    LOOPS = 8

    def __init__(self, eng, f, args, this):
        Interp.__init__(self, eng.p, f)
        self.e = eng
        self.args = args
        self.this = this
        self.reads = set()
        self.callline = None
        self.prescan()

    # ---- preparation
    def prescan(self):
        """locals whose elements are addressed by varying indices are not tracked; conditions which recur are remembered"""
        f = self.f
        self.loose = set()
        conds = {}
        for n in f.walk():
            if n.k == 'Idx':
                b, i = strip_casts(n.c[0]), strip_casts(n.c[1])
                if b is not None and b.k == 'Ref' and b.a[0] == 'L' and (i is None or i.k != 'Int'):
                    self.loose.add(b.a[1])
                elif b is not None and b.k == 'Member' and (i is None or i.k != 'Int'):
                    pass
            elif n.k == 'Un' and n.a in ('++', '--', 'p++', 'p--'):
                b = strip_casts(n.c[0])
                if b is not None and b.k == 'Ref' and b.a[0] == 'L' and b.t is not None and b.t.k == 'ptr':
                    self.loose.add(b.a[1])
            elif n.k == 'Var' and n.t is not None and n.t.k in ('ptr',) and n.c and n.c[0] is not None:
                pass
            elif n.k in ('Bin', 'AssignOp') and n.t is not None and n.t.k == 'ptr' and n.a in ('+', '-', '+=', '-='):
                b, i = strip_casts(n.c[0]), strip_casts(n.c[1])
                if b is not None and b.k == 'Ref' and b.a[0] == 'L' and (i is None or i.k != 'Int'):
                    self.loose.add(b.a[1])
            if n.k == 'Bin' and n.a in ('==', '!=', '<', '>', '<=', '>='):
                t = self.ctext(n)
                if t:
                    conds[t[0]] = conds.get(t[0], 0) + 1
            elif n.k in ('Call', 'MCall') and n.t is not None and bare(n.t) == 'bool' or n.k == 'Ref' and n.a[0] == 'L' and n.t is not None and bare(n.t) == 'bool' or n.k == 'Member' and n.a[0] == 'M' and n.t is not None and bare(n.t) == 'bool':
                t = self.ctext(n)
                if t:
                    conds[t[0]] = conds.get(t[0], 0) + 1
        self.recurring = {t for t, c in conds.items() if c > 1}
        # numbers of elements of output arrays: parameter q in "for(i=0; i<q; i++) a[i] = ..."
        self.count = {}
        par = {q[0]: q[2] for q in f.params}
        for n in f.walk():
            if n.k == 'For' and n.c[1] is not None and n.c[3] is not None:
                qs = {x.a[1] for x in n.c[1].walk() if x.k == 'Ref' and x.a[0] == 'L' and x.a[1] in par and par[x.a[1]].k in ('int', 'uint')}
                if qs:
                    for x in n.c[3].walk():
                        if x.k == 'Idx':
                            b = strip_casts(x.c[0])
                            if b is not None and b.k == 'Ref' and b.a[0] == 'L' and b.a[1] in par:
                                for q in qs:
                                    self.count.setdefault(q, set()).add(b.a[1])

    PURE = ('isFinite', 'isSpherical', 'isZRotSymmetric', 'isAxisymmetric', 'isTriaxial', 'isXReflSymmetric', 'isYReflSymmetric', 'isZReflSymmetric', 'isReflSymmetric', 'isBisymmetric', 'abs', 'fabs', 'size', 'empty', 'symmetry', 'fmax', 'fmin', 'signum')

    def text(self, n):
        """canonical text of a pure expression, or None"""
        n = strip_casts(n)
        if n is None:
            return None
        if n.k == 'Ref':
            if n.a[0] == 'L':
                return 'L%d' % n.a[1]
            return '%s:%s' % (n.a[0], n.a[1])
        if n.k == 'Member':
            b = self.text(n.c[0]) if n.c and n.c[0] is not None else 'this'
            return b and '%s.%s' % (b, n.a[1])
        if n.k == 'This':
            return 'this'
        if n.k in ('Int', 'Float', 'Bool', 'Char'):
            try:
                return '#%g' % float(n.a)
            except (TypeError, ValueError):
                return '#%s' % (n.a,)
        if n.k in ('Un', 'Bin') and n.a not in ('++', '--', 'p++', 'p--', '&'):
            l = [self.text(c) for c in n.c]
            if None in l:
                return None
            return '(%s %s)' % (n.a, ' '.join(l))
        if n.k in ('Call', 'MCall', 'OpCall') and n.a[0]:
            nm = qual(n.a[0]).split('::')[-1]
            nm = nm.split('<')[0]
            if nm in self.PURE or n.a[0].startswith('__builtin') or nm == 'operator[]' or nm == 'operator->' or nm == 'operator*':
                l = [self.text(c) for c in n.c if c is not None]
                if None in l:
                    return None
                return '%s(%s)' % (nm, ' '.join(l))
        if n.k == 'Null':
            return 'null'
        return None

    def ctext(self, n):
        """(canonical condition text, polarity)"""
        n = strip_casts(n)
        if n is None:
            return None
        if n.k == 'Bin' and n.a in ('==', '!=', '<', '>', '<=', '>='):
            a, b = self.text(n.c[0]), self.text(n.c[1])
            if a is None or b is None:
                return None
            op = n.a
            if op in ('==', '!='):
                a, b = sorted((a, b))
                return ('%s==%s' % (a, b), op == '==')
            if op == '>':
                a, b, op = b, a, '<'
            elif op == '>=':
                a, b, op = b, a, '<='
            return ('%s%s%s' % (a, op, b), True)
        t = self.text(n)
        return (t, True) if t else None

    def initial(self):
        st = {}
        for (i, nm, t, d), a in zip(self.f.params, self.args):
            if t.k in ('ptr', 'ref', 'rref'):
                if isinstance(a, tuple) and a[0] == 'p':
                    st[('v', i)] = ('p', ('P', i), ())
                    for path in a[1]:
                        st[('u', ('P', i), path)] = 1
                elif a in ('null', 'nonnull'):
                    st[('v', i)] = a
                elif t.k != 'ptr' and isinstance(a, tuple) and a[0] in ('b', 'i'):
                    st[('v', i)] = a
            elif isinstance(a, tuple) and a[0] == 'r':
                for path in a[1]:
                    st[('u', ('L', i), path)] = 1
            elif a == 'U':
                st[('u', ('L', i), ())] = 1
            elif a is not None:
                st[('v', i)] = a
        if self.this is not None:
            for path in self.this:
                st[('u', ('P', 'this'), path)] = 1
        return S(st)

    def outcomes(self):
        res = []
        seen = set()
        for kind, node, st, val in self.exits:
            if kind == 'throw':
                continue
            rem = []
            un = {}
            for k in st.d:
                if k[0] == 'u' and k[1][0] == 'P':
                    un.setdefault(k[1][1], set()).add(k[2])
            for i, nm, t, d in self.f.params:
                rem.append(frozenset(un.get(i, ())))
            o = (val if val is None or isinstance(val, str) or val[0] in ('b', 'i', 'r') else None, tuple(rem), frozenset(un.get('this', ())) if self.this is not None else None)
            if o not in seen:
                seen.add(o)
                res.append(o)
        if len(res) > 12:
            # too many: join
            rem = [frozenset().union(*[o[1][j] for o in res]) for j in range(len(self.f.params))]
            th = frozenset().union(*[o[2] for o in res]) if self.this is not None else None
            res = [(None, tuple(rem), th)]
        return res

    # ---- state joins
    def pkey(self, st):
        return frozenset((k, v) for k, v in st.d.items() if k[0] != 'c')

    def joinval(self, k, a, b):
        if k[0] == 'u':
            return 1
        return None

    # ---- cells
    def under(self, st, root, path):
        """unset cells at or below a location"""
        n = len(path)
        return [k for k in st.d if k[0] == 'u' and k[1] == root and (k[2][:n] == path or path[:len(k[2])] == k[2])]

    def fill(self, st, root, path):
        ks = self.under(st, root, path)
        if '*' in path:
            # some element of an array: all elements are taken to be assigned likewise
            k = path.index('*')
            ks = ks + self.under(st, root, path[:k] + path[k + 1:])
            if k and isinstance(path[k - 1], tuple) and path[k - 1][0] == '#':
                ks = ks + self.under(st, root, path[:k - 1] + path[k + 1:])
        return st.drop(*ks) if ks else st

    def rel(self, st, root, path):
        """unset paths relative to a location"""
        n = len(path)
        r = set()
        for k in st.d:
            if k[0] == 'u' and k[1] == root:
                if k[2][:n] == path:
                    r.add(k[2][n:])
                elif path and isinstance(path[-1], tuple) and path[-1][0] == '#' and k[2][:n - 1] == path[:-1] and len(k[2]) >= n and isinstance(k[2][n - 1], tuple) and k[2][n - 1][0] == '#':
                    d = k[2][n - 1][1] - path[-1][1]
                    r.add((('#', d),) + k[2][n:] if d else k[2][n:])
        return frozenset(r)

    def unset(self, st, root, path, rels):
        for r in rels:
            p = path
            r = tuple(r)
            if r and isinstance(r[0], tuple) and r[0][0] == '#':
                p = shift(path, r[0][1])
                r = r[1:]
            st = st.set(('u', root, p + r), 1)
        return st

    # ---- lvalues
    def loc(self, n, st):
        """[(state, location)]; a location is (root, path), 'null', or None"""
        k = n.k
        if k == 'Ref':
            if n.a[0] != 'L':
                return [(st, None)]
            i = n.a[1]
            v = st.get(('v', i))
            if n.a[3] if len(n.a) > 3 else False:
                pass
            t = self.ltype.get(i) if hasattr(self, 'ltype') else None
            if self.isref(n, i):
                return [(st, (v[1], v[2]) if isinstance(v, tuple) and v[0] == 'p' else None)]
            return [(st, (('L', i), ()))]
        if k == 'Member' and n.a[0] == 'M':
            b = n.c[0] if n.c else None
            if b is None or strip_casts(b) is not None and strip_casts(b).k == 'This':
                return [(st, (('P', 'this'), (n.a[1],)) if self.this is not None else None)]
            res = []
            if n.a[2]:
                for s, v in self.ev(b, st):
                    l = self.target(n, s, v)
                    res.append((s, (l[0], l[1] + (n.a[1],)) if l else None))
            else:
                for s, l in self.loc(b, st):
                    res.append((s, (l[0], l[1] + (n.a[1],)) if l else None))
            return res
        if k in ('Member', 'This'):
            return [(st, (('P', 'this'), ()) if k == 'This' and self.this is not None else None)]
        if k == 'Un' and n.a == '*':
            return [(s, self.target(n, s, v)) for s, v in self.ev(n.c[0], st)]
        if k == 'Idx':
            res = []
            for s, v in self.ev(n.c[0], st):
                for s2, iv in self.ev(n.c[1], s):
                    l = self.target(n, s2, v)
                    if l:
                        l = (l[0], shift(l[1], iv[1] if isinstance(iv, tuple) and iv[0] == 'i' else None))
                    res.append((s2, l))
            return res
        if k == 'Cast':
            if n.a[0] in ('LValueToRValue',):
                return [(s, None) for s, v in self.ev(n, st)]
            return self.loc(n.c[0], st)
        if k in ('Assign', 'AssignOp') or k == 'Un' and n.a in ('++', '--'):
            res = []
            for s, v in self.ev(n, st):
                res += self.loc(n.c[0], s)
            return res
        if k == 'Cond':
            t, f = self.branch(n.c[0], st)
            res = []
            for ss, e in ((t, n.c[1]), (f, n.c[2])):
                for s in ss:
                    res += self.loc(e, s)
            return res
        if k == 'Bin' and n.a == ',':
            res = []
            for s, v in self.ev(n.c[0], st):
                res += self.loc(n.c[1], s)
            return res
        res = []
        for s, v in self.ev(n, st):
            if isinstance(v, tuple) and v[0] == 'p':
                res.append((s, (v[1], v[2])))
            elif isinstance(v, tuple) and v[0] == 'r':
                # a temporary record bound to a reference
                root = ('L', -1 - n.line)
                s = s.dropif(lambda k: k[0] == 'u' and k[1] == root)
                res.append((self.unset(s, root, (), v[1]), (root, ())))
            else:
                res.append((s, None))
        return res

    def condpick(self, n):
        return nonempty(n)

    def isref(self, n, i):
        if not hasattr(self, '_refs'):
            self._refs = {}
            for q in self.f.params:
                self._refs[q[0]] = q[2].k in ('ref', 'rref')
            for x in self.f.walk():
                if x.k == 'Var' and x.t is not None:
                    self._refs[x.a[0]] = x.t.k in ('ref', 'rref')
        return self._refs.get(i, False)

    def target(self, n, st, v):
        """location a pointer value points to; reports the dereference of a null pointer"""
        if isinstance(v, tuple) and v[0] == 'p':
            if v[1][0] == 'P':
                self.e.deref += 1
            return (v[1], v[2])
        if v == 'null':
            self.e.problem('null', self.f, n, 'a null pointer is dereferenced', self.trace())
        return None

    def trace(self):
        return ['call chain: ' + ' -> '.join('%s(%s):%s' % (qual(a[0]), ', '.join(show(x) for x in a[1]), I.callline or '') for a, I in zip(self.e.active, self.e.stack))]

    # ---- expressions
    def x_Ref(self, n, st):
        if n.a[0] == 'L':
            i = n.a[1]
            v = st.get(('v', i))
            if self.isref(n, i):
                return [(st, v)]
            return [(st, ('p', ('L', i), ()))]       # lvalue; the value is taken by LValueToRValue
        return [(st, None)]

    def x_Member(self, n, st):
        return [(s, ('p', l[0], l[1]) if l else None) for s, l in self.loc(n, st)]

    x_Idx = x_Member

    def x_This(self, n, st):
        return [(st, ('p', ('P', 'this'), ()) if self.this is not None else 'nonnull')]

    def x_Null(self, n, st):
        return [(st, 'null')]

    def x_Int(self, n, st):
        try:
            return [(st, ('i', int(n.a)))]
        except (TypeError, ValueError):
            return [(st, None)]

    def x_DefArg(self, n, st):
        return self.ev(n.c[0], st) if n.c else [(st, None)]

    def x_Cast(self, n, st):
        ck = n.a[0]
        if ck == 'NullToPointer':
            return [(st, 'null')]
        if ck == 'LValueToRValue':
            res = []
            for s, l in self.loc(n.c[0], st):
                res.append((s, self.read(n, s, l)))
            return res
        if ck == 'ArrayToPointerDecay':
            res = []
            for s, l in self.loc(n.c[0], st):
                if l and l[0][0] == 'L' and not l[1]:
                    res.append((s, ('p', l[0], (('#', 0),))))
                else:
                    res.append((s, ('p', l[0], l[1]) if l else 'nonnull'))
            return res
        if ck in ('PointerToBoolean',):
            t, f = self.branch(n, st)
            return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]
        r = self.ev(n.c[0], st) if n.c and n.c[0] is not None else [(st, None)]
        if ck in ('IntegralCast', 'NoOp', 'BitCast', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion', 'UserDefinedConversion', 'IntegralToFloating', 'FloatingCast', 'IntegralToBoolean', 'FloatingToIntegral', 'ToVoid', 'Dependent', 'Dynamic'):
            if ck == 'IntegralToBoolean':
                return [(s, ('b', v[1] != 0) if isinstance(v, tuple) and v[0] == 'i' else v if v == 'U' or isinstance(v, tuple) and v[0] == 'b' else None) for s, v in r]
            if ck == 'Dynamic':
                return [(s, None) for s, v in r]
            if ck == 'IntegralToFloating' or ck == 'FloatingToIntegral':
                return [(s, v if v == 'U' else None) for s, v in r]
            return r
        return [(s, v if v == 'U' else None) for s, v in r]

    def read(self, n, st, l):
        """value stored at a location"""
        if l is None:
            return None
        root, path = l
        if n.t is not None and n.t.k not in ('ptr', 'ref', 'rref') and self.e.cells.of_type(n.t) not in (None, ((),)):
            r = self.rel(st, root, path)
            return ('r', r) if r else None
        if ('u', root, path) in st.d:
            if root[0] == 'P':
                self.noteread(root[1])
            return 'U'
        if path and path[-1] == '*' and root[0] == 'P' and self.under(st, root, path[:-1]):
            self.noteread(root[1])
        for k in range(len(path)):
            if ('u', root, path[:k]) in st.d and path[k:] and path[k] != '*' and not (isinstance(path[k], tuple)):
                return 'U'
        if root[0] == 'L' and not path:
            return st.get(('v', root[1]))
        return None

    def x_Un(self, n, st):
        op = n.a
        if op == '&':
            res = []
            for s, l in self.loc(n.c[0], st):
                res.append((s, ('p', l[0], l[1]) if l else 'nonnull'))
            return res
        if op == '*':
            return self.x_Member(n, st)
        if op in ('++', '--', 'p++', 'p--'):
            res = []
            for s, l in self.loc(n.c[0], st):
                v = self.readval(n.c[0], s, l)
                res.append((self.store(n, s, l, self.plus(v, 1 if '+' in op else -1, n.c[0])), v))
            return res
        res = []
        for s, v in self.ev(n.c[0], st):
            if op == '-' and isinstance(v, tuple) and v[0] == 'i':
                v = ('i', -v[1])
            elif op == '+':
                pass
            else:
                v = 'U' if v == 'U' else None
            res.append((s, v))
        return res

    def plus(self, v, d, e):
        if isinstance(v, tuple) and v[0] == 'i':
            # counters are only followed up to 1, so that loops with constant bounds are entered at least once
            return ('i', v[1] + d) if abs(v[1] + d) < 1 else None
        if isinstance(v, tuple) and v[0] == 'p':
            return ('p', v[1], shift(v[2], None))
        return 'U' if v == 'U' else None

    def noteread(self, i):
        self.reads.add(i)

    def readval(self, e, st, l):
        class T(object):
            pass
        x = Node()
        x.k, x.t, x.line = 'Cast', e.t.sub if e.t is not None and e.t.k in ('ref', 'rref') else e.t, e.line
        return self.read(x, st, l)

    def x_Bin(self, n, st):
        res = []
        for s, a in self.ev(n.c[0], st):
            for s2, b in self.ev(n.c[1], s):
                res.append((s2, self.binop(n, s2, a, b)))
        return self.mergev(res)

    def binop(self, n, st, a, b):
        op = n.a
        if op == ',':
            return b
        if op in ('==', '!=') and isinstance(a, (str, tuple)) and isinstance(b, (str, tuple)):
            an = a == 'null'
            bn = b == 'null'
            ap = a == 'nonnull' or isinstance(a, tuple) and a[0] == 'p'
            bp = b == 'nonnull' or isinstance(b, tuple) and b[0] == 'p'
            if an and bn:
                return ('b', op == '==')
            if an and bp or ap and bn:
                return ('b', op == '!=')
        ai = isinstance(a, tuple) and a[0] in 'ib'
        bi = isinstance(b, tuple) and b[0] in 'ib'
        if ai and bi:
            x, y = int(a[1]), int(b[1])
            if op in ('<', '>', '<=', '>=', '==', '!='):
                return ('b', {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op])
            if op in ('+', '-', '*', '&', '|', '^'):
                return ('i', {'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y}[op])
        if n.t is not None and n.t.k == 'ptr' and op in ('+', '-'):
            if isinstance(a, tuple) and a[0] == 'p':
                return ('p', a[1], shift(a[2], b[1] if isinstance(b, tuple) and b[0] == 'i' and op == '+' else None))
            if isinstance(b, tuple) and b[0] == 'p':
                return ('p', b[1], shift(b[2], a[1] if isinstance(a, tuple) and a[0] == 'i' else None))
            return a if a in ('null', 'nonnull') else None
        if op == '*' and (self.zero(n.c[0]) or self.zero(n.c[1])):
            return None
        if a == 'U' or b == 'U':
            return 'U'
        return None

    def zero(self, e):
        e = strip_casts(e)
        return e is not None and e.k in ('Int', 'Float') and str(e.a) in ('0', '0.0')

    def x_Assign(self, n, st):
        res = []
        for s, v in self.ev(n.c[1], st):
            v = self.rvalue(n.c[1], s, v)
            for s2, l in self.loc(n.c[0], s):
                res.append((self.store(n, s2, l, v), ('p', l[0], l[1]) if l else None))
        return self.mergev(res)

    def x_AssignOp(self, n, st):
        res = []
        for s, v in self.ev(n.c[1], st):
            for s2, l in self.loc(n.c[0], s):
                old = self.readval(n.c[0], s2, l)
                op = n.a[:-1]
                m = Node()
                m.k, m.a, m.c, m.t, m.line = 'Bin', op, n.c, n.t, n.line
                new = self.binop(m, s2, old, v)
                if isinstance(new, tuple) and new[0] == 'i' and abs(new[1]) > 64:
                    new = None
                if op == '+' and isinstance(new, tuple) and new[0] == 'i':
                    new = None
                res.append((self.store(n, s2, l, new), ('p', l[0], l[1]) if l else None))
        return self.mergev(res)

    def rvalue(self, e, st, v):
        """record-typed glvalue used as a value"""
        if isinstance(v, tuple) and v[0] == 'p' and e.t is not None and e.t.k != 'ptr':
            return self.readval(e, st, (v[1], v[2]))
        return v

    def escape(self, st, v):
        """a pointer stored where it is not followed: what it points to may be assigned through the copy"""
        if isinstance(v, tuple) and v[0] == 'p':
            st = self.fill(st, v[1], v[2])
            if v[2] and isinstance(v[2][-1], tuple) and v[2][-1][0] == '#':
                st = self.fill(st, v[1], v[2][:-1])
        return st

    def store(self, n, st, l, v):
        if l is None or not (l[0][0] == 'L' and not l[1]):
            st = self.escape(st, v)
        if l is None:
            return st
        root, path = l
        if isinstance(v, tuple) and v[0] == 'r':
            st = self.fill(st, root, path)
            if root[0] == 'L' or root[0] == 'P':
                st = self.unset(st, root, path, v[1])
            return st
        st = self.fill(st, root, path)
        if v == 'U' and (not path or path[-1] != '*'):
            st = st.set(('u', root, path), 1)
            if root[0] == 'P' and False:
                pass
        if root[0] == 'L' and not path:
            if v is None or v == 'U':
                st = st.drop(('v', root[1]))
            else:
                st = st.set(('v', root[1]), v)
            st = self.forget(st, root[1])
        elif root[0] == 'L':
            st = self.forget(st, root[1])
        return st

    def forget(self, st, i):
        pat = re.compile(r'L%d\b' % i)
        ks = [k for k in st.d if k[0] == 'c' and pat.search(k[1])]
        return st.drop(*ks) if ks else st

    # ---- declarations
    def vardecl(self, v, st):
        i = v.a[0]
        t = v.t
        e = v.c[0] if v.c else None
        st = st.dropif(lambda k: k[0] == 'u' and k[1] == ('L', i) or k == ('v', i))
        st = self.forget(st, i)
        if t is None:
            return [s for s, x in self.ev(e, st)] if e is not None else [st]
        if t.k in ('ref', 'rref') and e is not None:
            res = []
            for s, l in self.loc(e, st):
                res.append(s.set(('v', i), ('p', l[0], l[1])) if l else s)
            return res
        cl = self.e.cells.of_type(t)
        if e is None:
            if cl is not None and i not in self.loose and 'static' not in str(v.a[2:]):
                for c in cl:
                    st = st.set(('u', ('L', i), c), 1)
            return [st]
        res = []
        for s, x in self.ev(e, st):
            x = self.rvalue(e, s, x)
            res.append(self.store(v, s, (('L', i), ()), x) if x is not None else s)
        return self.merge(res)

    def bind(self, v, st, val):
        if v.a and v.a[0]:
            st = st.dropif(lambda k: k[0] == 'u' and k[1] == ('L', v.a[0]) or k == ('v', v.a[0]))
            st = self.forget(st, v.a[0])
        return st

    def leave(self, decls, st, n):
        ids = {v.a[0] for v in decls if v is not None and v.a}
        return st.dropif(lambda k: k[0] == 'u' and k[1][0] == 'L' and k[1][1] in ids or k[0] == 'v' and k[1] in ids)

    def s_Return(self, n, sts):
        for st in sts:
            if n.c and n.c[0] is not None:
                for s, v in self.full(n.c[0], st):
                    if not (self.f.ret is not None and self.f.ret.k in ('ref', 'rref', 'ptr')):
                        v = self.rvalue(n.c[0], s, v)
                    self.exits.append(('return', n, s, v))
            else:
                self.exits.append(('return', n, st, None))
        return []

    def ctorinit(self, kind, name, expr, st):
        if expr is None:
            return [st]
        res = []
        for s, v in self.ev(expr, st):
            if kind == 'M' and isinstance(v, tuple) and v[0] == 'p':
                # a reference or pointer kept in a member
                for fd in self.e.p.classes[self.f.cls].fields if self.f.cls in self.e.p.classes else ():
                    if fd[1].k in ('ref', 'rref', 'ptr') and name.endswith('::' + fd[0]):
                        s = self.escape(s, v)
            v = self.rvalue(expr, s, v)
            if self.this is not None and kind == 'M':
                s = self.store(expr, s, (('P', 'this'), (name,)), v)
            elif self.this is not None and kind in 'BD':
                un = v[1] if isinstance(v, tuple) and v[0] == 'r' else ()
                cl = self.e.cells.of_class(name if kind == 'B' else self.f.cls) or ()
                for c in cl:
                    if c not in un:
                        s = self.fill(s, ('P', 'this'), c)
            res.append(s)
        return self.merge(res)

    # ---- conditions
    def branch(self, n, st):
        if n is not None and n.k == 'Cast' and n.a[0] in ('PointerToBoolean', 'IntegralToBoolean') and n.c:
            T, F = [], []
            for s, v in self.ev(n.c[0], st):
                if v == 'null' or v == ('i', 0) or v == FALSE:
                    F.append(s)
                elif v == 'nonnull' or isinstance(v, tuple) and (v[0] == 'p' or v[0] == 'i' or v == TRUE):
                    T.append(s)
                else:
                    T += self.assume(n.c[0], v, s, True)
                    F += self.assume(n.c[0], v, s, False)
            return self.merge(T), self.merge(F)
        return Interp.branch(self, n, st)

    def assume(self, n, v, st, truth):
        if v == 'U':
            self.e.problem('undef', self.f, n, 'a condition depends on a variable that has not been assigned', self.trace())
        x = strip_casts(n)
        if any(y.k == 'Cast' and y.a[0] == 'Dynamic' for y in n.walk()):
            return [st]
        if x is not None and x.k == 'Ref' and x.a[0] == 'L':
            if x.t is not None and bare(x.t) == 'bool' and not self.isref(x, x.a[1]):
                st = st.set(('v', x.a[1]), ('b', truth))
                return [st]
            if x.t is not None and x.t.k == 'ptr':
                return [st.set(('v', x.a[1]), 'nonnull' if truth else 'null')]
        if self.count:
            for a in self.count.get(self.iszero(x, truth), ()):
                # the array has no elements
                st = st.dropif(lambda k: k[0] == 'u' and k[1] == ('P', a))
        t = self.ctext(n)
        if t and t[0] in self.recurring:
            val = truth if t[1] else not truth
            old = st.get(('c', t[0]))
            if old is not None:
                return [st] if old == (val,) else []
            # consequences of strict inequalities
            if '<' in t[0] and '<=' not in t[0] and val:
                a, b = t[0].split('<', 1)
                for o in ('%s==%s' % tuple(sorted((a, b))), '%s<%s' % (b, a)):
                    if st.get(('c', o)) == (True,):
                        return []
            if '==' in t[0] and val:
                a, b = t[0].split('==', 1)
                if st.get(('c', '%s<%s' % (a, b))) == (True,) or st.get(('c', '%s<%s' % (b, a))) == (True,):
                    return []
            st = st.set(('c', t[0]), (val,))
        return [st]

    def iszero(self, x, truth):
        """the local which is known to be zero when this condition is true / false"""
        if x is None:
            return None
        if x.k == 'Ref' and x.a[0] == 'L' and not truth:
            return x.a[1]
        if x.k == 'Bin' and x.a in ('==', '!=', '<', '>', '<=', '>='):
            a, b, op = strip_casts(x.c[0]), strip_casts(x.c[1]), x.a
            if a is not None and a.k == 'Int':
                a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if a is not None and b is not None and b.k == 'Int' and a.k == 'Ref' and a.a[0] == 'L':
                n = int(b.a)
                if (op, n, truth) in (('==', 0, True), ('!=', 0, False), ('<', 1, True), ('<=', 0, True), ('>', 0, False), ('>=', 1, False)):
                    return a.a[1]
        return None

    def assume_case(self, cond, v, case, items, st):
        if isinstance(v, tuple) and v[0] == 'i':
            if case is not None and case.k == 'Case':
                return [st] if case.a is not None and int(case.a) == v[1] else []
            if any(c.k == 'Case' and c.a is not None and int(c.a) == v[1] for c in items if c.k == 'Case'):
                return []
        if case is None:
            # no case matched: impossible when all values of an enumeration are listed
            x = strip_casts(cond)
            t = x.t if x is not None else None
            en = self.p.enums.get(bare(t)) if t is not None else None
            if en:
                have = {int(c.a) for c in items if c.k == 'Case' and c.a is not None}
                try:
                    vals = {int(e[1]) for e in en} if isinstance(en, (list, tuple)) else {int(e) for e in en.values()}
                    if vals <= have:
                        return []
                except (TypeError, ValueError, IndexError):
                    pass
        return [st]

    def omp_region(self, n, sts):
        return Interp.omp_region(self, n, sts)

    # ---- calls
    def lval_args(self, n, args, f):
        pass

    def evargs(self, args, types, st):
        """evaluates arguments; reference parameters get locations"""
        cur = [(st, ())]
        for j, a in enumerate(args):
            t = types[j] if j < len(types) else None
            nxt = []
            for s, vs in cur:
                if a is None:
                    nxt.append((s, vs + (None,)))
                elif t is not None and t.k in ('ref', 'rref') or t is None and a.t is not None and a.t.k == 'ref':
                    for s2, l in self.loc(a, s):
                        nxt.append((s2, vs + ((('p', l[0], l[1]) if l else None),)))
                else:
                    for s2, v in self.ev(a, s):
                        nxt.append((s2, vs + (self.rvalue(a, s2, v),)))
            cur = self.mergev(nxt)
        return cur

    def abstract(self, st, v, t, byref):
        """caller's value -> callee's abstract argument"""
        if isinstance(v, tuple) and v[0] == 'p':
            if byref or t is not None and t.k == 'ptr':
                r = self.rel(st, v[1], v[2])
                if byref and not r:
                    x = st.get(('v', v[1][1])) if v[1][0] == 'L' and not v[2] else None
                    if isinstance(x, tuple) and x[0] in ('b',):
                        return None
                return ('p', r)
            return None
        return v

    def x_Call(self, n, st):
        key = n.a[0]
        args = call_args(n)
        obj = None
        if n.k == 'MCall':
            obj = n.c[0]
        elif n.k == 'OpCall' and key in self.p.methods:
            obj = n.c[0]
            args = n.c[1:]
        elif n.k == 'OpCall':
            args = n.c
        f = self.p.functions.get(key)
        types = [q[2] for q in f.params] if f is not None else []
        # assignment of records
        if n.k == 'OpCall' and qual(key or '').endswith('::operator=') and f is None and len(n.c) == 2 and self.e.cells.of_type(n.c[0].t) is not None:
            return self.x_Assign(n, st)
        res = []
        for s, ol in (self.loc(obj, st) if obj is not None and obj.t is not None and obj.t.k != 'ptr' else [(s, self.target(n, s, v) if v == 'null' or isinstance(v, tuple) and v[0] == 'p' else None) for s, v in self.ev(obj, st)] if obj is not None else [(st, None)]):
            if n.k == 'Call' and n.c and n.c[0] is not None and not key:
                s = self.ev(n.c[0], s)[0][0] if self.ev(n.c[0], s) else s
            for s2, vals in self.evargs(args, types if f is not None else self.decltypes(key, args), s):
                res += self.invoke(n, s2, key, f, args, vals, ol)
        return self.mergev(res)

    x_MCall = x_Call
    x_OpCall = x_Call

    def decltypes(self, key, args):
        return [None] * len(args)

    def invoke(self, n, st, key, f, args, vals, ol):
        nm = qual(key).split('::')[-1] if key else ''
        virt = bool(n.a[1])
        self.callline = n.line
        for j, v in enumerate(vals):
            if key and isinstance(v, tuple) and v[0] == 'p' and self.rel(st, v[1], v[2]):
                if v[1][0] == 'L':
                    self.e.fed.add((key, j))
                elif v[1][1] != 'this':
                    for q, p in enumerate(self.f.params):
                        if p[0] == v[1][1]:
                            self.e.fedby.add((self.f.key, q, key, j))
        if key and self.e.contract(key, virt):
            return [(self.havoc(n, st, vals, args), None)]
        targets = []
        if key and virt:
            ts = [t for t in self.p.targets(key, True) if t in self.p.functions]
            targets = ts if 0 < len(ts) <= 6 else []
        elif f is not None:
            targets = [key]
        interesting = any(isinstance(v, tuple) and v[0] in ('p', 'r', 'b') or isinstance(v, str) for v in vals) or ol is not None
        out = []
        if targets and interesting:
            for t in targets:
                g = self.p.functions[t]
                if g.file.startswith('/') or 'torus/' in g.file:
                    out = None
                    break
                ab = []
                for j, q in enumerate(g.params):
                    v = vals[j] if j < len(vals) else None
                    ab.append(self.abstract(st, v, q[2], q[2].k in ('ref', 'rref')))
                th = self.rel(st, ol[0], ol[1]) if ol is not None and not virt and g.cls and self.e.cells.of_class(g.cls) is not None and 's' not in g.fl else None
                r = self.e.summary(t, tuple(ab), th)
                if r is None:
                    out = None
                    break
                for j in self.e.readsum.get((t, tuple(ab), th), ()):
                    if j < len(vals) and isinstance(vals[j], tuple) and vals[j][0] == 'p' and vals[j][1][0] == 'P':
                        self.noteread(vals[j][1][1])
                for rv, rem, thr in r:
                    s = st
                    for j, q in enumerate(g.params):
                        v = vals[j] if j < len(vals) else None
                        if isinstance(v, tuple) and v[0] == 'p' and isinstance(ab[j], tuple) and ab[j][0] == 'p':
                            s = self.apply(s, (v[1], v[2]), ab[j][1], rem[j])
                            if q[2].sub is not None and not q[2].sub.const:
                                s = self.modified(s, v)
                    if th is not None and thr is not None:
                        s = self.apply(s, ol, th, thr)
                    out.append((s, rv))
            if out is not None:
                return self.mergev(out)
        if f is None and key and nm == 'isFinite' or nm in ('isnan', 'isfinite'):
            return [(st, None)]
        return [(self.havoc(n, st, vals, args, f), 'U' if f is None and any(v == 'U' for v in vals) and key in PUREMATH else None)]

    def apply(self, st, loc, before, after):
        root, path = loc
        for r in before - after:
            r = tuple(r)
            p = path
            if r and isinstance(r[0], tuple) and r[0][0] == '#':
                p = shift(path, r[0][1])
                r = r[1:]
            st = st.drop(('u', root, p + r))
        new = after - before
        if new:
            st = self.unset(st, root, path, new)
        return st

    def modified(self, st, v):
        if v[1][0] == 'L':
            st = self.forget(st, v[1][1])
            if not v[2]:
                st = st.drop(('v', v[1][1]))
        return st

    def havoc(self, n, st, vals, args, f=None):
        """a call into code that is not followed: everything it gets a pointer or reference to is taken as assigned"""
        for j, v in enumerate(vals):
            if isinstance(v, tuple) and v[0] == 'p':
                st = self.fill(st, v[1], v[2])
                if v[2] and isinstance(v[2][-1], tuple) and v[2][-1][0] == '#':
                    st = self.fill(st, v[1], v[2][:-1])
                st = self.modified(st, v)
        return st

    def x_New0(self, n, st):
        key = n.a[0]
        f = self.p.functions.get(key)
        flag = n.a[-1] if len(n.a) > 3 else 0
        cls = n.t.name if n.t is not None else None
        cl = self.e.cells.of_class(cls) if cls else None
        args = [c for c in n.c]
        if flag == 1 and args and cl is not None and (f is None or 'd' in f.fl):
            res = []
            for s, l in self.loc(args[0], st):
                if l is None:
                    res.append((s, None))
                else:
                    r = self.rel(s, l[0], l[1])
                    res.append((s, ('r', r) if r else None))
            return res
        if f is None or 'd' in f.fl and f.body is None:
            res = []
            for s, vals in self.evargs(args, [None] * len(args), st):
                s = self.havoc(n, s, [v for v in vals], args)
                if cl is not None and not args and flag != 2:
                    un = self.trivial_unset(cls)
                    res.append((s, ('r', un) if un else None))
                elif len(args) == 1 and isinstance(vals[0], tuple) and vals[0][0] == 'r' and cl is not None:
                    res.append((s, vals[0]))
                else:
                    res.append((s, None))
            return res
        res = []
        for s, vals in self.evargs(args, [q[2] for q in f.params], st):
            ab = tuple(self.abstract(s, vals[j] if j < len(vals) else None, q[2], q[2].k in ('ref', 'rref')) for j, q in enumerate(f.params))
            interesting = cl is not None or any(isinstance(v, tuple) and v[0] in ('p', 'r') or isinstance(v, str) for v in vals)
            if 'torus/' in f.file or f.file.startswith('/') or not interesting:
                res.append((self.havoc(n, s, vals, args), None))
                continue
            r = self.e.summary(f.key, ab, frozenset(cl) if cl is not None else None)
            if r is None:
                res.append((self.havoc(n, s, vals, args), None))
                continue
            for rv, rem, thr in r:
                s2 = s
                for j, q in enumerate(f.params):
                    v = vals[j] if j < len(vals) else None
                    if isinstance(v, tuple) and v[0] == 'p' and isinstance(ab[j], tuple) and ab[j][0] == 'p':
                        s2 = self.apply(s2, (v[1], v[2]), ab[j][1], rem[j])
                res.append((s2, ('r', thr) if thr else None))
        return self.mergev(res)

    def trivial_unset(self, cls):
        """cells left unset by an implicit default constructor"""
        k = self.p.classes.get(cls)
        un = set()
        for b in k.bases:
            un |= set(self.trivial_unset_base(b[0]))
        for f in k.fields:
            key = cls + '::' + f[0]
            t = f[1]
            if t.k == 'arr' or bare(t) in NUM or bare(t) in self.p.enums:
                un.add((key,))
            elif t.name:
                un |= {(key,) + x for x in self.trivial_unset_base(t.name)}
        return frozenset(un)

    def trivial_unset_base(self, c):
        for m in self.p.classes[c].methods:
            f = self.p.functions.get(m[0])
            if f is not None and 'K' in f.fl and not f.params and 'd' not in f.fl:
                r = self.e.summary(f.key, (), frozenset(self.e.cells.of_class(c) or ()))
                un = set()
                for rv, rem, thr in r or []:
                    un |= set(thr or ())
                return un
        return self.trivial_unset(c)

    def x_InitList(self, n, st):
        cur = [st]
        for c in n.c:
            if c is not None:
                cur = self.merge([self.escape(s, v) if c.t is not None and c.t.k == 'ptr' or v and v[0] == 'p' else s for x in cur for s, v in self.ev(c, x)])
        return [(s, None) for s in cur]

    def lambda_(self, n, st):
        for x in n.walk():
            if x.k == 'Ref' and x.a[0] == 'L':
                i = x.a[1]
                st = self.fill(st, ('L', i), ())
                st = self.escape(st, st.get(('v', i)))
        return [(st, None)]


PUREMATH = {x + '(double)' for x in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'fabs', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'cbrt')} | {'pow(double,double)', 'atan2(double,double)', 'hypot(double,double)', 'fmin(double,double)', 'fmax(double,double)'}


def show(a):
    if isinstance(a, tuple):
        if a[0] == 'p':
            return 'ptr' + ('[%d unset]' % len(a[1]) if a[1] else '')
        if a[0] == 'r':
            return 'rec'
        return str(a[1])
    return str(a)


# ------------------------------------------------------------------ the checks

ARRAYFILL = {}


def array_body(I, body):
    """the loop body stores to elements of an array at a varying index"""
    for x in body.walk():
        if x.k in ('Assign', 'AssignOp') or x.k == 'Un' and x.a in ('++', '--', 'p++', 'p--'):
            b = strip_casts(x.c[0])
            while b is not None and b.k in ('Member', 'Idx', 'Un') and b.c:
                if b.k == 'Idx':
                    i = strip_casts(b.c[1])
                    if i is None or i.k != 'Int':
                        return True
                if b.k == 'Un' and b.a == '*' and strip_casts(b.c[0]) is not None and strip_casts(b.c[0]).k in ('Un', 'Bin'):
                    return True
                b = strip_casts(b.c[0])
        elif x.k in CALLS:
            for a in call_args(x):
                s = strip_casts(a) if a is not None else None
                if s is not None and (s.k == 'Idx' or s.k == 'Un' and s.a == '&' and strip_casts(s.c[0]) is not None and strip_casts(s.c[0]).k == 'Idx'):
                    y = s if s.k == 'Idx' else strip_casts(s.c[0])
                    i = strip_casts(y.c[1])
                    if i is None or i.k != 'Int':
                        return True
                elif s is not None and s.k == 'Bin' and s.t is not None and s.t.k == 'ptr':
                    return True
    return False


def _loop(self, head, cond, body, inc, first_body=False):
    if not first_body and body is not None:
        k = id(body)
        if k not in ARRAYFILL:
            ARRAYFILL[k] = (array_body(self, body), body)
        if ARRAYFILL[k][0]:
            # an array handed over for output has at least one element
            if cond is not None:
                T, F = self.branches(cond, head)
                if T:
                    head, first_body = T, True
            else:
                first_body = True
    return Interp.loop(self, head, cond, body, inc, first_body)


FillInterp.loop = _loop


def orders(prog, E):
    """class -> constant number of derivatives it declares to provide"""
    res = {}
    for k, m in prog.methods.items():
        if m[1] == 'numDerivs':
            f = prog.functions.get(k)
            if f is not None and f.body is not None:
                rets = [n for n in f.walk() if n.k == 'Return']
                if len(rets) == 1 and rets[0].c:
                    e = strip_casts(rets[0].c[0])
                    if e is not None and e.k == 'Int':
                        res[m[0]] = int(e.a)
    return res


def declared_order(prog, nd, cls):
    seen, work = set(), [cls]
    while work:
        c = work.pop(0)
        if c in seen:
            continue
        seen.add(c)
        if c in nd:
            return nd[c]
        k = prog.classes.get(c)
        if k is not None:
            if any(prog.methods.get(m[0], ('', ''))[1] == 'numDerivs' for m in k.methods):
                return None
            work += [b[0] for b in k.bases]
    return None


def own(f):
    return not f.file.startswith('/') and 'torus/' not in f.file and f.body is not None


MEMO = {}
# entry points called by foreign programs: the caller initialises the arrays (a number of dimensions other than 2 or 3
# is rejected by NEMO itself)
EXTERNAL_ARRAYS = ('interface_nemo.cpp',)
# an order of derivative exceeding the degree of B-splines is excluded by the only caller, BsplineInterpolator1d::
# nonzeroComponents, so the specialisations for it (with no statements but an assertion) are never called
NEVER = ('bsplineDerivs<0',)


def contexts(prog, E, inout):
    """yields (function, optional positions, output cells, argument tuples)"""
    import itertools
    for key in sorted(prog.functions):
        f = prog.functions[key]
        if not own(f):
            continue
        pos = sorted(i for i in E.opt.get(key, ()) if i < len(f.params) and f.params[i][2].k == 'ptr')
        isentry = bool(pos) and (E.virtual(key) or any(f.params[i][3] for i in pos))
        outs = {}
        for i, q in enumerate(f.params):
            t = q[2]
            if t.k in ('ptr', 'ref') and t.sub is not None and not t.sub.const and 'K' not in f.fl:
                if t.sub.k in ('ptr', 'arr') or t.k == 'ptr' and not isentry and f.ret is not None and bare(f.ret) in ('int', 'unsigned int', 'unsigned long', 'long'):
                    continue      # arrays filled up to the returned count
                if (key, i) in inout:
                    continue
                cl = E.cells.of_type(t.sub)
                if cl:
                    outs[i] = frozenset(cl)
        combos = list(itertools.product((0, 1), repeat=len(pos))) if isentry else [(1,) * len(pos)]
        ctxs = []
        for combo in combos:
            c = dict(zip(pos, combo)) if isentry else {}
            args = []
            for i, q in enumerate(f.params):
                if i in c and not c[i]:
                    args.append('null')
                elif i in outs:
                    args.append(('p', outs[i]))
                elif q[2].k == 'ptr':
                    args.append('nonnull')
                elif q[2].k == 'ref':
                    args.append(('p', frozenset()))
                else:
                    args.append(None)
            ctxs.append(tuple(args))
        yield key, f, pos if isentry else [], outs, ctxs


def analyse():
    if MEMO:
        return MEMO['r']
    prog = Program()
    E = Engine(prog)
    # first pass: arguments that are read before they are assigned are not outputs
    inout = set()
    for key, f, pos, outs, ctxs in contexts(prog, E, ()):
        for args in ctxs:
            E.summary(key, args, None)
            for i in E.readsum.get((key, args, None), ()):
                if i in outs and not (i in pos and bare(f.params[i][2].sub) in ('double', 'float')) and not (i in pos and outs[i] != frozenset(((),))):
                    inout.add((key, i))
    opt = E.opt
    E = Engine(prog)
    nd = orders(prog, E)
    ev = []        # (rule, what, number)
    bad = []       # (rule, key, loc, msg, trace)
    ncombo = 0
    later = []
    for key, f, pos, outs, ctxs in contexts(prog, E, inout):
        retcl = f.ret is not None and f.ret.k not in ('ptr', 'ref', 'rref') and E.cells.of_type(f.ret)
        order = None
        if pos and f.cls and prog.methods.get(key, ('', ''))[1] == 'evalDeriv':
            order = declared_order(prog, nd, f.cls)
        writes, left = set(), {}
        nret = 0
        un = set()
        for args in ctxs:
            r = E.summary(key, args, None)
            ncombo += 1
            for rv, rem, th in r or []:
                for i in outs:
                    if isinstance(args[i], tuple) and args[i][1]:
                        if len(rem[i]) < len(outs[i]):
                            writes.add(i)
                        if rem[i]:
                            left.setdefault(i, set()).add((rem[i], tuple(show(a) for a in args)))
                nret += 1
                if retcl and rv == 'U':
                    un.add('')
                elif retcl and isinstance(rv, tuple) and rv[0] == 'r':
                    un |= {'.'.join(str(y).split('::')[-1] for y in x) for x in rv[1]}
        if un:
            bad.append(('returned', qual(key), f.loc(), '%s may return a value that has not been assigned%s' % (qual(key), ' (%s)' % ', '.join(sorted(un)) if un != {''} else ''), ()))
        elif retcl and nret:
            ev.append(('returned', qual(key), 1))
        if pos:
            ev.append(('omitted', '%s: %d combinations' % (qual(key), len(ctxs)), len(ctxs)))
        for i in outs:
            q = f.params[i]
            if i in pos:
                o = [j for j, p in enumerate(f.params) if p[2].k == 'ptr'].index(i)
                if order is not None and o > order:
                    continue
                kind = 'evaluation'
            elif i in writes:
                kind = 'output'
            else:
                continue
            if kind == 'output':
                later.append((key, f, i, q, left.get(i)))
                continue
            if i in left:
                what = sorted(left[i], key=lambda x: (len(x[0]), str(x)))
                names = sorted({'.'.join(str(y).split('::')[-1] for y in x) for l in what for x in l[0]} - {''})
                bad.append((kind, '%s|%d' % (qual(key), i), f.loc(), '%s may return normally without assigning its output argument %s%s' % (qual(key), q[1] or '#%d' % (i + 1), ' (' + ', '.join(names) + ')' if names else ''), ['arguments: ' + ', '.join(what[0][1])]))
            else:
                ev.append((kind, '%s: %s' % (qual(key), q[1] or '#%d' % (i + 1)), 1))
    # outputs that must be assigned: some caller passes a variable that is not assigned (directly or through its own
    # output), or nothing in the repository calls the function or its overridden declaration (a public entry point)
    called = set()
    for f in prog.functions.values():
        for n in f.walk():
            if n.k in CALLS and n.a[0]:
                called.update(prog.targets(n.a[0], True))
            elif n.k == 'Ref' and n.a[0] == 'F':
                called.add(n.a[1])
    need = set(E.fed)
    for key, f, i, q, lf in later:
        if key not in called and not f.file.endswith(EXTERNAL_ARRAYS):
            need.add((key, i))
    while True:
        new = {(t, j) for k, i, c, j in E.fedby if (k, i) in need for t in prog.targets(c, True)} | {(t, j) for k, j in need for t in prog.targets(k, True)}
        if new <= need:
            break
        need |= new
    for key, f, i, q, lf in later:
        if (key, i) not in need or any(x in qual(key) for x in NEVER):
            continue
        if lf:
            what = sorted(lf, key=lambda x: (len(x[0]), str(x)))
            names = sorted({'.'.join(str(y).split('::')[-1] for y in x) for l in what for x in l[0]} - {''})
            bad.append(('output', '%s|%d' % (qual(key), i), f.loc(), '%s may return normally without assigning its output argument %s%s' % (qual(key), q[1] or '#%d' % (i + 1), ' (' + ', '.join(names) + ')' if names else ''), ['arguments: ' + ', '.join(what[0][1])]))
        else:
            ev.append(('output', '%s: %s' % (qual(key), q[1] or '#%d' % (i + 1)), 1))
    MEMO['r'] = (prog, E, ev, bad, ncombo)
    return MEMO['r']


def check_c01(rep):
    prog, E, ev, bad, ncombo = analyse()
    for r, w, n in ev:
        if r == 'omitted':
            rep.ok('omitted', w, n)
    rep.ok('dereferenced', '%d dereferences of pointers to outputs examined in %d functions, %d summaries' % (E.deref, len(E.nfun), len(E.memo)), len(E.nfun))
    for (rule, key, line, text), tr in sorted(E.problems.items(), key=str):
        if rule == 'null':
            f = prog.functions[key]
            rep.bad('dereferenced', '%s|%s' % (qual(key), text), '%s:%d' % (f.file, line), '%s: %s' % (qual(key), text), tr)
    rep.require('omitted', 300)
    rep.require('dereferenced', 300)
    return prog


def check_c02(rep):
    prog, E, ev, bad, ncombo = analyse()
    for r, w, n in ev:
        if r != 'omitted':
            rep.ok(r, w, n)
    for rule, key, loc, msg, tr in bad:
        rep.bad(rule, key, loc, msg, tr)
    for (rule, key, line, text), tr in sorted(E.problems.items(), key=str):
        if rule == 'undef':
            f = prog.functions[key]
            rep.bad('condition', '%s|%d' % (qual(key), line), '%s:%d' % (f.file, line), '%s: %s' % (qual(key), text), tr)
    rep.require('evaluation', 150)
    rep.require('output', 50)
    rep.require('returned', 50)
    return prog
