"""Context-sensitive call resolution: a context binds `this` and parameters to a (set of) dynamic class(es),
to the null pointer, or to a boolean constant.  Used for may-throw and Python-callback reachability."""
from core import *

# abstract argument: ('x', cls) exact dynamic class; ('s', cls) cls or a subclass; 'null'; 'nonnull'; True/False


def rec_class(prog, t):
    """class key of a record type behind references and pointers"""
    if t is None:
        return None
    u = t
    while u.sub is not None and u.k in ('ptr', 'ref', 'rref'):
        u = u.sub
    if u.name in prog.classes:
        return u.name
    return None


class Ctx(object):
    def __init__(self, prog):
        self.p = prog
        prog.method_info()
        self._paramidx = {}
        self._localex = {}
        self._inits = {}
        self._alias = {}
        self._void = {}

    # ---- variables with a known dynamic class
    def locals_exact(self, f):
        """local id -> class for by-value locals and parameters, and for reference locals/pointers never reassigned"""
        if f.key not in self._localex:
            r = {}
            for i, nm, t, d in f.params:
                if t.k not in ('ptr', 'ref', 'rref'):
                    c = rec_class(self.p, t)
                    if c:
                        r[i] = ('x', c)
            ini = self._inits[f.key] = {}
            al = self._alias[f.key] = {}
            assigned = {strip_casts(n.c[0]).a[1] for n in f.walk() if n.k in ('Assign', 'AssignOp') and strip_casts(n.c[0]) is not None and strip_casts(n.c[0]).k == 'Ref'}
            for n in f.walk():
                if n.k == 'Var' and n.t is not None and n.a[0] and n.t.k in ('ptr', 'ref', 'rref') and n.c and n.c[0] is not None:
                    if rec_class(self.p, n.t) and (n.t.k != 'ptr' or n.a[0] not in assigned):
                        al[n.a[0]] = n.c[0]
            for n in f.walk():
                if n.k == 'Var' and n.t is not None and n.a[0]:
                    if n.t.k not in ('ptr', 'ref', 'rref', 'arr'):
                        c = rec_class(self.p, n.t)
                        if c:
                            r[n.a[0]] = ('x', c)
                            d = strip_casts(n.c[0]) if n.c and n.c[0] is not None else None
                            if d is not None and d.k == 'New0' and not (len(d.a) > 2 and d.a[-1] == 1):
                                ini[n.a[0]] = d
            self._localex[f.key] = r
        return self._localex[f.key]

    def absval(self, f, ctx, n):
        """abstract value of an argument or receiver expression in function f under ctx (dict)"""
        if n is None:
            return None
        x = n
        while x is not None and x.k in ('Cast', 'DefArg', 'Paren', 'Bind', 'Temp'):
            if x.k == 'Cast' and x.a[0] in ('NullToPointer',):
                return 'null'
            if x.k == 'Cast' and 'void' in ctx and x.c and x.c[0] is not None and x.c[0].t is not None and x.t is not None and \
                    x.c[0].t.k == 'ptr' and x.c[0].t.sub.k == 'void' and rec_class(self.p, x.t):
                return ctx['void']
            x = x.c[0] if x.c else None
        if x is None:
            return None
        if x.k == 'Null':
            return 'null'
        if x.k == 'Bool':
            return bool(x.a)
        if x.k == 'Int' and x.a != '?':
            return 'i:' + x.a
        if x.k == 'This':
            v = ctx.get('this')
            if v:
                return v
            return ('s', f.cls) if f.cls else None
        if x.k == 'Ref' and x.a[0] == 'L':
            v = ctx.get(x.a[1])
            if v is not None:
                return v
            v = self.locals_exact(f).get(x.a[1])
            if v is not None:
                d = self._inits[f.key].get(x.a[1])
                return self.newval(f, ctx, d, v[1]) if d is not None else v
            e = self._alias[f.key].get(x.a[1])
            if e is not None and self.depth < 5:
                self.depth += 1
                v = self.absval(f, ctx, e)
                self.depth -= 1
                if v is not None:
                    return v
        if x.k == 'Un' and x.a == '&':
            v = self.absval(f, ctx, x.c[0])
            return v if isinstance(v, tuple) else 'nonnull'
        if x.k == 'Un' and x.a == '*':
            v = self.absval(f, ctx, x.c[0])
            return v if isinstance(v, tuple) else self.bytype(x)
        if x.k == 'New0' and x.t is not None:
            c = rec_class(self.p, x.t)
            return self.newval(f, ctx, x, c) if c else None
        if x.k == 'NewE' and x.t is not None:
            c = rec_class(self.p, x.t)
            return ('x', c) if c else None
        if x.k == 'Member' and x.a[0] == 'M' and x.t is not None:
            # a data member of class type held by value has its exact class
            fl = x.a[1]
            if x.t.k not in ('ptr', 'ref', 'rref', 'arr'):
                cls, _, nm = fl.rpartition('::')
                fd = self.p.field(cls, nm)
                c = rec_class(self.p, x.t)
                if fd is not None and fd[1].k not in ('ptr', 'ref', 'rref') and c:
                    return ('x', c)
            if x.c and x.c[0] is not None:
                b = self.absval(f, ctx, x.c[0])
                if isinstance(b, tuple) and len(b) > 2:
                    for k_, v_ in b[2]:
                        if k_ == fl:
                            return v_
            return self.bytype(x)
        if x.k in ('Call', 'MCall', 'OpCall') and x.t is not None and x.t.k not in ('ptr', 'ref', 'rref'):
            # a call returning by value; lvalue-ness unknown: exact only if the callee's return type is a record
            t = self.p.functions.get(x.a[0])
            if t is not None and t.ret.k not in ('ptr', 'ref', 'rref'):
                c = rec_class(self.p, t.ret)
                if c:
                    return ('x', c)
        return self.bytype(x)

    def newval(self, f, ctx, n, cls):
        """an object constructed by node n: its class and the known values of members bound to constructor arguments"""
        g = self.p.functions.get(n.a[0])
        if g is None or self.depth > 5:
            return ('x', cls)
        self.depth += 1
        fields = []
        ids = {p[0]: i for i, p in enumerate(g.params)}
        for kind, name, written, expr in g.inits:
            if kind == 'M' and expr is not None:
                e = expr
                while e is not None and (e.k in ('Cast', 'Paren') or e.k == 'Un' and e.a in ('&', '*') or e.k == 'New0' and len(e.c) == 1):
                    e = e.c[0]
                if e is not None and e.k == 'Ref' and e.a[0] == 'L' and e.a[1] in ids and ids[e.a[1]] < len(n.c):
                    v = self.absval(f, ctx, n.c[ids[e.a[1]]])
                    if isinstance(v, tuple) and v[1] in self.p.classes and self.p.classes[v[1]].poly:
                        fields.append((name, v))
        self.depth -= 1
        return ('x', cls, tuple(sorted(fields))) if fields else ('x', cls)

    depth = 0

    def void_arg(self, f, ctx):
        """the object whose address this function passes on as an untyped pointer, if there is only one"""
        if f.key not in self._void:
            r = []
            for n in f.walk():
                if n.k == 'Cast' and n.t is not None and n.t.k == 'ptr' and n.t.sub.k == 'void' and n.c and n.c[0] is not None and rec_class(self.p, n.c[0].t):
                    r.append(n.c[0])
            self._void[f.key] = r
        vals = {self.absval(f, ctx, x) for x in self._void[f.key]}
        return vals.pop() if len(vals) == 1 else None

    def addr_taken(self, f, ctx, n):
        """a reference to a function other than as the callee: it may be called back by external code"""
        if n.k == 'Ref' and n.a[0] == 'F' and n.a[1] in self.p.functions:
            v = self.void_arg(f, ctx)
            return (n.a[1], (('void', v),) if isinstance(v, tuple) else ())
        return None

    def bytype(self, x):
        c = rec_class(self.p, x.t)
        return ('s', c) if c else None

    def resolve(self, f, ctx, n):
        """[(target key, ctx of callee)] for a call node with a known callee"""
        key, virt = n.a[0], bool(n.a[1])
        args = call_args(n)
        obj = None
        tf = self.p.functions.get(key)
        if n.k == 'MCall':
            obj = n.c[0]
        elif n.k == 'OpCall' and key in self.p.methods:
            obj = n.c[0]
            args = n.c[1:]
        recv = self.absval(f, ctx, obj) if obj is not None else None
        targets = []
        if obj is not None and not virt and isinstance(recv, tuple) and n.k == 'OpCall':
            m = self.p.methods.get(key)
            virt = bool(m and 'V' in m[2]) if m else False
        if virt:
            mcls = self.p.methods[key][0] if key in self.p.methods else None
            if isinstance(recv, tuple) and recv[1] in self.p.classes:
                targets = self.dispatch(key, recv)
            else:
                targets = [(t, None) for t in self.p.targets(key, True)]
        else:
            targets = [(key, recv if isinstance(recv, tuple) else None)]
        res = []
        avals = [self.absval(f, ctx, a) for a in args]
        for t, rv in targets:
            g = self.p.functions.get(t)
            if g is None:
                res.append((t, ()))
                continue
            c = {}
            if rv:
                c['this'] = rv
            elif n.k == 'New0' and g.cls:
                c['this'] = ('x', rec_class(self.p, n.t) or g.cls)
            for (i, nm, ty, d), v in zip(g.params, avals):
                if v is None:
                    continue
                if isinstance(v, tuple):
                    if v[1] == rec_class(self.p, ty) and v[0] == 's':
                        continue
                    if not self.p.classes[v[1]].poly if v[1] in self.p.classes else True:
                        continue
                    c[i] = v
                elif v in ('null', 'nonnull') and ty.k == 'ptr':
                    c[i] = v
                elif isinstance(v, str) and v[:2] == 'i:':
                    if ty.k == 'ptr' and v == 'i:0':
                        c[i] = 'null'
                    elif ty.k != 'ptr' and ('int' in ty.s or 'long' in ty.s or 'size_t' in ty.s or ty.s in self.p.enums):
                        c[i] = v
                elif isinstance(v, bool) and ty.s in ('bool', 'const bool'):
                    c[i] = v
            res.append((t, tuple(sorted(c.items(), key=str))))
        return res

    def impl(self, key, cls):
        """implementation of virtual method `key` in exact class cls"""
        # walk up from cls: the first class declaring a method equal to key or overriding it
        ov = self.p.method_info().get(key, ())
        cand = set(ov) | {key}
        seen = [cls]
        level = [cls]
        while level:
            nxt = []
            for c in level:
                C = self.p.classes.get(c)
                if C is None:
                    continue
                for m in C.methods:
                    if m[0] in cand:
                        return m[0]
                for b, _ in C.bases:
                    if b not in seen:
                        seen.append(b)
                        nxt.append(b)
            level = nxt
        return key

    def dispatch(self, key, recv):
        kind, cls = recv[:2]
        if kind == 'x':
            return [(self.impl(key, cls), recv)]
        res = {}
        for c in self.p.subclasses(cls):
            C = self.p.classes[c]
            if C.abs:
                continue
            t = self.impl(key, c)
            res.setdefault(t, []).append(c)
        if not res:
            return [(t, None) for t in self.p.targets(key, True)]
        out = []
        for t, cl in res.items():
            tc = self.p.methods[t][0] if t in self.p.methods else cls
            out.append((t, ('x', cl[0]) if len(cl) == 1 else ('s', cls if tc in self.p.bases_of(cls) else tc)))
        return out

    # ---- walking a function under a context with pruned branches
    def const(self, f, ctx, n):
        x = n
        while x is not None and x.k in ('Cast', 'DefArg', 'Paren'):
            x = x.c[0] if x.c else None
        if x is None:
            return None
        if x.k == 'Bool':
            return bool(x.a)
        if x.k == 'Int' and x.a in ('0', '1'):
            return x.a == '1'
        if x.k == 'Ref' and x.a[0] == 'L':
            v = ctx.get(x.a[1])
            if v == 'null':
                return False
            if v == 'nonnull' or (isinstance(v, tuple) and x.t is not None and x.t.k == 'ptr'):
                return True
            if isinstance(v, bool):
                return v
            if isinstance(v, str) and v[:2] == 'i:':
                return v != 'i:0'
        if x.k == 'Un' and x.a == '!':
            v = self.const(f, ctx, x.c[0])
            return None if v is None else not v
        if x.k == 'Bin' and x.a in ('&&', '||'):
            a, b = self.const(f, ctx, x.c[0]), self.const(f, ctx, x.c[1])
            if x.a == '&&':
                if a is False or b is False:
                    return False
                return True if a and b else None
            if a or b:
                return True
            return False if a is False and b is False else None
        if x.k == 'Bin' and x.a in ('==', '!='):
            l, r = self.absval(f, ctx, x.c[0]), self.absval(f, ctx, x.c[1])
            if isinstance(l, str) and isinstance(r, str) and l[:2] == 'i:' and r[:2] == 'i:':
                return (l == r) == (x.a == '==')
            if r == 'null' and (l == 'null' or l == 'nonnull'):
                return (l == 'null') == (x.a == '==')
        return None

    def live(self, f, ctx):
        """yields (node, guarded by a catch-all try) of the parts that may execute"""
        for r in f.roots():
            for x in self._live(f, ctx, r, False):
                yield x

    def _live(self, f, ctx, n, g):
        if n is None or n.k == 'Lambda':
            return
        yield n, g
        if n.k == 'Try':
            gg = g or catches_all(n)
            for x in self._live(f, ctx, n.c[0], gg):
                yield x
            for h in n.c[1:]:
                for x in self._live(f, ctx, h, g):
                    yield x
            return
        if n.k in ('If', 'Cond'):
            i = 1 if n.k == 'If' else 0
            v = self.const(f, ctx, n.c[i])
            for j, c in enumerate(n.c):
                if (j == i + 1 and v is False) or (j == i + 2 and v is True):
                    continue
                for x in self._live(f, ctx, c, g):
                    yield x
            return
        if n.k == 'Switch' and n.c[1] is not None and n.c[1].k == 'Block':
            v = self.absval(f, ctx, n.c[0])
            if isinstance(v, str) and v[:2] == 'i:':
                body = n.c[1].c
                start = None
                for want in (lambda y: y.k == 'Case' and y.a == v[2:], lambda y: y.k == 'Default'):
                    for j, s in enumerate(body):
                        y = s
                        while y is not None and y.k in ('Case', 'Default'):
                            if want(y):
                                start = j
                                break
                            y = y.c[-1]
                        if start is not None:
                            break
                    if start is not None:
                        break
                if start is not None:
                    for s in body[start:]:
                        y = s
                        for x in self._live(f, ctx, s, g):
                            yield x
                        while y is not None and y.k in ('Case', 'Default'):
                            y = y.c[-1]
                        if y is not None and y.k in ('Break', 'Return'):
                            break
                return
        for c in n.c:
            for x in self._live(f, ctx, c, g):
                yield x


class Reach(Ctx):
    """lazy context-sensitive reachability of `target` nodes.  Subclass/params: hit(f, node) -> reason or None;
    stop(key) prunes callees; guards: whether a try with catch-all stops propagation."""
    LIMIT = 400000

    def __init__(self, prog, hit, stop=lambda k: False, guards=True, exthit=None):
        Ctx.__init__(self, prog)
        self.hit, self.stop, self.guards, self.exthit = hit, stop, guards, exthit
        self.memo = {}      # state -> None | chain (list)
        self.edges = {}
        self.nctx = {}

    def stopedge(self, caller, callee):
        return False

    def norm(self, state):
        # limit the number of contexts per function
        key, ctx = state
        s = self.nctx.setdefault(key, set())
        if state in s:
            return state
        if len(s) >= 60:
            return (key, ())
        s.add(state)
        return state

    def expand(self, state):
        if state in self.edges:
            return self.edges[state]
        key, ctx = state
        f = self.p.functions[key]
        c = dict(ctx)
        e, h = [], None
        for n, g in self.live(f, c):
            if g and self.guards:
                continue
            r = self.hit(f, n)
            if r:
                h = (f.loc(n), r)
                break
            at = self.addr_taken(f, c, n)
            if at and not self.stop(at[0]):
                e.append((self.norm(at), f.loc(n)))
            if n.k in CALLS and n.a[0]:
                for t, tc in self.resolve(f, c, n):
                    if self.stop(t) or self.stopedge(key, t):
                        continue
                    if t in self.p.functions:
                        e.append((self.norm((t, tc)), f.loc(n)))
                    elif self.exthit:
                        r = self.exthit(t)
                        if r:
                            h = (f.loc(n), r)
        self.edges[state] = (e, h)
        return self.edges[state]

    def query(self, state):
        """None, or the chain of locations leading to a hit"""
        state = self.norm(state)
        if state in self.memo:
            return self.memo[state]
        # breadth-first search
        prev = {state: None}
        queue = [state]
        i = 0
        found = None
        while i < len(queue):
            s = queue[i]
            i += 1
            m = self.memo.get(s)
            if s in self.memo and m is None:
                continue
            if m is not None:
                found = (s, m)
                break
            e, h = self.expand(s)
            if h:
                found = (s, ['%s: %s' % h])
                break
            for t, loc in e:
                if t not in prev:
                    prev[t] = (s, loc)
                    queue.append(t)
        if found is None:
            for s in queue:
                self.memo[s] = None
            return None
        s, chain = found
        chain = list(chain)
        while s is not None:
            self.memo[s] = chain
            pr = prev[s]
            if pr is None:
                break
            chain = ['%s calls %s' % (pr[1], qual(s[0]))] + chain
            s = pr[0]
        return self.memo[state]

    def site(self, f, ctx, n):
        """chain if the call node n may hit"""
        for t, tc in self.resolve(f, ctx, n):
            if self.stop(t):
                continue
            if t in self.p.functions:
                r = self.query((t, tc))
                if r:
                    return ['%s calls %s' % (f.loc(n), qual(t))] + r
            elif self.exthit and self.exthit(t):
                return ['%s calls %s' % (f.loc(n), qual(t))]
        return None


def throw_hit(f, n):
    return 'throw' if n.k == 'Throw' else None


def throw_ext(t):
    return t if t.startswith('std::') and any(qual(t).endswith(e) for e in Throws.EXT) else None


def Thrower(prog):
    return Reach(prog, throw_hit, exthit=throw_ext, stop=lambda k: k.startswith('math::blas_'))
