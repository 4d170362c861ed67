"""Disjunctive abstract interpretation of one function body over the type-resolved syntax tree.

A state is a persistent map (class S).  Every full expression, condition, declaration, return and throw is
evaluated on a list of states (one per path class); branch conditions split them, equal states are merged,
loops are iterated to a fixed point and at most K states are kept (beyond that they are joined).
Subclasses override the hooks marked HOOK.
"""
from core import *

TRUE, FALSE = ('b', True), ('b', False)


class S(object):
    __slots__ = ('d', '_h')

    def __init__(self, d=None):
        self.d = d if d is not None else {}
        self._h = None

    def get(self, k, dflt=None):
        return self.d.get(k, dflt)

    def set(self, k, v):
        if self.d.get(k, S) == v:
            return self
        d = dict(self.d)
        d[k] = v
        return S(d)

    def drop(self, *ks):
        if not any(k in self.d for k in ks):
            return self
        d = dict(self.d)
        for k in ks:
            d.pop(k, None)
        return S(d)

    def dropif(self, pred):
        ks = [k for k in self.d if pred(k)]
        return self.drop(*ks) if ks else self

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (hash(self) == hash(o) and self.d == o.d)

    def __repr__(self):
        return repr(self.d)


class Ctl(object):
    """targets of jumps inside a loop or switch"""
    def __init__(self):
        self.brk = []
        self.cont = []


class Interp(object):
    K = 40
    LOOPS = 12

    def __init__(self, prog, f):
        self.p = prog
        self.f = f
        self.exits = []       # (kind, node, state, value)
        self.loops = []
        self.tries = []
        self.gotos = {}
        self.steps = 0

    # ------------------------------------------------------------ driver
    def run(self, init=None, inits=True):
        sts = [init if init is not None else S()]
        if inits:
            for kind, name, written, expr in self.f.inits:
                nxt = []
                for st in sts:
                    nxt += self.ctorinit(kind, name, expr, st)
                sts = self.merge(nxt)
        if self.f.body is not None:
            for rnd in range(4):
                nex = len(self.exits)
                before = {k: len(v) for k, v in self.gotos.items()}
                out = self.stmt(self.f.body, sts)
                if {k: len(v) for k, v in self.gotos.items()} == before:
                    break
                del self.exits[nex:]
        else:
            out = sts
        for st in out:
            self.exits.append(('end', None, st, None))
        return self.exits

    def ctorinit(self, kind, name, expr, st):          # HOOK
        return [s for s, v in self.ev(expr, st)] if expr is not None else [st]

    def merge(self, sts):
        seen = set()
        res = []
        for s in sts:
            if s not in seen:
                seen.add(s)
                res.append(s)
        if len(res) > self.K:
            groups = {}
            for s in res:
                groups.setdefault(self.pkey(s), []).append(s)
            res = []
            for g in groups.values():
                j = g[0]
                for s in g[1:]:
                    j = self.join(j, s)
                res.append(j)
            if len(res) > self.K * 4:
                j = res[0]
                for s in res[1:]:
                    j = self.join(j, s)
                res = [j]
        return res

    def pkey(self, st):               # HOOK: states with different keys are joined only as a last resort
        return None

    def joinval(self, k, a, b):       # HOOK: joined value of key k (None: drop)
        return None

    def join(self, a, b):
        d = {}
        for k, v in a.d.items():
            w = b.d.get(k)
            if v == w:
                d[k] = v
            else:
                x = self.joinval(k, v, w)
                if x is not None:
                    d[k] = x
        for k, w in b.d.items():
            if k not in a.d:
                x = self.joinval(k, None, w)
                if x is not None:
                    d[k] = x
        return S(d)

    # ------------------------------------------------------------ statements
    def stmt(self, n, sts):
        if n is None or not sts:
            if n is not None and n.k in ('Block', 'Label', 'Case', 'Default', 'If', 'For', 'While', 'Do'):
                return self.labels(n) if not sts and self.has_label(n) else sts
            return sts
        k = n.k
        m = getattr(self, 's_' + k, None)
        if m:
            return m(n, sts)
        res = []
        for st in sts:
            res += [s for s, v in self.full(n, st)]
        return self.merge(res)

    def full(self, n, st):
        """evaluates a full expression"""
        return self.ev(n, st)

    def has_label(self, n):
        return any(x.k in ('Label', 'Case', 'Default') for x in n.walk())

    def labels(self, n):
        # entering unreachable code: only through labels inside it
        if n.k == 'Block':
            return self.s_Block(n, [])
        if n.k == 'Label':
            return self.s_Label(n, [])
        return []

    def s_Block(self, n, sts):
        decls = []
        for c in n.c:
            if c is None:
                continue
            if not sts and c.k not in ('Label', 'Block'):
                continue
            sts = self.stmt(c, sts)
            if c.k == 'Decl':
                decls += [v for v in c.c]
        if decls and sts:
            sts = self.merge([self.leave(decls, st, n) for st in sts])
        return sts

    def leave(self, decls, st, n):       # HOOK: variables go out of scope normally
        return st

    def s_Decl(self, n, sts):
        for v in n.c:
            sts = self.merge([s for st in sts for s in self.vardecl(v, st)])
        return sts

    def vardecl(self, v, st):            # HOOK
        if v.c and v.c[0] is not None:
            return [self.bind(v, s, val) for s, val in self.full(v.c[0], st)]
        return [self.bind(v, st, None)]

    def bind(self, v, st, val):          # HOOK: value of an initialised variable
        return st

    def s_If(self, n, sts):
        if n.c[0] is not None:
            sts = self.merge([s for st in sts for s in self.vardecl(n.c[0], st)])
        t, f = self.branches(n.c[1], sts)
        t = self.stmt(n.c[2], t) if t else (self.labels(n.c[2]) if self.has_label(n.c[2]) else [])
        if n.c[3] is not None:
            f = self.stmt(n.c[3], f) if f else (self.labels(n.c[3]) if self.has_label(n.c[3]) else [])
        return self.merge(t + f)

    def branches(self, cond, sts):
        T, F = [], []
        for st in sts:
            a, b = self.branch(cond, st)
            T += a
            F += b
        return self.merge(T), self.merge(F)

    def branch(self, n, st):
        """states in which the condition is true / false"""
        if n is None:
            return [st], []
        if n.k == 'Cast' and n.c and n.a[0] in ('LValueToRValue', 'PointerToBoolean', 'IntegralToBoolean', 'FloatingToBoolean', 'NoOp', 'UserDefinedConversion', 'IntegralCast') and \
                n.c[0].k in ('Bin', 'Un', 'Cond', 'Cast', 'Bool', 'Int') and (n.c[0].k != 'Bin' or n.c[0].a in ('&&', '||', '==', '!=', '<', '>', '<=', '>=')) and (n.c[0].k != 'Un' or n.c[0].a == '!') and \
                n.a[0] not in ('LValueToRValue',):
            return self.branch(n.c[0], st)
        if n.k == 'Bin' and n.a == '&&':
            t, f = self.branch(n.c[0], st)
            T, F = [], list(f)
            for s in t:
                a, b = self.branch(n.c[1], s)
                T += a
                F += b
            return self.merge(T), self.merge(F)
        if n.k == 'Bin' and n.a == '||':
            t, f = self.branch(n.c[0], st)
            T, F = list(t), []
            for s in f:
                a, b = self.branch(n.c[1], s)
                T += a
                F += b
            return self.merge(T), self.merge(F)
        if n.k == 'Un' and n.a == '!':
            t, f = self.branch(n.c[0], st)
            return f, t
        if n.k == 'Bin' and n.a == ',':
            T, F = [], []
            for s, v in self.ev(n.c[0], st):
                a, b = self.branch(n.c[1], s)
                T += a
                F += b
            return self.merge(T), self.merge(F)
        if n.k == 'Cond':
            t, f = self.branch(n.c[0], st)
            T, F = [], []
            for ss, e in ((t, n.c[1]), (f, n.c[2])):
                for s in ss:
                    a, b = self.branch(e, s)
                    T += a
                    F += b
            return self.merge(T), self.merge(F)
        if n.k in ('Bool', 'Int'):
            v = str(n.a).lower()
            if v in ('false', '0'):
                return [], [st]
            return [st], []
        T, F = [], []
        for s, v in self.ev(n, st):
            if v == TRUE:
                T.append(s)
            elif v == FALSE:
                F.append(s)
            else:
                T += self.assume(n, v, s, True)
                F += self.assume(n, v, s, False)
        return self.merge(T), self.merge(F)

    def assume(self, n, v, st, truth):    # HOOK: refine by an atomic condition; [] if infeasible
        return [st]

    def loop(self, head, cond, body, inc, first_body=False):
        ctl = Ctl()
        self.loops.append(ctl)
        seen = set()
        out = []
        work = list(head)
        accum = []
        for it in range(self.LOOPS):
            new = [s for s in self.merge(work) if s not in seen]
            if not new:
                break
            if it >= self.LOOPS - 4 or len(seen) > 3 * self.K:
                # widen: join everything
                j = None
                for s in list(accum) + new:
                    j = s if j is None else self.join(j, s)
                new = [j] if j not in seen else []
                if not new:
                    break
                accum = []
            for s in new:
                seen.add(s)
            accum += new
            if first_body:
                t = new
            else:
                t, f = self.branches(cond, new)
                out += f
            ctl.cont = []
            b = self.stmt(body, t)
            b = self.merge(b + ctl.cont)
            if first_body:
                b, f = self.branches(cond, b)
                out += f
            if inc is not None:
                b = self.merge([s for st in b for s, v in self.full(inc, st)])
            work = b
        else:
            pass
        self.loops.pop()
        return self.merge(out + ctl.brk)

    def s_For(self, n, sts):
        decls = []
        if n.c[0] is not None:
            sts = self.stmt(n.c[0], sts)
            if n.c[0].k == 'Decl':
                decls = list(n.c[0].c)
        out = self.loop(sts, n.c[1], n.c[3], n.c[2])
        return self.merge([self.leave(decls, st, n) for st in out]) if decls else out

    def s_While(self, n, sts):
        return self.loop(sts, n.c[0], n.c[1], None)

    def s_Do(self, n, sts):
        return self.loop(sts, n.c[1], n.c[0], None, True)

    def s_ForRange(self, n, sts):
        sts = self.merge([s for st in sts for s, v in self.full(n.c[0], st)])
        out = list(sts)
        ctl = Ctl()
        self.loops.append(ctl)
        seen = set(out)
        work = list(sts)
        for it in range(self.LOOPS):
            work = self.merge([self.bind(n.c[1], s, None) for s in work])
            b = self.merge(self.stmt(n.c[2], work) + ctl.cont)
            ctl.cont = []
            work = [s for s in b if s not in seen]
            if not work:
                break
            for s in work:
                seen.add(s)
            out += work
        self.loops.pop()
        return self.merge(out + ctl.brk)

    def s_Switch(self, n, sts):
        vals = []
        for st in sts:
            vals += self.full(n.c[0], st)
        body = n.c[1]
        items = []

        def flatten(c):
            if c.k in ('Case', 'Default'):
                items.append(c)
                sub = c.c[-1]
                if sub is not None:
                    flatten(sub)
            else:
                items.append(c)
        for c in body.c:
            if c is not None:
                flatten(c)
        ctl = Ctl()
        self.loops.append(ctl)
        cur = []
        hasdef = False
        decls = []
        for c in items:
            if c.k in ('Case', 'Default'):
                hasdef = hasdef or c.k == 'Default'
                for st, v in vals:
                    cur = cur + self.assume_case(n.c[0], v, c, items, st)
                cur = self.merge(cur)
            else:
                cur = self.stmt(c, cur)
        if not hasdef:
            for st, v in vals:
                cur = cur + self.assume_case(n.c[0], v, None, items, st)
        self.loops.pop()
        # continue inside a switch belongs to the enclosing loop
        if ctl.cont and self.loops:
            self.loops[-1].cont += ctl.cont
        return self.merge(cur + ctl.brk)

    def assume_case(self, cond, v, case, items, st):    # HOOK
        return [st]

    def s_Break(self, n, sts):
        if self.loops:
            self.loops[-1].brk += sts
        return []

    def s_Continue(self, n, sts):
        if self.loops:
            self.loops[-1].cont += sts
        return []

    def s_Nop(self, n, sts):
        return sts

    def s_Goto(self, n, sts):
        l = self.gotos.setdefault(n.a, [])
        for s in sts:
            if s not in l:
                l.append(s)
        return []

    def s_Label(self, n, sts):
        sts = self.merge(list(sts) + self.gotos.setdefault(n.a, []))
        return self.stmt(n.c[0], sts) if sts else []

    def s_Return(self, n, sts):
        for st in sts:
            if n.c and n.c[0] is not None:
                for s, v in self.full(n.c[0], st):
                    self.exits.append(('return', n, s, v))
            else:
                self.exits.append(('return', n, st, None))
        return []

    def s_Try(self, n, sts):
        box = []
        self.tries.append((box, catches_all(n)))
        out = self.stmt(n.c[0], sts)
        self.tries.pop()
        hin = self.merge(box)
        for h in n.c[1:]:
            if hin:
                out = out + self.stmt(h.c[0], [self.catch(h, s) for s in hin])
        return self.merge(out)

    def catch(self, h, st):              # HOOK: entering an exception handler
        return st

    def raise_(self, n, st):
        """an exception may leave the current point in state st"""
        i = len(self.tries) - 1
        while i >= 0:
            box, allc = self.tries[i]
            box.append(st)
            if allc:
                return
            i -= 1
        self.exits.append(('throw', n, st, None))

    def s_OMP(self, n, sts):
        d = n.a[0]
        if 'parallel' in d or 'for' in d.split():
            return self.omp_region(n, sts)
        for c in n.c:
            if c is not None:
                sts = self.stmt(c, sts)
        return sts

    def omp_region(self, n, sts):        # HOOK
        for c in n.c:
            if c is not None:
                sts = self.stmt(c, sts)
        return sts

    def s_Catch(self, n, sts):
        return self.stmt(n.c[0], sts)

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        """evaluates an expression: list of (state, value)"""
        if n is None:
            return [(st, None)]
        k = n.k
        if k == 'Cond':
            if self.condpick(n) is not None:
                return self.ev(self.condpick(n), st)
            t, f = self.branch(n.c[0], st)
            res = []
            for ss, e in ((t, n.c[1]), (f, n.c[2])):
                for s in ss:
                    res += self.ev(e, s)
            return self.mergev(res)
        if k == 'Bin' and n.a in ('&&', '||') or k == 'Un' and n.a == '!':
            t, f = self.branch(n, st)
            return self.mergev([(s, TRUE) for s in t] + [(s, FALSE) for s in f])
        if k == 'Lambda':
            return self.lambda_(n, st)
        if k in ('Bool',):
            return [(st, ('b', str(n.a).lower() not in ('false', '0')))]
        if k == 'Throw':
            sts = [st]
            for c in n.c:
                if c is not None:
                    sts = [s for x in sts for s, v in self.ev(c, x)]
            for s in sts:
                self.throwstmt(n, s)
            return []
        m = getattr(self, 'x_' + k, None)
        if m:
            return m(n, st)
        cur = [(st, ())]
        for c in n.c:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(c, s):
                    nxt.append((s2, vs + (v,)))
            cur = self.mergev(nxt)
        res = []
        for s, vs in cur:
            res += self.post(n, s, vs)
        return self.mergev(res)

    def condpick(self, n):               # HOOK: the only relevant alternative of a conditional expression
        return None

    def throwstmt(self, n, st):          # HOOK
        self.raise_(n, st)

    def lambda_(self, n, st):
        return [(st, None)]

    def mergev(self, l):
        if len(l) < 2:
            return l
        seen = set()
        res = []
        for x in l:
            if x not in seen:
                seen.add(x)
                res.append(x)
        if len(res) > 4 * self.K:
            byv = {}
            for s, v in res:
                byv.setdefault(v, []).append(s)
            res = []
            if len(byv) > 2 * self.K:
                allst = [s for ss in byv.values() for s in ss]
                byv = {None: allst}
            for v, ss in byv.items():
                for s in self.merge(ss) if len(ss) > self.K // 2 else ss:
                    res.append((s, v))
        return res

    def post(self, n, st, vals):         # HOOK: value and effect of an operation whose operands are evaluated
        return [(st, None)]
