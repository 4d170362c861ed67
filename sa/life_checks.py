"""Lifetimes of objects that refer to others (used by C17).

Each expression is evaluated to the set of regions in which the denoted object lives and the set of regions its value
borrows (refers to without owning).  Regions:
  ('L', var)      a local variable (or a parameter passed by value)
  ('T', node)     a temporary, destroyed at the end of the full expression
  ('N', node)     an object created on the heap (never destroyed as long as somebody owns it)
  ('P', i)        the caller's object bound to the i-th parameter of reference type
  THIS            the object whose method is executed
  ('H', r)        whatever is borrowed by the value stored in r (r: THIS or the i-th parameter)
  ('F', f, r)     what is owned by the smart pointer stored in the field f of an object in r
  ('E', r)        the elements of the container in r, or the object owned by the smart pointer in r
  ('S', r)        not a region, but a token meaning that ownership is shared with the smart pointer stored in r
Functions are summarised by the regions of what they return and by the borrowed regions they store into their
object and their parameters; the summaries are iterated to a fixpoint over the program.
"""
from core import *

THIS = ('THIS',)
SP = 'std::shared_ptr<'
OWNERS = (SP, 'std::unique_ptr<', 'std::auto_ptr<')
NOHOLD = ('_object', 'PyObject', '_typeobject', 'PyTypeObject', 'tagPyArrayObject', '_PyArray', 'PyArray_', 'FILE', '_IO_FILE', 'gsl_', '_ts', 'PyThreadState',
          'PyMethodDef', 'PyModuleDef', 'PyGetSetDef', 'char', 'void')
DEREF = ('operator*', 'operator->', 'get', 'front', 'back', 'at', 'operator[]', 'base')
ITER = ('begin', 'end', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'data', 'c_str', 'cbegin', 'cend', 'insert', 'erase')
E0 = frozenset()


def tname(t):
    while t is not None and t.k in ('ref', 'rref'):
        t = t.sub
    s = (t.s or '') if t is not None else ''
    return s[6:] if s.startswith('const ') else s


def isref(t):
    return t is not None and t.k in ('ref', 'rref')


def smart(t):
    return tname(t).startswith(OWNERS)


def owner(t):
    """a smart pointer or a container of them"""
    s = tname(t)
    return s.startswith(OWNERS) or s.startswith('std::vector<' + SP)


def name(key):
    s = qual(key)
    depth = 0
    for i in range(len(s) - 1, 0, -1):
        if s[i] == '>' and not s.startswith('operator', i - 8) and s[i - 1] != '-':
            depth += 1
        elif s[i] == '<':
            depth -= 1
        elif s[i] == ':' and depth <= 0 and s[i - 1] == ':':
            return s[i + 1:]
    return s


def root(r):
    while r[0] in ('F', 'S', 'E'):
        r = r[-1]
    return r


def depth(r):
    n = 0
    while r[0] in ('F', 'E'):
        n += r[0] == 'F'
        r = r[-1]
    return n


def inside(rs):
    """elements of the containers, or pointees of the smart pointers, in the given regions"""
    return frozenset(r if r[0] in ('E', 'G') else ('E', r) for r in rs if r[0] != 'S')


def owned(r, shared):
    """is r the object behind one of the given smart pointers, or something in it"""
    e = False
    while True:
        if r in shared and (e or r[0] == 'E'):
            return True
        if r[0] not in ('F', 'E'):
            return False
        e = e or r[0] == 'E'
        r = r[-1]


def fields(key, rs):
    return frozenset(r if r[0] in ('T', 'G', 'N') else ('F', key, r) if depth(r) < 3 else ('F', '*', root(r)) for r in rs)


def steps(r):
    """the region and those that contain it"""
    while True:
        yield r
        if r[0] not in ('F', 'E'):
            return
        r = r[-1]


CHANGES = {'std::vector<': ('push_back', 'resize', 'clear', 'insert', 'erase', 'assign', 'reserve', 'swap', 'operator=', 'emplace_back'),
           'std::basic_string<': ('push_back', 'resize', 'clear', 'insert', 'erase', 'assign', 'reserve', 'swap', 'operator=', 'append', 'operator+='),
           'std::shared_ptr<': ('reset', 'operator=', 'swap'), 'std::__shared_ptr<': ('reset', 'operator=', 'swap'),
           'std::unique_ptr<': ('reset', 'operator=', 'swap'), 'std::map<': ('erase', 'clear', 'operator='), 'std::set<': ('erase', 'clear', 'operator='),
           'std::list<': ('erase', 'clear', 'operator='), 'std::deque<': ('push_back', 'push_front', 'resize', 'clear', 'insert', 'erase', 'assign', 'operator=')}


def changes(cls, nm):
    nm = nm.split('<')[0] if not nm.startswith('operator') else nm
    return any(cls.startswith(c) and nm in m for c, m in CHANGES.items())


SMART = set()       # fields that are smart pointers


def sure(rs):
    """regions that denote a single container"""
    return frozenset(r for r in rs if not any(x[0] == 'E' and not (x[1][0] == 'F' and x[1][1] in SMART) or x[0] == 'F' and x[1] == '*' for x in steps(r)) and root(r)[0] not in ('G', 'T', 'N', 'S'))


class Summary(object):
    __slots__ = ('locs', 'helds', 'eff', 'inv')

    def __init__(self):
        self.locs = E0
        self.helds = E0
        self.eff = {}
        self.inv = E0

    def merge(self, o):
        ch = False
        if not o.inv <= self.inv:
            self.inv |= o.inv
            ch = True
        if not o.locs <= self.locs:
            self.locs |= o.locs
            ch = True
        if not o.helds <= self.helds:
            self.helds |= o.helds
            ch = True
        for d, s in o.eff.items():
            x = self.eff.get(d, E0)
            if not s <= x:
                self.eff[d] = x | s
                ch = True
        return ch


class Lifetimes(object):
    def __init__(self, prog):
        self.p = prog
        prog.method_info()
        self.sum = {}
        self.callers = {}
        self.sites = {}     # constructor -> {(place, index of the argument): regions the argument lives in}
        self._hold = {}
        self.selfref = {}       # classes whose objects refer to themselves
        self.own = {}
        for k, f in prog.functions.items():
            if (f.body is not None or f.inits) and not f.file.startswith('/') and 'torus/' not in f.file:
                self.own[k] = f
        self.reports = {}
        self.count = {}

    # ---- types
    def canhold(self, t):
        if t is None:
            return True
        if t.k in ('float', 'int', 'uint', 'bool', 'void', 'enum'):
            return False
        if t.k == 'rec' and 'terator' in t.s:
            return True
        if isref(t):
            return self.canhold(t.sub)
        return self.holds(tname(t), t.k)

    def holds(self, s, kind='rec'):
        r = self._hold.get(s)
        if r is not None:
            return r
        self._hold[s] = False
        self._hold[s] = r = self._holds(s, kind)
        return r

    def _holds(self, s, kind):
        s = s.replace('const ', '').strip()
        if '(*)' in s or '(' in s and kind in ('ptr', 'func'):
            return False
        if s.endswith('*') or s.endswith('*const'):
            b = s.replace('*', '').replace('const', '').strip()
            if b.startswith('pygama::') and b.endswith('Object'):
                return False
            return not b.startswith(NOHOLD) or b == 'char'
        if s.endswith('&'):
            return True
        if s.startswith('std::basic_string<'):
            return False
        if s.startswith('std::'):
            if any(x in s for x in OWNERS) or '*' in s or 'reference_wrapper' in s:
                return True
            if s.startswith(('std::vector<', 'std::map<', 'std::pair<', 'std::set<', 'std::list<', 'std::deque<')):
                return any(self.holds(x) for x in self.p.classes if x in s)
            return False
        if '[' in s:
            return self.holds(s[:s.index('[')].strip())
        c = self.p.classes.get(s)
        if c is None:
            return False
        for fl in c.fields:
            t = [x for x in fl if hasattr(x, 'k')]
            if t and (isref(t[0]) or self.canhold(t[0])):
                return True
        return any(self.holds(b) for b in self.p.bases_of(s))

    # ---- fixpoint
    def run(self):
        for k in self.own:
            self.sum[k] = Summary()
        work = list(self.own)
        inq = set(work)
        n = 0
        while work:
            k = work.pop(0)
            inq.discard(k)
            n += 1
            if n > 40 * len(self.own):
                raise AnalysisError('lifetimes: no fixpoint')
            s = Body(self, self.own[k]).analyse()
            if self.sum[k].merge(s):
                for c in self.callers.get(k, ()):
                    if c not in inq:
                        inq.add(c)
                        work.append(c)
        self.passes = n

    def internal(self, key, i):
        """an object of an auxiliary class that is only ever created inside the object that owns what it refers to"""
        s = [l for j, l in self.sites.get(key, {}).values() if j == i]
        return s and all(l and all(root(r) == THIS for r in l) for l in s)

    def selfclosure(self):
        ch = True
        while ch:
            ch = False
            for k, c in self.p.classes.items():
                if k in self.selfref:
                    continue
                for b in self.p.bases_of(k):
                    if b in self.selfref:
                        self.selfref[k] = self.selfref[b]
                        ch = True
                for fl in c.fields:
                    for t in fl:
                        if hasattr(t, 'k') and t.k == 'rec' and tname(t) in self.selfref and k not in self.selfref:
                            self.selfref[k] = self.selfref[tname(t)]
                            ch = True

    def check(self, rep):
        for k in sorted(self.own):
            b = Body(self, self.own[k])
            b.analyse()
            b.report(rep)


class Body(object):
    def __init__(self, E, f):
        self.E = E
        self.f = f
        self.pidx = {}
        self.pt = []
        for i, q in enumerate(f.params):
            self.pidx[q[0]] = i
            self.pt.append(q[2])
        self.bind = {}      # reference variables: regions of the object they are bound to
        self.cont = {}      # region -> borrowed regions
        self.vars = {}      # id -> (name, type, node)
        self.stat = set()
        self.nodes = {}
        self.out = Summary()
        self.changed = False
        self.returns = []
        self.stores = []
        self.inits = []
        self.final = False

    # ---- regions
    def contents(self, r):
        k = r[0]
        x = self.cont.get(r, E0)
        if k == 'P':
            x = x | {('H', r[1])}
        elif k == 'THIS':
            x = x | {('H', THIS)}
        elif k == 'H':
            x = x | {r}
        elif k in ('F', 'E'):
            x = x | self.contents(r[-1])
        elif k == 'L' and r[1] in self.pidx:
            x = x | {('H', self.pidx[r[1]])}
        return x

    def conts(self, rs):
        o = E0
        for r in rs:
            if r[0] != 'S':
                o |= self.contents(r)
        return o

    def put(self, r, hs):
        if r[0] == 'S':
            return
        x = self.cont.get(r, E0)
        hs = frozenset(h for h in hs if h != r)
        if not hs <= x:
            self.cont[r] = x | hs
            self.changed = True
        if r[0] in ('F', 'E'):
            self.put(r[-1], hs)

    def expand(self, hs):
        """replaces heap objects by what they borrow, and drops what is co-owned"""
        seen = set()
        out = set()
        st = list(hs)
        while st:
            r = st.pop()
            if r in seen:
                continue
            seen.add(r)
            if r[0] == 'N':
                st += self.contents(r)
            else:
                out.add(r)
        shared = [r[1] for r in out if r[0] == 'S']
        if shared:
            out = set(r for r in out if r[0] == 'S' or not owned(r, shared))
        return frozenset(out)

    def token(self, locs, t):
        """a copy of a smart pointer living in the given regions"""
        if owner(t):
            return frozenset(('S', r) for r in locs if r[0] != 'T')
        return E0

    # ---- expressions: returns (regions of the object, borrowed by its value)
    def ev(self, n):
        if n is None:
            return E0, E0
        m = getattr(self, 'e_' + n.k, None)
        if m is not None:
            return m(n)
        o1, o2 = E0, E0
        for c in n.c:
            a, b = self.ev(c)
            o2 |= b
        if not self.E.canhold(n.t):
            o2 = E0
        return o1, o2

    def e_This(self, n):
        return E0, frozenset([THIS])

    def e_Ref(self, n):
        k = n.a[0]
        if k == 'L':
            v = n.a[1]
            if v in self.stat:
                return frozenset([('G', n.a[2])]), E0
            i = self.pidx.get(v)
            if i is not None:
                t = self.pt[i]
                if isref(t):
                    r = ('P', i)
                else:
                    r = ('L', v)
                return frozenset([r]), self.contents(r) if self.E.canhold(t) or t.k == 'ptr' else E0
            if v in self.bind:
                b = self.bind[v]
                return b, self.conts(b) if self.E.canhold(n.t) else E0
            r = ('L', v)
            return frozenset([r]), self.contents(r)
        if k == 'G':
            return frozenset([('G', n.a[1])]), E0
        return E0, E0

    def e_Member(self, n):
        l, h = self.ev(n.c[0]) if n.c else (frozenset(), frozenset())
        base = h if n.a[2] else l
        base = frozenset(r for r in base if r[0] != 'S')
        if n.a[0] != 'M':
            return base, E0
        c = n.a[1].rsplit('::', 1)[0] if n.a[1] else None
        ft = None
        try:
            ft = self.E.p.field(c, n.a[3])
            ft = [x for x in ft if hasattr(x, 'k')][0] if ft is not None else None
        except Exception:
            ft = None
        if ft is not None and isref(ft):
            x = self.conts(base)
            return frozenset(r for r in x if r[0] != 'S'), self.conts(x) if self.E.canhold(n.t) else E0
        hs = self.conts(base) if self.E.canhold(n.t) else E0
        if smart(n.t):
            SMART.add(n.a[1])
        if n.t is not None and n.t.k == 'rec':
            base = fields(n.a[1], base)
        return base, hs

    def e_Un(self, n):
        l, h = self.ev(n.c[0])
        if n.a == '*':
            h = frozenset(r for r in h if r[0] != 'S')
            return h, self.conts(h)
        if n.a == '&':
            return E0, l
        if n.a in ('++', '--'):
            return l, h
        return E0, h

    def e_Idx(self, n):
        l, h = self.ev(n.c[0])
        self.ev(n.c[1])
        h = inside(h)
        return h, self.conts(h)

    def e_Cast(self, n):
        l, h = self.ev(n.c[0]) if n.c else (E0, E0)
        k = n.a[0]
        if k == 'ArrayToPointerDecay':
            return E0, l | h
        if k == 'LValueToRValue':
            return E0, h
        if not self.E.canhold(n.t) and n.t is not None and n.t.k in ('float', 'int', 'uint', 'bool'):
            return E0, E0
        return l, h

    def e_DefArg(self, n):
        return self.ev(n.c[0]) if n.c else (E0, E0)

    def e_Cond(self, n):
        self.ev(n.c[0])
        a, b = self.ev(n.c[1])
        c, d = self.ev(n.c[2])
        return a | c, b | d

    def e_Bin(self, n):
        a, b = self.ev(n.c[0])
        c, d = self.ev(n.c[1])
        if n.a == ',':
            return c, d
        return E0, b | d if n.t is not None and n.t.k == 'ptr' else E0

    def e_Assign(self, n):
        a, b = self.ev(n.c[0])
        c, d = self.ev(n.c[1])
        self.store(n, n.c[0], a, d, n.c[0].t)
        return a, d

    def e_AssignOp(self, n):
        a, b = self.ev(n.c[0])
        self.ev(n.c[1])
        return a, b

    def store(self, n, lhs, locs, hs, t):
        if t is not None and t.k == 'ptr':
            if not self.E.canhold(t) and not (lhs is not None and lhs.k == 'Ref'):
                return
        elif not self.E.canhold(t):
            return
        for r in locs:
            self.put(r, hs)
        if self.final:
            self.stores.append((n, locs, hs, t))
            for r in locs:
                if root(r)[0] == 'L':
                    self.borrows.append((root(r)[1], n, hs))

    def e_NewE(self, n):
        r = ('N', id(n))
        self.nodes[r] = n
        hs = E0
        for c in n.c:
            l, h = self.ev(c)
            if c is not None and c.k != 'Cast':
                hs |= h
            elif c is not None and n.a and n.a[1]:      # placement new
                return E0, h
        self.put(r, hs)
        return E0, frozenset([r])

    def temp(self, n, hs):
        r = ('T', id(n))
        self.nodes[r] = n
        self.put(r, hs)
        return frozenset([r])

    def e_New0(self, n):
        key = n.a[0]
        args = n.c
        vals = [self.ev(c) for c in args]
        t = n.t
        if t is not None and t.k == 'arr':
            t2 = t.sub
        else:
            t2 = t
        hs = E0
        s = tname(t2)
        f = self.E.own.get(key)
        if f is not None:
            self.E.callers.setdefault(key, set()).add(self.f.key)
            sm = self.E.sum[key]
            if self.final:
                for i, v in enumerate(vals):
                    self.E.sites.setdefault(key, {})[self.f.key, id(n), i] = (i, v[0])
            M = self.mapper(n, f, vals, None, args)
            hs = self.mapset(sm.eff.get(THIS, E0), M) - {THIS}
            self.effects(n, sm, M)
        elif self.E.canhold(t2):
            if self.final and len(args) == 1 and args[0] is not None and tname(args[0].t) == s:
                e = strip_casts(args[0])
                if e.k in ('Ref', 'Member', 'Idx', 'Un', 'This') or isref(self.rett(e)):
                    self.copies.append((n, s))
            for i, (l, h) in enumerate(vals):
                if s.startswith(OWNERS) and i > 0 and not (args[0] is not None and args[0].t is not None and owner(args[0].t)):
                    break       # a deleter; otherwise the aliasing constructor
                if s.startswith('std::reference_wrapper'):
                    h = l
                hs |= h
                if args[i] is not None:
                    hs |= self.token(l, args[i].t)
                    if owner(args[i].t) is False and self.E.canhold(args[i].t):
                        # copies of objects that contain smart pointers share them, too
                        hs |= frozenset(('S', r) for r in l if r[0] != 'T' and args[i].t is not None and self.hasowner(tname(args[i].t)))
        return self.temp(n, hs), hs

    def rett(self, e):
        k = e.a[0] if e.k in CALLS else None
        f = self.E.p.functions.get(k) if k else None
        return f.ret if f is not None else None

    def hasowner(self, s):
        c = self.E.p.classes.get(s)
        if c is None:
            return False
        return any(hasattr(x, 'k') and owner(x) for fl in c.fields for x in fl)

    # ---- calls
    def mapper(self, n, f, vals, obj, args):
        return (n, f, vals, obj, args)

    def mapreg(self, r, M):
        n, f, vals, obj, args = M
        k = r[0]
        if k == 'P':
            return vals[r[1]][0] if r[1] < len(vals) else E0
        if k == 'THIS':
            if obj is None:
                return frozenset([THIS])        # of the object being constructed: filtered out by the caller
            return obj[0]
        if k == 'H':
            if r[1] == THIS:
                return (obj[1] | self.conts(obj[0])) if obj is not None else E0
            if r[1] < len(vals):
                return vals[r[1]][1] | self.conts(vals[r[1]][0])
            return E0
        if k == 'F':
            b = self.mapreg(r[2], M)
            return fields(r[1], b)
        if k == 'E':
            return inside(self.mapreg(r[1], M))
        if k == 'S':
            b = self.mapreg(r[1], M)
            return frozenset(('S', x) for x in b if x[0] not in ('S', 'T'))
        return frozenset([r])

    def mapset(self, rs, M):
        o = E0
        for r in rs:
            if r == THIS and M[3] is None:
                continue
            o |= self.mapreg(r, M)
        return o

    def effects(self, n, sm, M):
        if sm.inv and self.final:
            i = E0
            for r in sm.inv:
                if root(r) != THIS or M[3] is not None:
                    i |= self.mapreg(r, M)
            i = sure(i)
            if i:
                self.inval.append((n, i))
        for d, hs in sm.eff.items():
            if d == THIS and M[3] is None:
                continue
            if d[0] == 'N':
                continue
            ds = self.mapreg(d, M)
            h2 = self.mapset(hs, M)
            for r in ds:
                if r[0] != 'S':
                    self.put(r, h2)
            if self.final:
                self.stores.append((n, ds, h2, None))
                for r in ds:
                    if root(r)[0] == 'L':
                        self.borrows.append((root(r)[1], n, h2))

    def call(self, n, key, virt, obj, args):
        vals = [self.ev(c) for c in args]
        t = n.t
        if key is None:
            return E0, E0
        targets = [k for k in self.E.p.targets(key, bool(virt)) if k in self.E.own]
        if targets:
            L, H = E0, E0
            for k in targets:
                self.E.callers.setdefault(k, set()).add(self.f.key)
                f = self.E.own[k]
                sm = self.E.sum[k]
                M = self.mapper(n, f, vals, obj, args)
                L |= self.mapset(sm.locs, M)
                H |= self.mapset(sm.helds, M)
                self.effects(n, sm, M)
            f = self.E.own[targets[0]]
            if isref(f.ret):
                return frozenset(r for r in L if r[0] != 'S'), H | self.conts(L) if self.E.canhold(f.ret) else E0
            if f.ret.k == 'ptr':
                return E0, H
            if not self.E.canhold(f.ret):
                H = E0
            if f.ret.k == 'rec':
                return self.temp(n, H), H
            return E0, H
        return self.external(n, key, obj, args, vals)

    def rettype(self, n, key):
        """return type of an external function, as far as it can be told from the expression"""
        return n.t

    def external(self, n, key, obj, args, vals):
        q = qual(key)
        nm = name(key)
        t = n.t
        if not key.startswith('std::') and not key.startswith('__gnu') and not key.startswith('operator'):
            if obj is not None and nm.startswith('operator='):
                # implicit assignment of a class of this library
                if vals:
                    self.store(n, None, obj[0], vals[0][1], None)
                return obj[0], obj[1]
            if t is not None and t.k == 'ptr' and not obj and ('New' in q or 'lloc' in q or 'Alloc' in q):
                r = ('N', id(n))
                self.nodes[r] = n
                return E0, frozenset([r])
            if obj is not None:
                # an implicitly defined or pure virtual method
                return E0, E0
            return E0, E0
        if obj is not None:
            locs, hs = obj
            cls = q[:-len(nm)]
            if self.final and changes(cls, nm):
                self.inval.append((n, locs))
            if 'iterator' in cls or 'reference_wrapper' in cls:
                inner = hs
            else:
                inner = locs
            if nm in DEREF:
                inner = frozenset(r for r in inner if r[0] != 'S')
                if inner is not hs and 'iterator' not in cls and 'reference_wrapper' not in cls:
                    inner = inside(inner)
                if t is not None and t.k == 'ptr':
                    return E0, inner
                return inner, self.conts(inner) if self.E.canhold(t) else E0
            if nm in ITER:
                for i, (l, h) in enumerate(vals):
                    if nm == 'insert':
                        self.store(n, None, locs, h | (self.token(l, args[i].t) if args[i] is not None else E0), None)
                return E0, inside(locs) if self.E.canhold(t) else E0
            h = E0
            for i, v in enumerate(vals):
                if args[i] is not None and self.E.canhold(args[i].t):
                    h |= v[1] | self.token(v[0], args[i].t)
                if smart_cls(cls):
                    break
            const = key.endswith(' const')
            if not const and nm not in ('swap', 'clear') and h:
                oname = tname(n.c[0].t) if n.c and n.c[0] is not None else ''
                if self.E.holds(cls.rstrip(':')) or self.E.holds(oname):
                    self.store(n, None, locs, h, None)
            if nm.startswith('operator') and nm != 'operator()' and nm[8:9] in '=+-<>':
                return locs, hs
            if t is not None and self.E.canhold(t):
                return E0, hs
            return E0, E0
        h = E0
        l = E0
        for i, v in enumerate(vals):
            l |= v[0]
            if args[i] is not None and self.E.canhold(args[i].t):
                h |= v[1] | self.token(v[0], args[i].t)
        if nm.startswith(('ref<', 'cref<')) or nm in ('ref', 'cref'):
            return E0, l
        if nm.split('<')[0] in ('max', 'min', 'forward', 'move'):
            return l, h
        if not self.E.canhold(t):
            h = E0
        return E0, h

    def e_Call(self, n):
        if n.a[0] is None and n.c and n.c[0] is not None:
            self.ev(n.c[0])
        return self.call(n, n.a[0], n.a[1], None, n.c[1:])

    def e_MCall(self, n):
        o = self.object(n.c[0], n)
        return self.call(n, n.a[0], n.a[1], o, n.c[1:])

    def object(self, c, n):
        if c is None:
            return frozenset([THIS]), self.contents(THIS)
        l, h = self.ev(c)
        if c.t is not None and c.t.k == 'ptr':
            h = frozenset(r for r in h if r[0] != 'S')
            return h, self.conts(h)
        return l, h

    def e_OpCall(self, n):
        key = n.a[0]
        if key is None:
            return E0, E0
        f = self.E.own.get(key)
        ismethod = key in self.E.p.methods or (f is not None and f.cls) or self.memberop(key, n)
        if ismethod:
            o = self.object(n.c[0], n)
            r = self.call(n, key, n.a[1], o, n.c[1:])
            if n.t is not None and n.t.k == 'ptr' and name(key) == 'operator->':
                return r
            return r
        return self.call(n, key, n.a[1], None, n.c)

    def memberop(self, key, n):
        nm = name(key)
        if not nm.startswith('operator'):
            return False
        q = qual(key)
        if q == nm or not (key.startswith('std::') or key.startswith('__gnu')):
            return q != nm and any(q == c + '::' + nm for c in (tname(n.c[0].t),))
        # free operators of namespace std have as many parameters as operands
        return q.count('::') > 1 and '>::' + nm in q

    # ---- statements
    def e_Var(self, n):
        v, nm, g = n.a[0], n.a[1], n.a[2] if len(n.a) > 2 else None
        if g is not None:
            self.stat.add(v)
            l, h = self.ev(n.c[0]) if n.c else (E0, E0)
            if self.final and n.c:
                self.stores.append((n, frozenset([('G', nm)]), h, n.t))
            return E0, E0
        self.vars[v] = (nm, n.t, n)
        l, h = self.ev(n.c[0]) if n.c else (E0, E0)
        if isref(n.t):
            e = strip_casts(n.c[0]) if n.c else None
            direct = frozenset()
            if e is not None:
                ext = ('T', id(e))
                if ext in l:
                    # lifetime of a temporary is extended
                    l = (l - {ext}) | {('L', v)}
                    self.put(('L', v), self.contents(ext))
            old = self.bind.get(v, E0)
            if not l <= old:
                self.bind[v] = old | l
                self.changed = True
        elif self.E.canhold(n.t) or n.t.k == 'ptr':
            e = n.c[0] if n.c else None
            if e is not None and not (n.t.k == 'ptr'):
                h = h | self.token(l, e.t)
            h = frozenset(r for r in h if not (r[0] == 'T' and e is not None and self.nodes.get(r) is strip_casts(e)))
            self.put(('L', v), h)
        if self.final:
            self.inits.append((n, l if isref(n.t) else h))
            self.borrows.append((v, n, l if isref(n.t) else h))
        return E0, E0

    def e_Return(self, n):
        l, h = self.ev(n.c[0]) if n.c else (E0, E0)
        if self.f.ret.k == 'void' or not n.c:
            return E0, E0
        if isref(self.f.ret):
            self.out.locs |= l
            self.out.helds |= h
            if self.final:
                self.returns.append((n, l))
        else:
            e = n.c[0]
            h = h | self.token(l, e.t)
            if self.E.canhold(self.f.ret) or self.f.ret.k == 'ptr':
                x = self.expand(h)
                self.out.helds |= x
                if self.final:
                    self.returns.append((n, x))
        return E0, E0

    def e_For(self, n):
        for c in n.c:
            self.ev(c)
        return E0, E0

    def block(self, n):
        for c in n.c:
            self.ev(c)
        return E0, E0
    e_Block = e_Decl = e_If = e_While = e_Do = e_Switch = e_Case = e_Default = e_Try = e_Catch = e_OMP = block

    def analyse(self):
        for it in range(12):
            self.changed = False
            self.one()
            if not self.changed:
                break
        self.final = True
        self.returns, self.stores, self.inits = [], [], []
        self.inval, self.borrows, self.copies = [], [], []
        self.one()
        for r, hs in self.cont.items():
            if root(r)[0] in ('P', 'H', 'THIS') and r[0] != 'S':
                x = self.root_dst(r)
                self.out.eff[x] = self.out.eff.get(x, E0) | self.expand(hs)
        if self.f.cls:
            for r in self.expand(self.cont.get(THIS, E0)):
                if root(r) == THIS and r[0] != 'S' and not any(x[0] == 'F' and (x[1] in SMART or x[1] == '*') for x in steps(r)):
                    self.E.selfref.setdefault(self.f.cls, (self.f, r))
        for x in list(self.out.eff):
            self.out.eff[x] = frozenset(r for r in self.expand(self.out.eff[x]) if r != x and r != ('H', x[1] if x[0] == 'P' else x))
        self.out.inv = frozenset(r for n, locs in self.inval for r in sure(locs) if root(r)[0] in ('P', 'THIS'))
        # a function's own locals and temporaries are meaningless to its callers (and reported here)
        loc = lambda s: frozenset(r for r in s if root(r)[0] not in ('L', 'T', 'N', 'G') and not (r[0] == 'S' and root(r)[0] in ('L', 'T', 'N', 'G')))
        # a by-value parameter co-owns what the caller's pointer owned
        self.out.locs = loc(self.out.locs)
        self.out.helds = loc(self.out.helds)
        self.out.eff = {k: loc(v) for k, v in self.out.eff.items()}
        self.out.eff = {k: v for k, v in self.out.eff.items() if v}
        return self.out

    def root_dst(self, r):
        return root(r)

    def one(self):
        f = self.f
        for kind, key, written, e in f.inits:
            l, h = self.ev(e)
            if kind == 'M':
                c = key.rsplit('::', 1)[0]
                ft = self.E.p.field(c, key.rsplit('::', 1)[1])
                t = [x for x in ft if hasattr(x, 'k')][0] if ft is not None else None
                if t is not None and isref(t):
                    self.put(THIS, l)
                    if self.final:
                        self.stores.append((e, frozenset([THIS]), l, None))
                    continue
                if t is not None and not self.E.canhold(t):
                    continue
                if e is not None:
                    h = h | self.token(l, e.t)
            h = frozenset(r for r in h if not (r[0] == 'T' and self.nodes.get(r) is strip_casts(e)))
            self.put(THIS, h)
            if self.final:
                self.stores.append((e, frozenset([THIS]), h, None))
        if f.body is not None:
            self.ev(f.body)

    # ---- violations
    def say(self, r):
        k = r[0]
        if k == 'L':
            if r[1] in self.pidx:
                return "the parameter '%s' passed by value" % self.f.params[self.pidx[r[1]]][1]
            return "the local variable '%s'" % self.vars.get(r[1], ('?',))[0]
        if k == 'T':
            n = self.nodes.get(r)
            return 'a temporary %s' % (tname(n.t)[:60] if n is not None else '')
        if k == 'P':
            return "the argument '%s'" % self.f.params[r[1]][1]
        if k == 'H':
            return 'something referred to by %s' % (self.say(('P', r[1])) if r[1] != THIS else 'this object')
        if k == 'THIS':
            return 'the object itself'
        if k == 'F':
            return "the member '%s' of %s" % (r[1].rsplit('::', 1)[-1], self.say(r[2]))
        if k == 'E':
            return 'what is owned by ' + self.say(r[1])
        return str(r)

    def ispy(self, r):
        """a Python object given as an argument"""
        r = root(r)
        if r[0] == 'H' and r[1] != THIS:
            t = self.pt[r[1]]
        elif r[0] == 'L' and r[1] in self.pidx:
            return False
        else:
            return False
        return t.k == 'ptr' and ('_object' in t.s or 'PyObject' in t.s or t.s.startswith('pygama::'))

    def tag(self, r):
        return self.say(r)

    def report(self, rep):
        f = self.f
        fn = qual(f.key)
        seen = set()

        def bad(rule, n, r, msg):
            k = '%s|%s' % (fn, self.say(r))
            if (rule, k) not in seen:
                seen.add((rule, k))
                rep.bad(rule, k, f.loc(n), msg)
        for n, hs in self.inits:
            x = [r for r in self.expand(hs) if root(r)[0] == 'T']
            if x:
                bad('variable', n, x[0], "%s: '%s' refers to %s, which is destroyed at the end of this declaration" % (fn, n.a[1], self.say(x[0])))
            elif isref(n.t) or self.E.canhold(n.t):
                rep.ok('variable', fn)
        for n, hs in self.returns:
            x = [r for r in hs if root(r)[0] in ('L', 'T') and r[0] != 'S' and not self.elsewhere(r)]
            if x:
                bad('return', n, x[0], '%s returns something that refers to %s' % (fn, self.say(x[0])))
                continue
            rep.ok('return', fn)
            if owner(f.ret) and not isref(f.ret):
                x = [r for r in hs if root(r)[0] in ('P', 'THIS') and r[0] != 'S']
                if x:
                    bad('shared', n, x[0], '%s returns a shared object that refers to %s without sharing its ownership' % (fn, self.say(x[0])))
                else:
                    rep.ok('shared', fn)
            elif f.ret.k == 'ptr' and '_object' in f.ret.s:
                x = [r for r in hs if (root(r)[0] in ('P', 'THIS') or self.ispy(r) and r[0] in ('E', 'F')) and r[0] != 'S']
                if x:
                    bad('shared', n, x[0], '%s returns a Python object that refers to %s without sharing its ownership' % (fn, self.say(x[0])))
                else:
                    rep.ok('shared', fn)
        for n, locs, hs, t in self.stores:
            hs = self.expand(hs)
            ok = True
            for d in locs:
                rd = root(d)
                if rd[0] in ('P', 'H', 'THIS', 'G'):
                    x = [r for r in hs if root(r)[0] in ('L', 'T') and r[0] != 'S']
                    if x and not self.coowned(rd, x[0]):
                        ok = False
                        bad('store', n, x[0], '%s stores into %s something that refers to %s' % (fn, self.say(rd) if rd[0] != 'G' else rd[1], self.say(x[0])))
                    if rd[0] == 'G':
                        x = [r for r in hs if root(r)[0] in ('P', 'THIS') and r[0] != 'S']
                        if x:
                            ok = False
                            bad('store', n, x[0], '%s stores into the static variable %s something that refers to %s' % (fn, rd[1], self.say(x[0])))
                    if self.ispy(rd) or rd[0] == 'H' and rd[1] != THIS and 'Object' in self.pt[rd[1]].s:
                        x = [r for r in hs if r[0] in ('E', 'F') and self.ispy(r) and root(r) != rd]
                        if x:
                            ok = False
                            bad('store', n, x[0], '%s stores into %s something that refers to %s' % (fn, self.say(rd), self.say(x[0])))
            if ok and hs:
                rep.ok('store', fn)
        eff = self.expand(self.cont.get(THIS, E0))
        for r in eff:
            r0 = r
            r = root(r)
            if r0[0] in ('E', 'P') and r[0] == 'P' and owner(self.pt[r[1]]) and not self.E.internal(f.key, r[1]):
                bad('pointer', None, r, "%s is given the shared pointer '%s' but keeps only a plain reference to its object" % (fn, f.params[r[1]][1]))
        if f.cls and 'K' in f.fl:
            rep.ok('constructor', fn)
        for n, v, r, u in self.invalidated():
            bad('invalid', u, r, "%s: '%s' refers to %s, which is changed in line %d" % (fn, self.vars.get(v, ('?',))[0], self.say(r), n.line))
        if self.inval:
            rep.ok('invalid', fn, len(self.inval))
        for n, c in self.copies:
            if c in self.E.selfref:
                g, r = self.E.selfref[c]
                bad('copy', n, THIS, '%s copies an object of class %s which refers to itself (%s)' % (fn, c, g.loc()))
            else:
                rep.ok('copy', fn)

    def order(self):
        """position of each node in the order of execution, with the enclosing loops and branches"""
        pos = {}
        cnt = [0]

        def walk(n, ctx):
            if n is None:
                return
            for i, c in enumerate(n.c):
                x = ctx
                if n.k in ('For', 'While', 'Do') or n.k == 'OMP':
                    x = ctx + ((n, 'loop', None),)
                elif n.k == 'If' and i >= 2 or n.k == 'Cond' and i >= 1:
                    x = ctx + ((n, 'branch', i),)
                elif n.k == 'Try':
                    x = ctx + ((n, 'branch', i),)
                elif n.k == 'Case' or n.k == 'Default':
                    x = ctx + ((n, 'branch', i),)
                walk(c, x)
            cnt[0] += 1
            pos[id(n)] = (cnt[0], ctx)
        for kind, key, written, e in self.f.inits:
            walk(e, ())
        walk(self.f.body, ())
        return pos

    def invalidated(self):
        if not self.inval:
            return
        pos = self.order()
        byvar = {}
        for v, n, hs in self.borrows:
            e = [r for r in self.expand(hs) if r[0] in ('E', 'F')]
            byvar.setdefault(v, []).append((n, e))
        for n, locs in self.inval:
            cs = set(('E', r) for r in sure(locs))
            if not cs:
                continue
            for v, bs in byvar.items():
                if any(r == ('L', v) for r in locs):
                    continue
                hit = [(b, r) for b, e in bs for r in e if any(x in cs for x in steps(r)) and b is not n]
                if not hit:
                    continue
                if v in self.vars and isref(self.vars[v][1]) is False and sum(1 for b, e in bs) > 1 and self.vars[v][1].k == 'ptr':
                    continue        # reassigned
                uses = [u for u in self.f.walk() if u.k == 'Ref' and u.a[0] == 'L' and u.a[1] == v]
                pn, cn = pos[id(n)]
                for b, r in hit:
                    if id(b) not in pos:
                        continue
                    pb, cb = pos[id(b)]
                    for u in uses:
                        pu, cu = pos[id(u)]
                        if self.follows(pb, cb, pn, cn, pu, cu, n):
                            yield n, v, r, u
                            break

    def follows(self, pb, cb, pn, cn, pu, cu, n):
        # exclusive branches
        for (x, k, i), (y, l, j) in zip(cn, cu):
            if x is not y:
                break
            if k == 'branch' and i != j:
                return False
        if not cu[:len(cn)] == cn:
            # the change is in a branch (or loop) which the use is not in
            for d, (x, k, i) in enumerate(cn):
                if d < len(cu) and cu[d] == cn[d]:
                    continue
                if k == 'branch' and leaves(x.c[i]):
                    return False
        if pb < pn < pu:
            return True
        # the use in the next iteration of a loop which the reference was made outside of
        b = [x for x, k, i in cb if k == 'loop']
        u = [x for x, k, i in cu if k == 'loop']
        return pb < pn and any(k == 'loop' and any(x is y for y in u) and not any(x is y for y in b) for x, k, i in cn)

    def elsewhere(self, r):
        """is a copy of the smart pointer living in r kept by something that outlives this call"""
        return owned(r, [x[1] for d, hs in self.cont.items() if root(d)[0] in ('P', 'H', 'THIS', 'G') for x in hs if x[0] == 'S'])

    def coowned(self, d, r):
        return r not in self.expand(self.cont.get(d, E0))


def leaves(n):
    if n is None:
        return False
    if n.k == 'Block':
        return bool(n.c) and leaves(n.c[-1])
    return n.k in ('Return', 'Throw', 'Break', 'Continue')


def smart_cls(c):
    return c.startswith(OWNERS) or c.startswith('std::__shared_ptr')


def check_c17(rep):
    prog = Program()
    E = Lifetimes(prog)
    E.run()
    E.selfclosure()
    E.check(rep)
    rep.require('shared', 40)
    rep.require('constructor', 100)
    return prog
