"""C07: the Python C API is used only while holding the global interpreter lock."""
from core import *
from ctxcall import Reach, Ctx, rec_class
from bound_checks import table_functions, PYFILE

# plain reads of memory owned by an object that the caller keeps alive; these neither touch reference counts nor the interpreter
READERS = {'PyArray_DATA', 'PyArray_NDIM', 'PyArray_DIM', 'PyArray_DIMS', 'PyArray_STRIDE', 'PyArray_STRIDES', 'PyArray_TYPE', 'PyArray_SHAPE', 'PyArray_GetPtr',
           'PyArray_FLAGS', 'PyArray_BYTES', 'PyArray_ITEMSIZE', 'PyArray_DESCR', 'PyArray_CHKFLAGS'}
SAVE, RESTORE, ENSURE, RELEASE = 'PyEval_SaveThread', 'PyEval_RestoreThread', 'PyGILState_Ensure', 'PyGILState_Release'
MANAGE = {SAVE, RESTORE, ENSURE, RELEASE, 'PyGILState_Check', 'PyGILState_GetThisThreadState'}


def pyapi(n):
    """name of the Python API function called by this node, or None"""
    if n.k == 'Call':
        if n.a[0]:
            q = qual(n.a[0])
            if (q.startswith('Py') or q.startswith('_Py')) and '::' not in q:
                if q in READERS or q in MANAGE:
                    return None
                return q
        elif n.c and n.c[0] is not None:
            s = n.c[0].t.s if n.c[0].t is not None else ''
            if '_object *' in s or 'PyObject' in s or '_typeobject' in s or 'tagPyArrayObject' in s or 'PyArray' in s:
                return 'indirect call of %s' % s[:60]
    return None


class Gil(Ctx):
    def __init__(self, prog, rep):
        Ctx.__init__(self, prog)
        self.rep = rep
        self.acq, self.relcls = set(), set()
        self.classes_raii()
        self.reach = Reach(prog, self.acqhit, guards=False)
        self.seen = {}
        self.queue = []
        self.napi = 0

    def acqhit(self, f, n):
        if n.k == 'New0' and n.a[0] and n.t is not None and rec_class(self.p, n.t) in self.acq:
            return 'acquires the interpreter lock'
        if n.k == 'Call' and n.a[0] and qual(n.a[0]) == ENSURE:
            return 'acquires the interpreter lock'
        return None

    def classes_raii(self):
        uses = {}
        for k, f in self.p.functions.items():
            for n in f.walk():
                if n.k == 'Call' and n.a[0] and qual(n.a[0]) in (SAVE, RESTORE, ENSURE, RELEASE):
                    uses.setdefault(f.cls or k, {}).setdefault(qual(n.a[0]), []).append((f, n))
        for c, u in sorted(uses.items()):
            cls = c in self.p.classes
            for a, b, s in ((SAVE, RESTORE, self.relcls), (ENSURE, RELEASE, self.acq)):
                if a not in u and b not in u:
                    continue
                f, n = (u.get(a) or u.get(b))[0]
                what = '%s/%s' % (a, b)
                if not cls:
                    self.rep.bad('scoped', c + '|' + what, f.loc(n), '%s is called outside a scoped lock object: an exception or early return skips the matching %s' % (a, b))
                    continue
                okk = a in u and b in u and all('K' in g.fl for g, m in u.get(a, ())) and all('D' in g.fl for g, m in u.get(b, ()))
                if okk:
                    # unconditional in both, and the saved state is what is restored
                    for g, m in u[a] + u[b]:
                        if any(x.k in ('If', 'Cond', 'Switch', 'For', 'While') for x in g.walk()):
                            okk = False
                if okk:
                    self.rep.ok('scoped', c + ' ' + what)
                    s.add(c)
                else:
                    self.rep.bad('scoped', c + '|' + what, f.loc(n), 'class %s does not call %s unconditionally in its constructor and %s in its destructor' % (c, a, b))
        self.pydtor = set()
        for k, f in self.p.functions.items():
            if 'D' in f.fl and f.cls and f.cls not in self.acq | self.relcls:
                if any(pyapi(n) for n in f.walk()):
                    # unless the destructor takes the lock itself
                    if not any(self.acqhit(f, n) for n in f.walk()):
                        self.pydtor.add(f.cls)

        # polymorphic classes that are never allocated on the heap: they exist only while the function that constructs
        # them is running, so that they can be called in a given lock state only if constructed in that state
        heap = set()
        for k, f in self.p.functions.items():
            for n in f.walk():
                if n.k == 'NewE' and n.t is not None:
                    heap.add(rec_class(self.p, n.t))
                elif n.k in ('Call', 'Ref') and n.a[0] and isinstance(n.a[0], str) and 'make_shared' in n.a[0] and n.t is not None:
                    heap.add(rec_class(self.p, n.t))
        # members of heap-allocated objects held by value
        work = [c for c in heap if c]
        while work:
            c = work.pop()
            for b in self.p.bases_of(c):
                if b in self.p.classes:
                    for fl in self.p.classes[b].fields:
                        t = fl[1]
                        for nm in self.p.classes:
                            pass
                        cc = rec_class(self.p, t) if t.k not in ('ptr', 'ref', 'rref') else None
                        if cc and cc not in heap:
                            heap.add(cc)
                            work.append(cc)
        self.stackonly = {c for c, C in self.p.classes.items() if C.poly and not C.abs and c not in heap and C.file != PYFILE}
        self.built = {True: set(), False: set()}
        self.parked = []
        self.polynames = [c for c, C in self.p.classes.items() if C.poly]
        self._data = {}

    def data_only(self, t):
        """values of this type cannot refer to user-defined objects"""
        if t is None:
            return False
        if t.s in self._data:
            return self._data[t.s]
        self._data[t.s] = True
        r = True
        s = t.s
        u = t
        while u.sub is not None:
            u = u.sub
        if '_object' in s or 'void' in s or '(*)' in s or any(n in s for n in self.polynames):
            r = False
        elif u.name in self.p.classes:
            for b in self.p.bases_of(u.name):
                C = self.p.classes.get(b)
                if C is None:
                    continue
                if C.poly:
                    r = False
                for fl in C.fields:
                    if not self.data_only(fl[1]):
                        r = False
        self._data[t.s] = r
        return r

    def harmless(self, f, n):
        """a call from the extension module into the library that passes no objects cannot involve user-defined ones"""
        if f.file != PYFILE:
            return False
        g = self.p.functions.get(n.a[0])
        if g is None or g.file == PYFILE or g.cls and 'K' not in g.fl and 's' not in g.fl:
            return False
        if 'K' in g.fl or g.n.startswith('operator'):
            return False
        return all(self.data_only(p[2]) for p in g.params)

    def absent(self, n, t, held):
        """stack-only classes, none of them constructed in this lock state, that are the only ones leading to target t"""
        if not (n.k in CALLS and n.a[1]) or t not in self.p.methods:
            return None
        tc = self.p.methods[t][0]
        if tc not in self.stackonly and not self.p.classes[tc].abs:
            return None
        cl = [c for c in self.p.subclasses(tc) if not self.p.classes[c].abs and self.impl(t, c) == t]
        if cl and all(c in self.stackonly and c not in self.built[held] for c in cl):
            return cl
        return None

    def enter(self, key, ctx, held, why):
        if key not in self.p.functions:
            return
        st = (key, ctx, held)
        cnt = self.seen.setdefault((key, held), {})
        if ctx in cnt:
            return
        if len(cnt) >= 40:
            ctx = ()
            if ctx in cnt:
                return
        cnt[ctx] = why
        self.queue.append((key, ctx, held))

    def trace(self, key, ctx, held):
        r = []
        while key is not None and len(r) < 25:
            w = self.seen[(key, held)].get(ctx) or self.seen[(key, held)].get(())
            if w is None or w[0] is None:
                r.append('%s is called from Python' % qual(key))
                break
            pk, pctx, pheld, loc = w
            r.append('%s called at %s %s the lock' % (qual(key), loc, 'with' if held else 'without'))
            key, ctx, held = pk, pctx, pheld
        return list(reversed(r))

    def run(self, roots):
        for k in roots:
            self.enter(k, (), True, (None, None, None, None))
        while self.queue:
            key, ctx, held = self.queue.pop()
            f = self.p.functions[key]
            self.cur = (f, dict(ctx), key, ctx, held)
            if f.cls in self.acq | self.relcls:
                continue
            for r in f.roots():
                self.walk(r, held)

    def walk(self, n, held):
        """processes a statement; returns the lock state after it within the same block"""
        if n is None:
            return held
        f, cd, key, ctx, held0 = self.cur
        k = n.k
        if k == 'Block':
            h = held
            for c in n.c:
                h = self.walk(c, h)
            return held
        if k == 'Decl':
            h = held
            for v in n.c:
                cls = rec_class(self.p, v.t) if v.t is not None and v.t.k not in ('ptr', 'ref', 'rref') else None
                if cls in self.acq:
                    h = True
                    self.rep.ok('acquire', '%s' % f.loc(v)) if held0 is not None else None
                elif cls in self.relcls:
                    if not h:
                        self.rep.bad('release', '%s|%s' % (qual(key), 'release'), f.loc(v), 'the interpreter lock is released by a thread that may not hold it', self.trace(key, ctx, held0))
                    else:
                        self.rep.ok('release', f.loc(v))
                    h = False
                else:
                    if cls in self.pydtor and not h:
                        self.rep.bad('dtor', '%s|%s' % (qual(key), cls), f.loc(v), 'an object whose destructor uses the Python API is destroyed without the lock', self.trace(key, ctx, held0))
                    for c in v.c:
                        self.walk(c, h)
            return h
        if k in ('If', 'Cond'):
            i = 1 if k == 'If' else 0
            if k == 'If':
                self.walk(n.c[0], held)
            self.walk(n.c[i], held)
            v = self.const(f, cd, n.c[i])
            if v is not False:
                self.walk(n.c[i + 1], held)
            if v is not True and len(n.c) > i + 2:
                self.walk(n.c[i + 2], held)
            return held
        if k == 'OMP' and 'parallel' in n.a[0]:
            if held:
                self.region(n)
            for c in n.c:
                self.walk(c, False)
            return held
        if k == 'Lambda':
            for c in n.c:
                self.walk(c, held)
            return held
        for c in n.c:
            if c is not None:
                self.walk(c, held)
        api = pyapi(n)
        if api and f.file == PYFILE:
            ident = '%s|%s' % (qual(key), api)
            if held:
                if (id(n)) not in self.okapi:
                    self.okapi.add(id(n))
            else:
                self.rep.bad('api', ident, f.loc(n), '%s is called without holding the interpreter lock' % api, self.trace(key, ctx, held0))
        at = self.addr_taken(f, cd, n)
        if at:
            self.enter(at[0], at[1], held, (key, ctx, held0, f.loc(n)))
        if k in CALLS and n.a[0]:
            for t, tc in self.resolve(f, cd, n):
                if t in self.p.functions and not self.harmless(f, n):
                    why = (key, ctx, held0, f.loc(n))
                    cl = self.absent(n, t, held)
                    if cl:
                        self.parked.append((cl, t, tc, held, why))
                    else:
                        self.enter(t, tc, held, why)
        if k == 'New0' and n.t is not None:
            c = rec_class(self.p, n.t)
            if c in self.stackonly and c not in self.built[held]:
                self.built[held].add(c)
                for x in self.parked:
                    if x[3] == held and c in x[0]:
                        self.enter(x[1], x[2], x[3], x[4])
        return held

    okapi = set()

    def region(self, n):
        f, cd, key, ctx, held0 = self.cur
        ident = '%s|%d' % (qual(key), sum(1 for m in f.walk() if m.k == 'OMP' and 'parallel' in m.a[0] and m.line < n.line))
        for m in n.walk():
            if m.k in CALLS and m.a[0]:
                for t, tc in self.resolve(f, cd, m):
                    if t in self.p.functions:
                        r = self.reach.query((t, tc))
                        if r:
                            self.rep.bad('deadlock', ident, f.loc(n), 'a parallel region that may call back into Python is entered while the thread holds the interpreter lock', self.trace(key, ctx, held0) + ['%s calls %s' % (f.loc(m), qual(t))] + r)
                            return
        self.rep.ok('deadlock', '%s: %s' % (f.loc(n), qual(key)))


def check_c07(rep):
    prog = Program()
    G = Gil(prog, rep)
    G.okapi = set()
    roots = sorted(k for k in table_functions(prog) if k in prog.functions)
    roots += sorted(k for k, f in prog.functions.items() if f.file == PYFILE and 'C' in f.fl)
    G.run(roots)
    rep.ok('api', n=len(G.okapi))
    n = len(set(k for k, h in G.seen))
    rep.notes.append('%d functions reached from %d Python entry points; %d of them without the lock' % (n, len(roots), sum(1 for k, h in G.seen if not h)))
    rep.require('api', 800, 'Python API calls')
    rep.require('acquire', 10, 'scoped acquisitions of the lock')
    rep.require('release', 10, 'scoped releases of the lock')
    rep.require('scoped', 2, 'scoped lock classes')
    return prog
