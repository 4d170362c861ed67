"""C10/C11: reference counts and null results of the Python C API (path-sensitive typestate of object references).

Every reference to a Python object is a token identified by the place it comes from.  For each token the number
of references that the current function is responsible for is tracked (new references, increments, decrements,
references given away to owning members, containers, reference-stealing calls or the caller), together with
whether it may be null.  Functions of the module are summarised by their outcomes.
"""
import re
from interp import *
from bound_checks import table_functions, PYFILE

STRUCTS = ('_object', 'tagPyArrayObject', '_typeobject', '_PyArray_Descr', 'PyTupleObject', 'PyListObject', 'PyFloatObject', 'PyArrayObject_fields', 'tagPyArrayObject_fields', 'PyVarObject')
NUMPY = {'45': 'PyArray_DescrFromType', '69': 'PyArray_FromAny', '76': 'PyArray_Return', '93': 'PyArray_New', '183': 'PyArray_Zeros', '175': 'PyArray_DescrConverter2',
         '174': 'PyArray_DescrConverter', '158': 'PyArray_MultiplyList', '108': 'PyArray_CheckFromAny', '184': 'PyArray_Empty'}
# functions returning a new reference: may fail for reasons that the caller controls
NEW = {'PyArray_FromAny', 'PyArray_CheckFromAny', 'PyArray_New', 'PyArray_Zeros', 'PyArray_Empty', 'PyObject_Call', 'PyObject_CallFunctionObjArgs', 'PyObject_CallMethod', 'PyObject_CallObject',
       'PyObject_CallFunction', 'PyObject_GetAttrString', 'PyObject_Str', 'PyObject_Repr', 'PyRun_StringFlags', 'PyImport_ImportModule', 'PySequence_GetItem', 'PySequence_Tuple',
       'PyNumber_Float', 'PyNumber_Long', 'PyObject_GetAttr', 'PyObject_GetItem', 'PyObject_GetIter', 'PyIter_Next', 'PySequence_List', 'PySequence_Fast', 'PyUnicode_AsUTF8String', 'PyUnicode_FromString',
       'PyUnicode_DecodeUTF8'}
# the same, but fail only if a small amount of memory cannot be allocated (not modelled)
NEWSMALL = {'PyFloat_FromDouble', 'PyBool_FromLong', 'PyDict_New', 'PyTuple_New', 'PyList_New', '_PyObject_New', 'PyLong_FromLong', 'PyLong_FromSsize_t', 'PyModule_Create2', 'PyArray_DescrFromType'}
BORROWED = {'PyTuple_GetItem': False, 'PyList_GetItem': False, 'PyDict_GetItemString': True, 'PyDict_GetItem': True, 'PyEval_GetGlobals': False, 'PyEval_GetLocals': False,
            'PyModule_GetDict': False, 'Py_TYPE': False, 'PyErr_Occurred': None}
# arguments that may be null
NULLOK = {'Py_XDECREF': {0}, 'Py_XINCREF': {0}, 'Py_XNewRef': {0}, '_Py_XNewRef': {0}, 'PyObject_Str': {0}, 'PyCallable_Check': {0}, 'PyNumber_Check': {0}, 'PySequence_GetItem': {0}, 'PySequence_Size': {0}, 'PySequence_Tuple': {0},
          'PyNumber_Long': {0}, 'PyNumber_Float': {0}, 'PyFloat_AsDouble': {0}, 'PyLong_AsLong': {0}, 'PyObject_Call': {2}, 'PyObject_CallObject': {1}, 'PyArray_New': set(range(20)), 'PyArray_FromAny': {1, 5},
          'PyArg_ParseTupleAndKeywords': {1}, 'PyTuple_SET_ITEM': {2}, 'PyArray_Return': {0}, 'PyModule_AddObject': {2}, 'PyErr_WarnEx': {0}, 'PyRun_StringFlags': {4}, 'PyObject_CallMethod': {2},
          'Py_BuildValue': set(range(20)), 'PyDict_Next': set(), 'PyErr_SetString': set()}
CHARS = {'PyUnicode_AsUTF8'}
STEAL = {'PyTuple_SET_ITEM': 2, 'PyModule_AddObject': 2, 'PyArray_Return': 0, 'PyTuple_SetItem': 2, 'PyList_SetItem': 2}
NULLV = ('null',)
# may throw, but not when called from here
NOTHROW = {'math::IMatrix::at': 'indices are bounded by the size of the same matrix'}


def pytype(t, prog=None):
    """is this a pointer to a Python object structure"""
    if t is None or t.k != 'ptr' or t.sub is None:
        return False
    n = t.sub.name
    if t.sub.k != 'rec' or not n:
        return False
    if n in STRUCTS or n.split('::')[-1] in STRUCTS:
        return True
    return n.startswith('pygama::') and n.endswith('Object')


def chartype(t):
    return t is not None and t.k == 'ptr' and t.sub is not None and t.sub.s in ('char', 'const char')


def apiname(n):
    """name of the Python or numpy API function called here"""
    if n.k != 'Call':
        return None
    if n.a[0]:
        q = qual(n.a[0])
        return q if q.startswith(('Py', '_Py')) and '::' not in q else None
    if n.c and n.c[0] is not None:
        for x in n.c[0].walk():
            if x.k == 'Idx' and any(y.k == 'Ref' and y.a[0] == 'G' and y.a[1].startswith('PyArray_API') for y in x.c[0].walk()):
                i = strip_casts(x.c[1])
                return NUMPY.get(str(i.a), 'PyArray_API[%s]' % i.a)
    return None


def literal_string(n):
    n = strip_casts(n)
    return n.a if n is not None and n.k == 'Str' else None


def string_value(p, f, e):
    """the string given by an expression: a literal, or a variable that is only ever given one literal"""
    s = literal_string(e)
    if s is not None:
        return s
    x = strip_casts(e)
    if x is None:
        return None
    if x.k == 'Cond':
        a, b = string_value(p, f, x.c[1]), string_value(p, f, x.c[2])
        return a if a == b else None
    if x.k != 'Ref' or x.a[0] not in ('L', 'G'):
        return None
    vals = []
    for n in f.walk():
        if n.k == 'Var' and (x.a[0] == 'L' and n.a[0] == x.a[1] or x.a[0] == 'G' and n.a[2] == x.a[1]) and n.c and n.c[0] is not None:
            vals.append(literal_string(n.c[0]))
        elif n.k == 'Assign' and strip_casts(n.c[0]).k == 'Ref' and strip_casts(n.c[0]).a[:2] == x.a[:2]:
            vals.append(literal_string(n.c[1]))
    if not vals and x.a[0] == 'G' and x.a[1] in p.globals and p.globals[x.a[1]]['_init'] is not None:
        vals.append(literal_string(p.global_init(x.a[1])))
    return vals[0] if vals and len(set(vals)) == 1 else None


# objects that are never destroyed (Python 3.12 and later: PEP 683): returning them without a new reference
# (which is what Py_RETURN_NONE expands to) is correct
IMMORTAL = ('_Py_NoneStruct', '_Py_TrueStruct', '_Py_FalseStruct', '_Py_NotImplementedStruct')


class Sum(object):
    """summary of a function: outcomes (kind, retval, arg deltas, out values) and parameters that must not be null"""
    __slots__ = ('outs', 'req')

    def __init__(self):
        self.outs = []
        self.req = {}


class PyRefs(object):
    def __init__(self, prog, rep10=None, rep11=None):
        self.p = prog
        self.rep10, self.rep11 = rep10, rep11
        self.cg = Calls(prog)
        self.throws = Throws(self.cg)
        self.tab = table_functions(prog)
        self.sums = {}
        self.active = set()
        self.n = dict(newref=0, release=0, exits=0, use=0, functions=0)
        self.own, self.handed, self.uses = set(), {}, {}
        self.takers = set()     # (function, member that it hands over to its caller)
        self.ownership()

    # ---- which members own the object they point to
    def ownership(self):
        p = self.p
        self.setters = set()
        for k, g in p.globals.items():
            if g['_init'] is None or g['file'] != PYFILE or 'PyGetSetDef' not in g['t'].s:
                continue
            for n in p.global_init(k).walk():
                if n.k == 'Ref' and n.a[0] == 'F' and n.a[1] in p.functions and p.functions[n.a[1]].ret.k == 'int':
                    self.setters.add(n.a[1])
        self.dtors = set(k for k, f in p.functions.items() if f.file == PYFILE and f.body is not None and self.owner(f))
        reach, work = set(self.dtors), list(self.dtors)
        while work:
            for n in p.functions[work.pop()].walk():
                if n.k == 'Call' and apiname(n) in ('Py_DECREF', 'Py_XDECREF'):
                    x = strip_casts(n.c[1])
                    if x.k == 'Member' and x.a[0] == 'M':
                        self.own.add(x.a[1])
                elif n.k in CALLS and n.a[0] and n.a[0] not in reach and self.inmod(n.a[0]):
                    g = p.functions[n.a[0]]
                    if g.ret.s == 'void':
                        reach.add(n.a[0])
                        work.append(n.a[0])
        self.taken = set()
        self.released = {}

    def owner(self, f):
        return '::~' in f.key or f.key in self.tab and f.ret.s == 'void' and len(f.params) == 1

    def inmod(self, key):
        f = self.p.functions.get(key)
        return f is not None and f.file == PYFILE and f.body is not None

    def relevant(self, f):
        """does a call of this function matter for references of the caller"""
        if pytype(f.ret) or chartype(f.ret):
            return True
        for q in f.params:
            t = q[2].sub if q[2].k in ('ref', 'rref') else q[2]
            if pytype(t) or t.k == 'ptr' and t.sub.s in ('void',) and f.cls is None:
                return True
        return bool(f.cls and any(pytype(x[1]) for b in self.p.bases_of(f.cls) for x in (self.p.classes[b].fields if b in self.p.classes else ())))

    def summary(self, key):
        if key in self.sums:
            return self.sums[key]
        if key in self.active:
            return None
        f = self.p.functions[key]
        self.active.add(key)
        a = RefFlow(self, f)
        a.go()
        s = Sum()
        s.outs = a.outcomes()
        s.req = a.req
        self.active.discard(key)
        self.sums[key] = s
        return s


class RefFlow(Interp):
    K = 60

    def __init__(self, R, f):
        Interp.__init__(self, R.p, f)
        self.R = R
        self.req = {}         # parameter index -> text: must not be null
        self.fin = []

    # ---- states: ('v', loc) -> value; ('t', token) -> (count, nul); ('c', var) -> truth of a local condition
    def go(self):
        f = self.f
        st = S()
        intable = f.key in self.R.tab
        for i, (pid, pname, t, dflt) in enumerate(f.params):
            if t.k in ('ref', 'rref') and pytype(t.sub):
                st = st.set(('r', pid), ('P', i))
            elif pytype(t) or t.k == 'ptr' and t.sub is not None and t.sub.s == 'void' and f.cls is None:
                tok = ('arg', i)
                nul = 'u'
                if intable:
                    nul = 'nn' if i < 2 else 'm'
                    if f.key in self.R.setters and i == 1:
                        nul = 'm'
                st = st.set(('v', ('L', pid)), ('o', tok)).set(('t', tok), (0, nul))
        self.run(st)
        for kind, n, s, v in self.exits:
            self.exit(kind, n, s, v)

    def pkey(self, st):
        # tokens with a pending reference must not be confused with those without
        return frozenset((k, v) for k, v in st.d.items() if k[0] == 't' and (v[0] != 0 or v[1] == 'm'))

    def joinval(self, k, a, b):
        if k[0] == 't':
            if a is None or b is None:
                x = a or b
                return x if x[0] == 0 or x[1] == 'null' else ('?', 'u')
            if a[0] == b[0]:
                return (a[0], 'u' if 'u' in (a[1], b[1]) else 'm')
            return ('?', 'u')
        return None

    # ---- tokens
    def info(self, st, tok):
        return st.get(('t', tok), (0, 'nn'))

    def bump(self, st, v, d):
        if v is None or v[0] != 'o':
            return st
        c, nul = self.info(st, v[1])
        if v[1][0] in ('weak',) or c == '?':
            return st
        return st.set(('t', v[1]), (c + d, nul))

    def newtok(self, st, n, what, nul, count=1, weak=False):
        tok = (what, self.nodeid(n))
        old = st.get(('t', tok))
        if old is not None and isinstance(old[0], int) and old[0] > 0 and count and self.refd(st, tok):
            # the same statement executed again while the variable still holds the previous reference
            self.bad('leak', n, 'the reference obtained here in the previous iteration is never released')
        st = st.drop(('x', tok), ('y', tok)).set(('t', tok), (count, nul))
        return st, ('o', tok)

    def gone(self, st, v):
        """the last reference held by this function was released: the object may have been destroyed"""
        tok = v[1]
        c, nul = self.info(st, tok)
        if c != 0 or nul == 'null' or tok[0] in ('arg', 'fld', 'glob', 'weak', 'parsed'):
            return st
        st = st.set(('x', tok), True)
        for k, x in list(st.d.items()):
            if k[0] == 'y' and x == tok and self.info(st, k[1])[0] == 0:
                st = st.set(('x', k[1]), True)
        return st

    def refd(self, st, tok):
        return True

    def nodeid(self, n):
        if not hasattr(self, '_ids'):
            self._ids = {}
        if id(n) not in self._ids:
            self._ids[id(n)] = '%s:%d#%d' % (n.fn.n, n.line, len(self._ids))
            self._keep = getattr(self, '_keep', [])
            self._keep.append(n)
        return self._ids[id(n)]

    def bad(self, rule, n, msg, what=None):
        key = (self.f.key, rule, n.line if n is not None else 0, msg)
        if key in self.fin:
            return
        self.fin.append(key)
        rep = self.R.rep11 if rule == 'null' else self.R.rep10
        if rep is not None:
            rep.bad(rule, '%s: %s' % (qual(self.f.key), what or msg), self.f.loc(n), '%s (in %s)' % (msg, self.f.q))

    # ---- locations
    def loc(self, n, st):
        """[(state, location key)] of an lvalue; the location is None if it is not tracked"""
        k = n.k
        if k == 'Ref':
            if n.a[0] == 'L':
                r = st.get(('r', n.a[1]))
                return [(st, r if r is not None else ('L', n.a[1]))]
            if n.a[0] == 'G':
                return [(st, ('G', n.a[1]))]
            return [(st, None)]
        if k == 'Member' and n.a[0] == 'G':
            return [(st, ('G', n.a[1]))]
        if k == 'Member' and n.a[0] == 'M':
            res = []
            b = n.c[0] if n.c else None
            if n.a[2]:      # ->
                for s, v in self.ev(b, st):
                    if b is not None and strip_casts(b).k == 'This':
                        res.append((s, ('F', 'this', n.a[1])))
                    elif v is not None and v[0] == 'o':
                        s = self.deref(n, v, s, 'access to member %s' % n.a[3])
                        res.append((s, ('F', v[1], n.a[1])))
                    elif v == NULLV:
                        self.nullbad(n, s, None, 'access to member %s' % n.a[3])
                    elif v is not None and v[0] == '&' and v[1] is not None:
                        res.append((s, ('F', v[1], n.a[1])))
                    else:
                        res.append((s, None))
                return res
            for s, l in self.loc(b, st):
                if l is not None and l[0] == 'F' and l[1] == 'this' or strip_casts(b).k == 'This':
                    res.append((s, ('F', l, n.a[1]) if l is not None else ('F', 'this', n.a[1])))
                else:
                    res.append((s, ('F', l, n.a[1]) if l is not None else None))
            return res
        if k == 'Un' and n.a == '*':
            res = []
            for s, v in self.ev(n.c[0], st):
                if v is not None and v[0] == '&':
                    res.append((s, v[1]))
                elif v is not None and v[0] == 'o':
                    s = self.deref(n, v, s, 'dereference')
                    res.append((s, ('D', v[1])))
                else:
                    res.append((s, ('W', None) if pytype(n.t) else None))
            return res
        if k == 'Idx':
            res = []
            for s, v in self.ev(n.c[0], st):
                for s2, i in self.ev(n.c[1], s):
                    res.append((s2, ('W', None) if pytype(n.t) else None))
            return res
        if k == 'Cast' and n.c:
            return self.loc(n.c[0], st)
        if k == 'Assign':
            return [x for s, v in self.ev(n, st) for x in self.loc(n.c[0], s)]
        if k == 'Cond':
            t, f = self.branch(n.c[0], st)
            return [x for s in t for x in self.loc(n.c[1], s)] + [x for s in f for x in self.loc(n.c[2], s)]
        res = []
        for s, v in self.ev(n, st):
            res.append((s, ('W', None) if pytype(n.t) or n.t is not None and n.t.k == 'ref' and pytype(n.t.sub) else None))
        return res

    def load(self, n, l, st):
        if l is None:
            return st, None
        if l[0] == 'W':
            return st, ('o', ('weak', 0))
        v = st.get(('v', l))
        if v is not None:
            return st, v
        if l[0] == 'G' and (pytype(n.t)):
            tok = ('glob', l[1])
            if st.get(('t', tok)) is None:
                st = st.set(('t', tok), (0, 'nn'))
            return st, ('o', tok)
        if l[0] == 'F' and pytype(n.t):
            tok = ('fld', l)
            if st.get(('t', tok)) is None:
                st = st.set(('t', tok), (0, 'u'))
            v = ('o', tok)
            return st.set(('v', l), v), v
        if l[0] == 'P' and pytype(n.t):
            return st, ('o', ('weak', 0))
        return st, None

    def store(self, n, l, v, st, t):
        if l is None:
            return st
        if l[0] in ('L', 'P'):
            st = self.forget(st, l[1])
            if l[0] == 'P' and v is not None and v[0] == 'o':
                pass
            return st.set(('v', l), v) if v is not None else st.drop(('v', l))
        if not pytype(t):
            return st.set(('v', l), v) if v is not None and l[0] == 'F' else st.drop(('v', l))
        if l[0] == 'F':
            old = st.get(('v', l))
            if old is None and l[2] in self.R.own and not (l[1] != 'this' and l[1][0] not in ('arg', 'fld')) and not self.f.fl.count('K'):
                # the previous value of an owning member of an existing object
                tok = ('fld', l)
                if self.guarded(st, l):
                    st = st.set(('t', tok), (0, 'null'))
                else:
                    st = st.set(('t', tok), self.info(st, tok) if st.get(('t', tok)) else (0, 'u'))
                    old = ('o', tok)
            if old is not None and old[0] == 'o' and old[1][0] == 'fld' and old[1][1] == l and l[2] in self.R.own | set(self.R.handed):
                st = self.bump(st, old, +1)
            if v is not None and v[0] == 'o':
                c, nul = self.info(st, v[1])
                if l[2] in self.R.own:
                    st = self.bump(st, v, -1)
            return st.set(('v', l), v) if v is not None else st.drop(('v', l))
        if l[0] == 'W':
            if v is not None and v[0] == 'o':
                c, nul = self.info(st, v[1])
                if v[1][0] == 'glob' or c == '?' or c > 0:
                    st = self.bump(st, v, -1)
                    self.pending = True
            return st
        return st

    def guarded(self, st, l):
        """some other owning member of the same object was null on entry and has been assigned since then:
        if every assignment satisfies this, the member at l was null on entry as well"""
        for k, x in st.d.items():
            if k[0] == 't' and k[1][0] == 'fld' and x[1] == 'null':
                m = k[1][1]
                if m[1] == l[1] and m != l and m[2] in self.R.own:
                    v = st.get(('v', m))
                    if v is not None and v[0] == 'o' and v[1] != k[1] and self.info(st, v[1])[1] == 'nn':
                        return True
        return False

    # ---- null checks
    def deref(self, n, v, st, what):
        """the object is used: it must not be null; returns the state in which it is known not to be"""
        tok = v[1]
        c, nul = self.info(st, tok)
        if tok[0] == 'weak':
            return st
        if ('x', tok) in st.d and nul != 'null':
            self.bad('use-after-release', n, '%s of %s after the last reference to it known here has been released' % (what, self.source(tok)))
        self.R.n['use'] += 1
        self.R.uses[self.f.key] = self.R.uses.get(self.f.key, 0) + 1
        if nul == 'm':
            self.nullbad(n, st, tok, what)
        elif nul == 'u' and tok[0] == 'arg':
            self.req.setdefault(tok[1], '%s at %s' % (what, self.f.loc(n)))
        return st.set(('t', tok), (c, 'nn')) if nul != 'nn' else st

    def nullbad(self, n, st, tok, what):
        src = ''
        if tok is not None:
            src = self.source(tok)
        self.bad('null', n, '%s of %s which may be null' % (what, src or 'a pointer'), '%s of %s' % (what, src or 'a pointer'))

    def source(self, tok):
        if tok[0] == 'arg':
            return 'the argument %s' % self.f.params[tok[1]][1]
        if tok[0] == 'fld':
            return 'the member %s' % tok[1][2]
        if tok[0] == 'parsed':
            return 'the argument %s' % tok[1].split('#')[0]
        return 'the result of %s' % tok[0]

    # ---- expressions
    def x_Ref(self, n, st):
        if n.a[0] == 'F' or n.a[0] == 'E':
            return [(st, None)]
        if n.a[0] == 'L':
            st = self.forget(st, n.a[1])
        return [(s, ('&', l) if l is not None else None) for s, l in self.loc(n, st)]

    def x_Member(self, n, st):
        if n.a[0] == 'F':
            return [(s, None) for s, v in (self.ev(n.c[0], st) if n.c else [(st, None)])]
        return [(s, ('&', l) if l is not None else None) for s, l in self.loc(n, st)]

    def x_Idx(self, n, st):
        return [(s, ('&', l) if l is not None else None) for s, l in self.loc(n, st)]

    def x_This(self, n, st):
        return [(st, None)]

    def x_Null(self, n, st):
        return [(st, NULLV)]

    def x_DefArg(self, n, st):
        return self.ev(n.c[0], st)

    def x_Cast(self, n, st):
        k = n.a[0]
        if k == 'NullToPointer':
            return [(st, NULLV)]
        if k == 'LValueToRValue':
            c = n.c[0]
            res = []
            for s, l in self.loc(c, st):
                s, v = self.load(c, l, s)
                if v is None and c.k == 'Ref' and c.a[0] == 'L':
                    v = s.get(('c', c.a[1]))
                res.append((s, v))
            return res
        if k == 'PointerToBoolean':
            return [(s, FALSE if v == NULLV else v) for s, v in self.ev(n.c[0], st)]
        return self.ev(n.c[0], st) if n.c else [(st, None)]

    def x_Un(self, n, st):
        if n.a == '&':
            x = strip_casts(n.c[0])
            if x.k == 'Ref' and x.a[0] == 'L':
                st = self.forget(st, x.a[1])
            return [(s, ('&', l) if l is not None and l[0] != 'W' else self.addr(n.c[0], l)) for s, l in self.loc(n.c[0], st)]
        if n.a == '*':
            return [(s, ('&', l) if l is not None else None) for s, l in self.loc(n, st)]
        if n.a in ('++', '--'):
            x = strip_casts(n.c[0])
            if x.k == 'Ref' and x.a[0] == 'L':
                return [(self.forget(s, x.a[1]), None) for s, v in self.ev(n.c[0], st)]
        return [(s, None) for s, v in self.ev(n.c[0], st)]

    def addr(self, n, l):
        return None

    def x_Assign(self, n, st):
        res = []
        for s, v in self.ev(n.c[1], st):
            for s2, l in self.loc(n.c[0], s):
                s2 = self.store(n, l, self.asval(v), s2, n.c[0].t if n.c[0].t is None or n.c[0].t.k != 'ref' else n.c[0].t.sub)
                c = strip_casts(n.c[0])
                if c.k == 'Ref' and c.a[0] == 'L' and v is not None and v[0] in ('b', 'isnull', 'notnull'):
                    s2 = s2.set(('c', c.a[1]), v)
                res.append((s2, v))
        return self.mergev(res)

    def asval(self, v):
        """value stored in a pointer variable"""
        if v is not None and v[0] == '&' and v[1] is not None and v[1][0] == 'G':
            return ('o', ('glob', v[1][1]))
        return v if v is not None and v[0] in ('o', 'null', '&') else None

    def vardecl(self, v, st):
        if v.c and v.c[0] is not None and v.t is not None and v.t.k in ('ref', 'rref') and pytype(v.t.sub):
            return [s.set(('r', v.a[0]), l) if l is not None else s for s, l in self.loc(v.c[0], st)]
        return Interp.vardecl(self, v, st)

    def bind(self, v, st, val):
        st = self.forget(st.drop(('v', ('L', v.a[0]))), v.a[0])
        if val is not None and v.t is not None and v.t.k != 'ptr':
            if val[0] in ('b', 'isnull', 'notnull'):
                return st.set(('c', v.a[0]), val)
            if val[0] == 'o' and v.t.k == 'bool':
                return st.set(('c', v.a[0]), ('notnull', val[1]))
        val = self.asval(val)
        if val is not None and v.t is not None and v.t.k == 'ptr':
            st = st.set(('v', ('L', v.a[0])), val)
        return st

    def ctorinit(self, kind, name, expr, st):
        if expr is None:
            return [st]
        res = []
        for s, v in self.ev(expr, st):
            if kind == 'M' and self.f.cls:
                fld = self.p.field(self.f.cls, name.rsplit('::', 1)[-1])
                if fld is not None and fld[1].k == 'ptr':
                    s = self.store(expr, ('F', 'this', name), self.asval(v), s, fld[1])
            res.append(s)
        return res

    def scal(self, n):
        n = strip_casts(n)
        if n.k == 'Ref' and n.a[0] == 'L' and n.t is not None and n.t.k in ('bool', 'int', 'uint', 'ptr', 'enum'):
            return ('L', n.a[1])
        if n.k in ('Int', 'Bool'):
            return ('I', str(n.a))
        if n.k == 'Null':
            return ('I', 'null')
        return None

    def relation(self, n):
        """comparison of local scalar variables: (key, polarity)"""
        if n.k == 'Bin' and n.a in ('==', '!=', '<', '>', '<=', '>='):
            a, b = self.scal(n.c[0]), self.scal(n.c[1])
            if a and b and 'L' in (a[0], b[0]):
                return {'==': (('q', '==', a, b), True), '!=': (('q', '==', a, b), False), '<': (('q', '<', a, b), True), '>=': (('q', '<', a, b), False),
                        '>': (('q', '<', b, a), True), '<=': (('q', '<', b, a), False)}[n.a]
        return None

    def forget(self, st, var):
        return st.dropif(lambda k: k == ('c', var) or k[0] == 'q' and ('L', var) in k)

    def x_Bin(self, n, st):
        rel = self.relation(n)
        if rel and rel[0] in st.d:
            return [(st, TRUE if (st.get(rel[0]) == TRUE) == rel[1] else FALSE)]
        if n.a in ('==', '!='):
            res = []
            for s, a in self.ev(n.c[0], st):
                for s2, b in self.ev(n.c[1], s):
                    r = None
                    if a == NULLV and b == NULLV:
                        r = TRUE if n.a == '==' else FALSE
                    elif NULLV in (a, b):
                        o = b if a == NULLV else a
                        if o is not None and o[0] == 'o':
                            r = ('isnull' if n.a == '==' else 'notnull', o[1])
                        elif o is not None and o[0] == '&':
                            r = FALSE if n.a == '==' else TRUE
                    res.append((s2, r))
            return self.mergev(res)
        if n.a == ',':
            return [(s2, v) for s, _ in self.ev(n.c[0], st) for s2, v in self.ev(n.c[1], s)]
        return [(s2, None) for s, _ in self.ev(n.c[0], st) for s2, _ in self.ev(n.c[1], s)]

    def assume(self, n, v, st, truth):
        m = n
        while m.k == 'Cast' and m.c and m.a[0] in ('PointerToBoolean', 'IntegralToBoolean', 'NoOp', 'BitCast'):
            m = m.c[0]
        if v is not None and v[0] == 'parse':
            return [v[1]] if truth else [v[2]]
        if v is not None and v[0] in ('isnull', 'notnull'):
            return self.setnull(st, v[1], truth == (v[0] == 'isnull'))
        if v is not None and v[0] == 'o':
            return self.setnull(st, v[1], not truth)
        if v == NULLV:
            return [] if truth else [st]
        if v is not None and v[0] == '&':
            return [st] if truth else []
        if is_l2r(m) and m.c[0].k == 'Ref' and m.c[0].a[0] == 'L' and m.t is not None and m.t.k in ('bool', 'int', 'uint', 'ptr', 'enum'):
            return [st.set(('c', m.c[0].a[1]), ('b', truth))]
        rel = self.relation(m)
        if rel:
            return [st.set(rel[0], ('b', truth == rel[1]))]
        return [st]

    def setnull(self, st, tok, isnull):
        if tok[0] == 'weak':
            return [st]
        c, nul = self.info(st, tok)
        if isnull:
            if nul == 'nn':
                return []
            # no object: no references
            st = st.set(('t', tok), (0, 'null'))
            d = {k: (NULLV if v == ('o', tok) and k[0] == 'v' and tok[0] != 'fld' else v) for k, v in st.d.items()}
            return [S(d)]
        if nul == 'null':
            return []
        return [st.set(('t', tok), (c, 'nn'))]

    # ---- calls
    def args(self, n, exprs, st):
        cur = [(st, ())]
        for c in exprs:
            nxt = []
            for s, vs in cur:
                for s2, v in (self.ev(c, s) if c is not None else [(s, None)]):
                    nxt.append((s2, vs + (self.asval(v) if v is not None and v[0] == '&' and v[1] is not None and v[1][0] == 'G' else v,)))
            cur = self.mergev(nxt)
        return cur

    def x_Call(self, n, st):
        name = apiname(n)
        exprs = n.c[1:]
        res = []
        if name:
            for s, vs in self.args(n, exprs, st):
                res += self.api(n, name, exprs, vs, s)
            return self.mergev(res)
        pre = [(st, None)]
        if n.a[0] is None and n.c[0] is not None:
            pre = self.ev(n.c[0], st)
        for s0, _ in pre:
            for s, vs in self.args(n, exprs, s0):
                res += self.call(n, n.a[0], bool(n.a[1]), exprs, vs, None, s)
        return self.mergev(res)

    def x_MCall(self, n, st):
        res = []
        for s0, ov in self.ev(n.c[0], st):
            for s, vs in self.args(n, n.c[1:], s0):
                res += self.call(n, n.a[0], bool(n.a[1]), n.c[1:], vs, n.c[0], s)
        return self.mergev(res)

    def x_OpCall(self, n, st):
        res = []
        for s, vs in self.args(n, n.c, st):
            res += self.call(n, n.a[0], bool(n.a[1]), n.c, vs, None, s)
        return self.mergev(res)

    def x_New0(self, n, st):
        res = []
        for s, vs in self.args(n, n.c, st):
            res += self.call(n, n.a[0], False, n.c, vs, None, s)
        return self.mergev(res)

    def call(self, n, key, virt, exprs, vs, obj, st):
        if key is None:
            return [(st, None)]
        q = qual(key)
        if re.sub(r'<[^<>]*>', '', q) not in NOTHROW and self.R.throws.may(key, virt):
            self.raise_(n, st)
        if q.endswith(('forget_about_type',)):
            return [(st, vs[0] if vs else None)]
        ts = [t for t in self.p.targets(key, virt) if self.R.inmod(t)]
        if len(ts) == 1 and self.R.relevant(self.p.functions[ts[0]]):
            sm = self.R.summary(ts[0])
            if sm is not None:
                return self.apply(n, self.p.functions[ts[0]], sm, vs, obj, st)
        # std::string from a C string that may be null
        if (q.startswith('std::basic_string') or q.startswith('std::operator') or q.startswith('utils::')) or True:
            for e, v in zip(exprs, vs):
                if v is not None and v[0] == 'o' and v[1][0] in CHARS and e.t is not None and e.t.k == 'ptr':
                    st = self.deref(n, v, st, 'use by %s' % q)
        # containers: references handed over to a container are no longer this function's responsibility
        if q.endswith(('::push_back', '::insert', '::resize', '::assign')) and q.startswith('std::'):
            for v in vs:
                if v is not None and v[0] == 'o' and isinstance(self.info(st, v[1])[0], int) and self.info(st, v[1])[0] > 0:
                    st = self.bump(st, v, -1)
        rv = None
        if pytype(n.t) or n.t is not None and n.t.k in ('ref', 'rref') and pytype(n.t.sub):
            rv = ('o', ('weak', 0)) if n.t.k == 'ptr' else ('&', ('W', None))
        return [(st, rv)]

    def apply(self, n, f, sm, vs, obj, st):
        for i, txt in sm.req.items():
            if i < len(vs) and vs[i] is not None:
                if vs[i][0] == 'o':
                    st = self.deref(n, vs[i], st, 'passing to %s' % f.q)
                elif vs[i] == NULLV:
                    self.bad('null', n, 'passing a null pointer to %s, which dereferences it (%s)' % (f.q, txt), 'null passed to %s' % f.q)
        res = []
        for kind, rv, deltas, outs in sm.outs:
            s = st
            ok = True
            for i, d, nul in deltas:
                if isinstance(i, tuple):        # member of the object
                    base = 'this' if i[1] == 'this' else vs[0][1] if vs and vs[0] is not None and vs[0][0] == 'o' else None
                    if base is None or base == 'this' and (obj is None or strip_casts(obj).k != 'This'):
                        continue
                    l = ('F', base, i[2])
                    v = s.get(('v', l))
                    if v is None:
                        v = ('o', ('fld', l))
                        s = s.set(('v', l), v).set(('t', v[1]), (0, 'u'))
                    if v[0] == 'o':
                        if nul in ('nn', 'null') and self.info(s, v[1])[1] != nul:
                            r = self.setnull(s, v[1], nul == 'null')
                            if not r:
                                ok = False
                                break
                            s = r[0]
                        if d and nul != 'null':
                            s = self.bump(s, v, d)
                    continue
                if i >= len(vs) or vs[i] is None:
                    continue
                v = vs[i]
                if v == NULLV:
                    if nul == 'nn':
                        ok = False
                    continue
                if v[0] == 'o':
                    if nul in ('nn', 'null') and not (v[1][0] == 'arg' and self.info(s, v[1])[1] == 'u'):
                        r = self.setnull(s, v[1], nul == 'null')
                        if not r:
                            ok = False
                            break
                        s = r[0]
                        if nul == 'null':
                            continue
                    if d:
                        s = self.bump(s, v, d)
                        if d < 0:
                            s = self.gone(s, v)
            if not ok:
                continue
            for i, o in outs:
                if i < len(vs) and vs[i] is not None and vs[i][0] == '&':
                    if kind == 'throw':
                        s = s.drop(('v', vs[i][1]))     # what it points to has been released
                        continue
                    s, v = self.mat(n, o, vs, s, 'out%d' % i)
                    s = self.store(n, vs[i][1], v, s, None) if vs[i][1] is not None and vs[i][1][0] in ('L', 'P') else s
            if kind == 'throw':
                self.raise_(n, s)
                continue
            s, v = self.mat(n, rv, vs, s, '')
            res.append((s, v))
        return res

    def mat(self, n, rv, vs, s, suffix):
        """value in the caller for an outcome of the callee"""
        if rv is None:
            return s, None
        if rv[0] == 'new':
            q = qual(n.a[0]) if n.a[0] else 'call'
            return self.newtok(s, n, q.rsplit('::', 1)[-1] + suffix, rv[1])
        if rv[0] == 'arg':
            return s, vs[rv[1]] if rv[1] < len(vs) else None
        if rv[0] == 'borrow':
            if rv[1] == 'u':
                return s, ('o', ('weak', 0))
            return self.newtok(s, n, qual(n.a[0]).rsplit('::', 1)[-1] + suffix, rv[1], 0)
        if rv[0] in ('null', 'b'):
            return s, rv
        return s, None

    def api(self, n, name, exprs, vs, st):
        R = self.R
        nullok = NULLOK.get(name, ())
        for i, v in enumerate(vs):
            if i in nullok or v is None:
                continue
            if v[0] == 'o' and exprs[i].t is not None and exprs[i].t.k == 'ptr':
                if i == 0 and name in ('PyErr_SetString', 'PyErr_Format'):
                    continue
                st = self.deref(n, v, st, 'passing to %s' % name)
            elif v == NULLV and name not in ('PyObject_CallFunctionObjArgs', 'PyErr_Format') and i == 0 and (name in ('Py_DECREF', 'Py_INCREF')):
                self.nullbad(n, st, None, 'passing to %s' % name)
                return []
        if name in ('Py_INCREF', 'Py_XINCREF'):
            return [(self.bump(st, vs[0], 1), None)]
        if name in ('Py_NewRef', 'Py_XNewRef', '_Py_NewRef', '_Py_XNewRef'):
            return [(self.bump(st, vs[0], 1), vs[0])]
        if name in ('Py_DECREF', 'Py_XDECREF'):
            R.n['release'] += 1
            v = vs[0]
            if v is not None and v[0] == 'o' and v[1][0] != 'weak':
                c, nul = self.info(st, v[1])
                if nul == 'm':      # Py_XDECREF
                    a = self.setnull(st, v[1], True)
                    b = self.setnull(st, v[1], False)
                    return [(s, None) for s in a] + [(self.dec(n, v, s), None) for s in b]
                st = self.dec(n, v, st)
            return [(st, None)]
        if name in STEAL:
            i = STEAL[name]
            if i < len(vs):
                st = self.bump(st, vs[i], -1)
            if name == 'PyArray_Return':
                nul = self.info(st, vs[0][1])[1] if vs[0] is not None and vs[0][0] == 'o' else 'nn'
                return [self.newtok(st, n, name, 'nn' if nul != 'm' else 'm')]
            return [(st, None)]
        if name == 'Py_BuildValue':
            return self.build(n, exprs, vs, st)
        if name in ('PyArg_ParseTuple', 'PyArg_ParseTupleAndKeywords'):
            return self.parse(n, name, exprs, vs, st)
        if name == 'PyDict_Next':
            s = st
            for i in (2, 3):
                if vs[i] is not None and vs[i][0] == '&':
                    tok = ('PyDict_Next', self.nodeid(exprs[i]))
                    s = s.set(('t', tok), (0, 'nn')).set(('v', vs[i][1]), ('o', tok))
            return [(s, TRUE), (st, FALSE)]
        if name in ('PyArray_DescrConverter2', 'PyArray_DescrConverter'):
            if vs[1] is not None and vs[1][0] == '&':
                s, v = self.newtok(st, n, name, 'nn')
                return [(s.set(('v', vs[1][1]), v), TRUE), (st.set(('v', vs[1][1]), NULLV), FALSE)]
            return [(st, None)]
        if name in NEW and not (name == 'PyUnicode_FromString' and literal_string(exprs[0]) is not None):
            R.n['newref'] += 1
            nul = 'm'
            if name == 'PyArray_New' and len(exprs) > 5:
                d = strip_casts(exprs[5])
                if d.k not in ('Null', 'Int'):
                    nul = 'nn'       # wraps existing memory
            if name in ('PyArray_Zeros',) and self.constdims(exprs):
                nul = 'nn'
            return [self.newtok(st, n, name, nul)]
        if name in NEWSMALL or name == 'PyUnicode_FromString' and literal_string(exprs[0]) is not None:
            if name == 'PyArray_DescrFromType':
                return [(st, None)]
            R.n['newref'] += 1
            return [self.newtok(st, n, name, 'nn')]
        if name in CHARS:
            return [self.newtok(st, n, name, 'm', 0)]
        if name in BORROWED:
            if BORROWED[name] is None or name == 'Py_TYPE':
                return [(st, None)]
            st, v = self.newtok(st, n, name, 'm' if BORROWED[name] else 'nn', 0)
            if vs and vs[0] is not None and vs[0][0] == 'o' and vs[0][1][0] != 'weak':
                st = st.set(('y', v[1]), vs[0][1])
            return [(st, v)]
        return [(st, None)]

    def constdims(self, exprs):
        return True

    def dec(self, n, v, st):
        if v is None or v[0] != 'o':
            return st
        return self.gone(self.bump(st, v, -1), v)

    def build(self, n, exprs, vs, st):
        fmt = string_value(self.p, self.f, exprs[0])
        self.R.n['newref'] += 1
        if fmt is None:
            return [self.newtok(st, n, 'Py_BuildValue', 'm')]
        nul = 'nn'
        i = 1
        for ch in fmt:
            if ch in '()[]{},: \t':
                continue
            if ch in '#&':
                i += 1
                continue
            if ch in 'NO' and i < len(vs):
                v = vs[i]
                if v is not None and v[0] == 'o':
                    if self.info(st, v[1])[1] == 'm':
                        nul = 'm'
                    if ch == 'N':
                        st = self.bump(st, v, -1) if self.info(st, v[1])[1] != 'm' else self.bump(st, v, -1)
                elif v == NULLV:
                    nul = 'm'
            i += 1
        return [self.newtok(st, n, 'Py_BuildValue', nul)]

    def parse(self, n, name, exprs, vs, st):
        i = 1 if name == 'PyArg_ParseTuple' else 2
        fmt = string_value(self.p, self.f, exprs[i])
        if fmt is None:
            raise AnalysisError('format string of %s is not a literal at %s' % (name, self.f.loc(n)))
        i += 1 if name == 'PyArg_ParseTuple' else 2
        s = st
        opt = False
        for ch in fmt:
            if ch == '|':
                opt = True
                continue
            if ch in ':;':
                break
            if ch in '$()':
                continue
            if ch in '!&#*':
                i += 1
                continue
            if i >= len(vs):
                break
            v = vs[i]
            if ch in 'OSU' and v is not None and v[0] == '&' and v[1] is not None and v[1][0] in ('L', 'F'):
                old = s.get(('v', v[1]))
                tok = ('parsed', '%s#%s' % (self.argname(exprs[i]), self.nodeid(n)))
                if v[1][0] == 'F':
                    i += 1
                    continue
                if opt and old == NULLV:
                    s = s.set(('t', tok), (0, 'm')).set(('v', v[1]), ('o', tok))
                elif opt and old is None:
                    s = s.set(('t', tok), (0, 'u')).set(('v', v[1]), ('o', tok))
                else:
                    s = s.set(('t', tok), (0, 'nn')).set(('v', v[1]), ('o', tok))
            i += 1
        return [(s, TRUE), (st, FALSE)]

    def argname(self, e):
        for x in e.walk():
            if x.k in ('Ref', 'Member'):
                return x.a[2] if x.k == 'Ref' and x.a[0] == 'L' else str(x.a[-1])
        return '?'

    # ---- exits
    def exit(self, kind, n, st, v):
        f = self.f
        self.R.n['exits'] += 1
        ret = None
        v = self.asval(v)
        if kind == 'throw':
            v = None
        self.cur = n
        if kind == 'return' and (pytype(f.ret) or chartype(f.ret)):
            if v == NULLV:
                ret = NULLV
            elif v is not None and v[0] == 'o':
                tok = v[1]
                c, nul = self.info(st, tok)
                if tok[0] == 'weak':
                    ret = ('borrow', 'u')
                elif c == '?':
                    ret = ('new', nul)
                elif c >= 1:
                    st = self.bump(st, v, -1)
                    ret = ('new', 'm' if nul == 'm' else 'nn')
                elif tok[0] == 'fld' and tok[1][2] in self.R.handed:
                    self.R.taken.add(tok[1][2])
                    self.R.takers.add((f.key, tok[1][2]))
                    ret = ('new', 'nn')
                elif tok[0] == 'arg' and f.key not in self.R.tab:
                    ret = ('arg', tok[1])
                elif tok[0] == 'glob' and str(tok[1]).split('@')[0] in IMMORTAL:
                    ret = ('new', 'nn')
                else:
                    ret = ('borrow', 'm' if nul == 'm' else 'nn')
                    if f.key in self.R.tab and nul != 'null':
                        self.bad('borrowed', n, 'returns to Python %s without owning a reference to it' % self.source(tok), 'borrowed return of %s' % self.source(tok))
        elif kind == 'return' and v in (TRUE, FALSE):
            ret = v
        if kind == 'throw' and (f.key in self.R.tab or f.n.startswith('PyInit_')):
            return      # an exception leaving a function called by the interpreter (C08)
        if f.n.startswith('PyInit_'):
            return
        # references handed over in output parameters, or in members from which they are taken later
        # (a member holding something that this function is not responsible for is a borrowed reference)
        ctorfail = kind == 'throw' and 'K' in f.fl
        if ctorfail:        # the destructor will not run
            for k, x in list(st.d.items()):
                if k[0] == 'v' and k[1][0] == 'F' and k[1][1] == 'this' and k[1][2] in self.R.own and k[1][2].rsplit('::', 1)[0] == f.cls and x[0] == 'o':
                    st = self.bump(st, x, 1)
        for k, x in list(st.d.items()):
            if k[0] == 'v' and k[1][0] == 'F' and not ctorfail and k[1][2] not in self.R.own and x[0] == 'o' and x[1][0] not in ('weak', 'fld'):
                c = self.info(st, x[1])[0]
                if c == '?' or c > 0:
                    st = self.bump(st, x, -1)
                    self.R.handed.setdefault(k[1][2], (self.f, n))
        if kind != 'throw':
            for k, x in list(st.d.items()):
                if k[0] == 'v' and k[1][0] == 'P' and x[0] == 'o' and x[1][0] not in ('arg', 'weak', 'fld'):
                    st = self.bump(st, x, -1)
        # references that are still held, or have been released too often
        deltas = []
        for k, x in st.d.items():
            if k[0] != 't':
                continue
            tok, (c, nul) = k[1], x
            if c == '?' or c == 0 or nul == 'null':
                if tok[0] == 'fld' and tok[1][1] in ('this', ('arg', 0)) and f.key not in self.R.tab and f.ret.s == 'void' and nul == 'null':
                    deltas.append((tok[1], 0, nul))
                if tok[0] == 'arg':
                    deltas.append((tok[1], 0, nul))
                continue
            if tok[0] == 'arg' and f.key not in self.R.tab:
                deltas.append((tok[1], c, nul))
                if self.accept_arg(f, tok, c):
                    continue
                continue
            if tok[0] == 'fld':
                if c == -1 and tok[1][1] in ('this', ('arg', 0)) and f.key not in self.R.tab and f.ret.s == 'void' and '::~' not in f.key:
                    deltas.append((tok[1], c, nul))
                    continue
                if c == -1 and self.R.owner(f):
                    continue
                if tok[1][2] in self.R.handed and tok[1][2] not in self.R.own and (f.key, tok[1][2]) not in self.R.takers:
                    continue
            if c > 0:
                if kind == 'throw':
                    self.bad('leak', n, 'a reference to %s is not released when an exception leaves the function' % self.source(tok), 'leak of %s on an exception' % self.source(tok))
                else:
                    self.bad('leak', n, 'a reference to %s is not released on a path ending here' % self.source(tok), 'leak of %s' % self.source(tok))
            else:
                self.bad('over-release', n, '%s is released or given away without owning a reference to it on a path ending here' % self.source(tok), 'over-release of %s' % self.source(tok))
        if kind != 'throw' and f.key in self.R.dtors:
            cls = f.cls if '::~' in f.key else f.params[0][2].sub.name
            base = 'this' if '::~' in f.key else ('arg', 0)
            for m in self.R.own:
                if m.rsplit('::', 1)[0] == cls:
                    c, nul = st.get(('t', ('fld', ('F', base, m))), (0, 'u'))
                    if c == -1 or c == '?' or nul == 'null':
                        self.R.released[m] = self.R.released.get(m, 0) + 1
                    else:
                        self.bad('leak', n, 'the member %s is not released on a path through the destructor' % m)
        outs = []
        for k, x in st.d.items():
            if k[0] == 'v' and k[1][0] == 'P':
                outs.append((k[1][1], x, st))
        self.sumouts = getattr(self, 'sumouts', [])
        self.sumouts.append((kind if kind == 'throw' else 'ret', ret, tuple(sorted(deltas)), outs))

    def accept_arg(self, f, tok, c):
        return True

    def outcomes(self):
        res = []
        for kind, ret, deltas, outs in getattr(self, 'sumouts', []):
            o = []
            for i, v, st in outs:
                if v[0] == 'o':
                    c, nul = self.info(st, v[1])
                    o.append((i, ('new', nul)))
                elif v == NULLV:
                    o.append((i, NULLV))
            x = (kind, ret, deltas, tuple(o))
            if x not in res:
                res.append(x)
        return res


def run(rep10, rep11):
    prog = Program()
    R = PyRefs(prog, rep10, rep11)
    for rnd in range(2):
        R.sums = {}
        if rnd == 0:
            R.rep10 = R.rep11 = None     # first pass finds the members that hand over references
        else:
            R.rep10, R.rep11 = rep10, rep11
            R.n = dict.fromkeys(R.n, 0)
            R.uses = {}
        for k in sorted(prog.functions):
            f = prog.functions[k]
            if f.file == PYFILE and f.body is not None:
                R.n['functions'] += 1
                R.summary(k)
    return R


def check_c10(rep):
    R = run(rep, None)
    for k in sorted(R.sums):
        rep.ok('balance', qual(k), n=max(1, len(R.sums[k].outs)))
    for m, (f, n) in sorted(R.handed.items()):
        if m in R.taken:
            rep.ok('owned-members', '%s: handed over to the caller of the function that returns it' % m)
        else:
            rep.bad('owned-members', m, f.loc(n), 'a reference stored in %s is neither released by the destructor of the object nor returned to a caller' % m)
    for m in sorted(R.own):
        rep.ok('owned-members', '%s: released by the destructor' % m, n=R.released.get(m, 1))
    rep.notes.append('%(functions)d functions, %(newref)d new references, %(release)d releases, %(exits)d path ends' % R.n)
    rep.require('balance', 250, 'functions of the Python interface')
    rep.require('owned-members', 10, 'members of Python objects and wrappers that own references')
    if R.n['newref'] < 200 or R.n['release'] < 200:
        raise AnalysisError('only %(newref)d new references and %(release)d releases found' % R.n)
    return R.p


def check_c11(rep):
    R = run(None, rep)
    for k in sorted(R.sums):
        if R.uses.get(k):
            rep.ok('nonnull', '%s: %d uses' % (qual(k), R.uses[k]), n=R.uses[k])
    rep.notes.append('%(functions)d functions, %(newref)d new references, %(use)d uses of objects that may be null' % R.n)
    rep.require('nonnull', 1000, 'uses of results of the Python API')
    return R.p
