"""C08: exceptions at foreign boundaries."""
from core import *
from interp import *

FOREIGN = ('interface_c.cpp', 'interface_fortran.cpp', 'interface_nemo.cpp')
PYFILE = 'interface_python.cpp'
TABLE_TYPES = ('PyMethodDef', 'PyTypeObject', 'PyGetSetDef', 'PyMappingMethods', 'PySequenceMethods', 'PyNumberMethods', 'PyModuleDef', 'PyAsyncMethods', 'PyBufferProcs',
               '_typeobject', 'PyModuleDef_Slot', 'PyType_Slot')


def table_functions(prog):
    """functions whose address is stored in a Python method/slot table, with the table's name"""
    res = {}
    for k, g in prog.globals.items():
        if g['_init'] is None or g['file'] != PYFILE:
            continue
        tn = g['t'].strip().name or g['t'].s
        if not any(x in g['t'].s for x in TABLE_TYPES):
            continue
        init = prog.global_init(k)
        for n in init.walk():
            if n.k == 'Ref' and n.a[0] == 'F' and n.a[1] in prog.functions:
                res.setdefault(n.a[1], g['n'])
    return res


def entry_points(prog):
    """(key, kind) of all functions called by foreign code"""
    res = []
    for k, f in sorted(prog.functions.items()):
        if 'C' in f.fl and f.file.startswith('interface_') and 'i' not in f.fl:
            res.append((k, f.file))
    # functions of the NEMO plugin handed out by address
    for k, f in sorted(prog.functions.items()):
        if f.file == 'interface_nemo.cpp':
            for n in f.walk():
                if n.k == 'Ref' and n.a[0] == 'F' and n.a[1] in prog.functions and prog.functions[n.a[1]].file == f.file and 'C' in f.fl:
                    res.append((n.a[1], f.file))
    for k, t in sorted(table_functions(prog).items()):
        res.append((k, t))
    return sorted(set(res))


# throw statements that cannot be executed (internal consistency checks), by throwing function
INFEASIBLE = {
    'math::bsplineDerivs': 'the order of the derivative is a loop variable between 0 and the degree of the spline',
    'math::integrateBspline': 'the order is bounded by the degree of the two splines, far below the size of the table',
    'math::linearFit': 'throws on arrays of unequal length; the arrays passed by calcLyapunovExponent are filled in pairs',
    'potential::Composite::Composite': 'sum of two potentials is never an empty list; other callers are inside try blocks',
    'potential::CompositeDensity::CompositeDensity': 'sum of two densities is never an empty list; other callers are inside try blocks',
}


# calls (caller, callee) whose callee cannot throw from there
INFEASIBLE_CALLS = {
    ('math::QuinticSpline::roots', 'math::findRoot'): 'the end points are consecutive extrema, which lie inside the finite grid (an infinite x1 or x2 yields at most one), and the tolerance is a positive literal',
}


def infeasible(f):
    q = qual(f.key)
    # strip template arguments of the last component
    import re
    q = re.sub(r'<[^<>]*>', '', q)
    return q in INFEASIBLE


ERRSET = ('PyErr_SetString', 'PyErr_Format', 'PyErr_SetObject', 'PyErr_SetNone', 'PyErr_NoMemory', 'PyErr_BadArgument', 'PyErr_SetFromErrno', 'PyErr_SetInterrupt')
CREPORT = ('fprintf', 'std::exit', 'exit', 'fputs', 'perror')


def report_functions(prog, names):
    """functions which (transitively) call one of the named external functions on every... some path"""
    callers = {}
    for k, f in prog.functions.items():
        for n in f.walk():
            if n.k in CALLS and n.a[0]:
                callers.setdefault(n.a[0], set()).add(k)
    res = set()
    work = [k for k in callers if qual(k) in names]
    while work:
        k = work.pop()
        for c in callers.get(k, ()):
            f = prog.functions[c]
            if c not in res and f.file.startswith('interface_') and ('PyObject' not in f.ret.s):
                res.add(c)
                work.append(c)
    return res


class Handlers(Interp):
    """follows a caught exception until the function returns: it must have been reported in the convention of the
    calling language, and an error value must be returned"""
    K = 60

    def __init__(self, prog, f, reporters, python):
        Interp.__init__(self, prog, f)
        self.rep = reporters
        self.python = python

    def pkey(self, st):
        return (st.get('caught'), st.get('conv'))

    def raise_any(self, st):
        pass

    def catch(self, h, st):
        return S({k: v for k, v in st.d.items()}).set('caught', h.line).drop('conv')

    def omp_region(self, n, sts):
        return sts

    def bind(self, v, st, val):
        if v.a[0]:
            return st.set(('v', v.a[0]), val) if val in ('null', 'neg', 'nan') else st.drop(('v', v.a[0]))
        return st

    def post(self, n, st, vals):
        k = n.k
        if k == 'Null':
            return [(st, 'null')]
        if k == 'Int':
            return [(st, 'null' if n.a == '0' else None)]
        if k == 'Un' and n.a == '-':
            return [(st, 'neg' if n.c[0].k == 'Int' else vals[0] if vals[0] == 'nan' else None)]
        if k == 'Cast':
            return [(st, vals[0] if vals else None)]
        if k == 'Ref' and n.a[0] == 'L':
            return [(st, st.get(('v', n.a[1])))]
        if k == 'Assign':
            l = strip_casts(n.c[0])
            if l is not None and l.k == 'Ref':
                if l.a[0] == 'L':
                    st = st.set(('v', l.a[1]), vals[1]) if vals[1] in ('null', 'neg', 'nan') else st.drop(('v', l.a[1]))
                elif l.a[0] == 'G' and not self.python and st.get('caught'):
                    st = st.set('conv', True)
            return [(st, vals[1])]
        if k in CALLS:
            q = qual(n.a[0] or '')
            if k == 'OpCall' and not self.python and st.get('caught') and n.c and q.endswith('operator='):
                l = strip_casts(n.c[0])
                if l is not None and l.k == 'Ref' and l.a[0] == 'G':
                    st = st.set('conv', True)
            if k == 'OpCall' and st.get('caught') and n.c and q.endswith('operator=') and 'string' in (n.c[0].t.s if n.c[0].t else ''):
                l = strip_casts(n.c[0])
                if l is not None and l.k == 'Ref' and l.a[0] == 'L':
                    st = st.set(('v', l.a[1]), 'N')     # the text of the error is not empty
            if q.endswith('::empty') and k == 'MCall':
                l = strip_casts(n.c[0])
                if l is not None and l.k == 'Ref' and st.get(('v', l.a[1])) == 'N':
                    return [(st, FALSE)]
            if st.get('caught') and (n.a[0] in self.rep or q in (ERRSET if self.python else CREPORT)):
                st = st.set('conv', True)
            if q in ('std::exit', 'exit', 'abort'):
                return []
            res = [(st, 'nan' if 'nan' in q else None)]
            if self.tries and not st.get('caught') and not st.get('seen'):
                for box, allc in self.tries:
                    if st not in box:
                        box.append(st)
            return res
        return [(st, None)]

    def assume(self, n, v, st, truth):
        s = strip_casts(n)
        if s is not None and s.k == 'Call' and qual(s.a[0] or '') == 'PyErr_Occurred' and truth and st.get('caught'):
            return [st.set('conv', True)]
        return [st]

    def throwstmt(self, n, st):
        if self.tries:
            self.raise_(n, st)
        elif st.get('caught'):
            self.exits.append(('throw', n, st, None))


def check_c08(rep):
    from ctxcall import Reach, throw_ext
    prog = Program()

    def hit(f, n):
        return 'throw' if n.k == 'Throw' and not infeasible(f) else None
    T = Reach(prog, hit, exthit=throw_ext, stop=lambda k: k.startswith('math::blas_'))
    T.stopedge = lambda a, b: (qual(a), qual(b)) in INFEASIBLE_CALLS
    eps = entry_points(prog)
    for k, t in eps:
        if k not in prog.functions:
            continue
        f = prog.functions[k]
        r = T.query((k, ()))
        if r:
            rep.bad('escape', qual(k), f.loc(), '%s is called from foreign code (%s) and lets a C++ exception escape' % (qual(k), t), r)
        else:
            rep.ok('escape', '%s (%s)' % (qual(k), t))
    rep.require('escape', 120, 'entry points of the foreign-language interfaces')
    # handlers for std::exception catch everything only if everything thrown derives from it
    for k, f in sorted(prog.functions.items()):
        if f.file.startswith('/'):
            continue
        for n in f.walk():
            if n.k == 'Throw' and n.c and n.c[0] is not None:
                t = n.c[0].t
                nm = (t.name or t.s) if t is not None else ''
                nm = nm.replace('const ', '')
                okt = nm.startswith('std::') and any(nm.endswith(x) for x in ('error', 'exception', 'argument', 'out_of_range', 'bad_alloc', 'failure'))
                if not okt and nm in prog.classes:
                    okt = any(b[0].startswith('std::') for c in prog.bases_of(nm) if c in prog.classes for b in prog.classes[c].bases)
                if okt:
                    rep.ok('thrown-type')
                else:
                    rep.bad('thrown-type', '%s|%s' % (qual(k), nm), f.loc(n), 'an object of type %s, not derived from std::exception, is thrown: the handlers at the language boundary and in parallel loops do not catch it' % nm)
    # destructors are noexcept: an exception leaving one terminates the process
    for k, f in sorted(prog.functions.items()):
        if 'D' in f.fl and not f.file.startswith('/'):
            r = T.query((k, ()))
            if r:
                rep.bad('destructor', qual(k), f.loc(), 'destructor %s lets an exception escape' % qual(k), r)
            else:
                rep.ok('destructor')
    # every exception caught at the boundary is reported in the convention of the calling language
    pyrep = report_functions(prog, ERRSET)
    crep = report_functions(prog, CREPORT) | {k for k in prog.functions if qual(k).startswith('utils::msg') or qual(k) == 'utils::msg'}
    for k in list(prog.functions):
        f = prog.functions[k]
        if f.file in FOREIGN and k not in crep:
            for n in f.walk():
                if n.k in ('Call', 'OpCall', 'MCall') and n.a[0] and ('msg' in qual(n.a[0]).split('::')[-1] or n.a[0] in crep):
                    if any(p[2].s.endswith('exception &') for p in f.params):
                        crep.add(k)
                if n.k == 'Ref' and n.a[0] == 'G' and n.a[1].startswith('utils::msg') and any('exception' in p[2].s for p in f.params):
                    crep.add(k)
    ent = dict(eps)
    for k, f in sorted(prog.functions.items()):
        if f.file not in FOREIGN + (PYFILE,):
            continue
        python = f.file == PYFILE
        if k not in ent and not (python and f.ret.s in ('PyObject *', '_object *')) and not (f.file in FOREIGN):
            continue
        hs = [n for n in f.walk() if n.k == 'Catch']
        if not hs:
            continue
        I = Handlers(prog, f, pyrep if python else crep, python)
        I.run()
        bad = set()
        for kind, n, st, v in I.exits:
            c = st.get('caught')
            if not c or kind == 'throw':
                continue
            if not st.get('conv'):
                bad.add((c, 'swallowed', 'the exception caught here is not reported to the caller before the function returns'))
            elif python and k in ent and f.ret.s != 'void' and v not in ('null', 'neg'):
                bad.add((c, 'value', 'after the exception caught here is converted to a Python exception, the function may return a value other than an error indicator'))
        for c, r, m in sorted(bad):
            rep.bad(r, qual(k), '%s:%d' % ('src/' + f.file, c), '%s: %s' % (qual(k), m))
        if not bad:
            rep.ok('reported', qual(k), len(hs))
    rep.require('reported', 40, 'exception handlers at the language boundary')
    return prog
