"""C12: conversion of units at the Python interface.

The inference of dimensions (dims.py) applied to the Python interface: values that come from or go to Python are pure
numbers, the unit factors (lengthUnit etc.) carry the dimensions of the internal units, and functions of the library
take and return quantities of the dimensions given by the types of their arguments, the evaluation contracts and the
table LIB below.  A quantity that crosses the interface without the factor of its dimension (or with a wrong one, or
twice) gives a contradiction.  Arrays seen by Python hold pure numbers, except between being filled by the library and
being multiplied by a unit factor in place.
"""
import re
from fractions import Fraction as Fr
from core import *
from facts import AnalysisError
import dims
from dims import Dims, Fn, Obj, find, ladd, psym, pmul, isconst, bare, LIB, OUT

FILE = 'interface_python.cpp'

# dimensions of arguments and results of helper functions of the interface itself
HELPERS = {
    'pygama::toDouble': dict(ret='0', defaultValue='0'),
    'pygama::toDoubleArray': dict(ret='v0'),
    'pygama::toPyArray': dict(_0='v0', array='v0'),
    'pygama::createCubicSpline': dict(_0='v0', _1='v0'),
}
OUT['MVV'], OUT['M/V'] = dict(L=1, V=4), dict(L=1, V=1)
COUNT = 'number of repetitions'
# members of structures of the library that are set in the interface
VFIELDS = {
    'galaxymodel::LOSVDParams::gridx': 'vL', 'galaxymodel::LOSVDParams::gridy': 'vL', 'galaxymodel::LOSVDParams::gridv': 'vV',
    'galaxymodel::LOSVDParams::velocityPSF': 'V', 'galaxymodel::LOSVDParams::alpha': '0', 'galaxymodel::LOSVDParams::beta': '0', 'galaxymodel::LOSVDParams::gamma': '0',
    'galaxymodel::SelfConsistentModel::rminSph': 'L', 'galaxymodel::SelfConsistentModel::rmaxSph': 'L', 'galaxymodel::SelfConsistentModel::RminCyl': 'L',
    'galaxymodel::SelfConsistentModel::RmaxCyl': 'L', 'galaxymodel::SelfConsistentModel::zminCyl': 'L', 'galaxymodel::SelfConsistentModel::zmaxCyl': 'L',
    'math::Point2d::x': None, 'math::Point2d::y': None,
}


def isfloatptr(t):
    while t is not None and t.k in ('ptr', 'arr'):
        t = t.sub
        if t is not None and t.k == 'float':
            return True
    return False


class PyDims(Dims):
    def __init__(self, prog):
        Dims.__init__(self, prog, ('L', 'V'))
        self.obligations = {}

    def spec(self, s):
        if s == 'D':        # density in two or three dimensions, depending on the length of the input
            n = psym(('M', 'pygama::BatchFunction::inputLength'))
            return (ladd(self.M[0], n, -1), self.M[1])
        if s == 'Q':        # projected distribution function: surface density divided by a velocity to some power
            return (self.s.dim(**OUT['S'])[0], ladd(self.M[1], psym(COUNT), -1))
        return self.s.dim(**OUT[s])

    def raw(self, root):
        o = Obj()
        o.raw = root
        return o

    def israw(self, o):
        o = find(o) if o is not None else None
        return o is not None and o.raw is not None and o.d is None

    def kid(self, o, sel, t=None):
        o = find(o)
        if o.raw is not None and o.d is None and not o.top:
            if t is not None and t.k in ('ptr', 'arr'):
                return self.raw((o.raw, sel))
            if t is not None and t.deref().k == 'rec':
                return self.make(t)
            e = Obj(self.ZERO)
            e.raw = o.raw
            return e
        return Dims.kid(self, o, sel, t)

    def unify(self, a, b):
        a, b = find(a), find(b)
        ra, rb = self.israw(a), self.israw(b)
        if ra and rb or a is b:
            return []
        if ra or rb:
            x, r = (b, a) if ra else (a, b)
            if x.top:
                return []
            bad = []
            for k in list(x.kids.values()):
                k = find(k)
                if not k.kids and not k.top:
                    if not self.s.equate(self.dimof(k), self.ZERO):
                        bad.append((self.dimof(k), self.ZERO))
            x.raw = r.raw
            x.kids = {}
            return bad
        return Dims.unify(self, a, b)

    def field(self, o, key, name, t):
        if key in VFIELDS:
            return self.shape(VFIELDS[key])
        cls = key.rsplit('::', 1)[0]
        if cls.startswith('pygama::') and isfloatptr(t):
            return self.raw(('F', key))
        if key in TOP:
            return Obj(top=True)
        return Dims.field(self, o, key, name, t)

    def contract(self, key, f, ps, ret):
        Dims.contract(self, key, f, ps, ret)
        if f.file == FILE:
            if all(r.startswith(('pygama::', 'math::')) for r in self.roots(key)):
                for i, (q, o) in enumerate(zip(f.params, ps)):
                    if isfloatptr(q[2]):
                        find(o).raw = ('P', key, i)


# values that represent quantities of several dimensions
TOP = {
    'pygama::TargetObject::unitDFProjection': 'the units of the projection of a distribution function depend on the kind of target',
}
# the unit stored in a member depends on the class of the object stored with it
_D = {c: 'M' for c in ('TargetDensityClassic', 'TargetDensitySphHarm', 'TargetDensityCylindrical')}
KINDUNIT = {
    'pygama::TargetObject::unitDFProjection': dict(_D, TargetKinemShell='MVV', TargetLOSVD='M/V'),
    'pygama::TargetObject::unitDensityProjection': dict(_D, TargetLOSVD='M'),
}
# functions in which a factor has one of several dimensions, chosen at run time together with the quantity it multiplies
MIXED = {
    'pygama::orbit': 'the factor for deviation vectors is a length or a velocity',
    'pygama::FncGalaxyModelProjectedDF::processPoint': 'the result is divided by a velocity for each component with finite uncertainty',
}
# functions that handle values in the units of a file
FILEUNITS = {'pygama::readSnapshot', 'pygama::writeSnapshot'}


class PyFn(Fn):
    def __init__(self, D, f):
        Fn.__init__(self, D, f)
        self.staged = {}
        self.over = {}
        self.overset = self.scaledfields(f)

    def scaledfields(self, f):
        """members multiplied in place by a factor within the function"""
        r = set()
        if f.file != FILE:
            return r
        for n in f.walk():
            x = None
            if n.k == 'Call' and n.a[0] and bare(qual(n.a[0])) == 'math::blas_dmul':
                x = strip_casts(n.c[2])
            elif n.k == 'AssignOp' and (n.a if isinstance(n.a, str) else n.a[0]).rstrip('=') in ('*', '/'):
                x = strip_casts(n.c[0])
            if x is not None and x.k == 'Member' and x.a[0] == 'M':
                r.add(x.a[1])
        return r

    def run(self):
        Fn.run(self)
        D = self.D
        for root, obs in self.staged.items():
            for n, d in obs:
                self.eq(n, d, D.ZERO, 'value passed to Python')
        for key, o in self.over.items():
            real = D.field(self.this(), key, key.rsplit('::', 1)[-1], None)
            self.bind(self.f.body, real, o, 'value of %s' % key.rsplit('::', 1)[-1])
        D.settle(self.report)

    def fieldobj(self, o, key, name, t):
        if key in self.overset:
            if key not in self.over:
                self.over[key] = Obj() if 'K' in self.f.fl or not key.startswith('pygama::') else self.D.field(o, key, name, t)
            return self.over[key]
        return self.D.field(o, key, name, t)

    def mism(self, n, k, x, y):
        if self.f.q in MIXED:
            # multiplied by a factor in some of the branches: a symbolic number of times
            D = self.D
            f = [ladd(a, b, -1) for a, b in zip(D.s.rdim(x.d), D.s.rdim(y.d))]
            if all(isconst(a) for a in f):
                return Obj(tuple(ladd(b, pmul(a, psym(COUNT))) for a, b in zip(f, D.s.rdim(y.d))))
            return Obj(top=True)
        return Fn.mism(self, n, k, x, y)

    def loopmix(self, n, x, y):
        return y if self.f.q in MIXED else Fn.loopmix(self, n, x, y)

    def x_Cond(self, n):
        if self.f.q in MIXED and n.t is not None and n.t.k == 'float' and not self.polym(n.c[1]) and not self.polym(n.c[2]):
            self.ev(n.c[0])
            a, b = self.dim(n.c[1]), self.dim(n.c[2])
            if not self.D.s.equate(a, b):
                return Obj(top=True)
            return Obj(a)
        return Fn.x_Cond(self, n)

    # ---- raw storage
    def x_Un(self, n):
        if n.a == '&':
            y = strip_casts(n.c[0])
            if y.k == 'Idx':
                b = self.ev(y.c[0])
                if self.D.israw(b):
                    self.ev(y.c[1])
                    return b
            if y.k == 'Call' and y.a[0] and 'pyArrayElem' in qual(y.a[0]):
                return self.D.raw(('elem', y.line))
        return Fn.x_Un(self, n)

    def x_Bin(self, n):
        if n.t is not None and n.t.k == 'ptr' and n.a in ('+', '-'):
            for c in n.c:
                o = self.ev(c)
                if self.D.israw(o):
                    return o
        return Fn.x_Bin(self, n)

    def x_Cast(self, n):
        if n.c and n.t is not None and isfloatptr(n.t) and n.c[0].t is not None and n.c[0].t.k == 'ptr' and n.c[0].t.sub is not None and n.c[0].t.sub.k == 'void':
            self.ev(n.c[0])
            return self.D.raw(('data', n.line))
        return Fn.x_Cast(self, n)

    def scaled(self, n, l, o, d):
        D = self.D
        o = find(o)
        f = D.mul(d, D.dimof(o), -1)
        if o.raw is not None:
            obs = self.staged.get(o.raw)
            if obs:
                for m, x in obs:
                    self.eq(n, D.mul(x, f), D.ZERO, 'conversion of the output')
                self.staged[o.raw] = []
                return
            self.eq(n, f, D.ZERO, 'scaling of values in user units')
            return
        if l.k == 'Member' and l.a[0] == 'M' and l.a[1] in self.overset:
            self.over[l.a[1]] = Obj(d)
            return
        Fn.scaled(self, n, l, o, d)

    def stage(self, n, root, dims):
        self.staged[root] = self.staged.get(root, []) + [(n, d) for d in dims]

    def alldims(self, o, t):
        """dimensions of all numbers in an object"""
        D = self.D
        t = t.deref() if t is not None else None
        if t is not None and t.k == 'rec' and t.name in self.p.classes:
            r = []
            c = self.p.classes[t.name]
            for fl in c.fields:
                k = fl[0] if isinstance(fl, (list, tuple)) else fl
                k = k if '::' in k else t.name + '::' + k
                r.append(D.dimof(D.field(o, k, k.rsplit('::', 1)[-1], None)))
            return r
        return [D.dimof(o)]

    def blas(self, n, es):
        D = self.D
        u = self.dim(es[0])
        x = strip_casts(es[1])
        o = self.ev(es[1])
        self.count(n, 'scaling of an array')
        new = Obj()
        e = D.kid(o, 'e') if o is not None else Obj()
        k = Obj(D.mul(D.dimof(e), u)) if not find(e).top else Obj(top=True)
        new.kids['e'] = new.kids[0] = k
        if x.k == 'Ref' and x.a[0] == 'L':
            self.env[x.a[1]] = new
        elif x.k == 'Member' and x.a[0] == 'M':
            self.over[x.a[1]] = new
        elif x.k == 'OpCall' or x.k == 'Idx':
            b = find(self.ev(x.c[0]))
            b.kids['e'] = new
        return None

    # ---- units remembered together with the kind of a target
    def x_MCall(self, n):
        o = n.c[0]
        if n.a[0] and '::reset' in qual(n.a[0]) and o is not None and strip_casts(o).k == 'Member' and strip_casts(o).a[-1] == 'target':
            for c in n.c[1:]:
                for x in c.walk():
                    if x.k == 'New0' and x.a[0]:
                        self.target = bare(qual(x.a[0])).rsplit('::', 1)[-1]
        return Fn.x_MCall(self, n)

    def x_Assign(self, n):
        l = strip_casts(n.c[0])
        if l.k == 'Member' and l.a[0] == 'M' and l.a[1] in KINDUNIT and getattr(self, 'target', None):
            want = KINDUNIT[l.a[1]].get(self.target)
            if want is not None and self.literal(n.c[1]) is None:
                self.eq(n, self.dim(n.c[1]), self.D.spec(want), 'unit of the values computed by %s' % self.target)
        return Fn.x_Assign(self, n)

    # ---- calls
    def zero(self, n, e, v, what):
        """a value or array in user units"""
        D = self.D
        if v is None:
            return
        t = e.t
        if t is not None and t.k == 'float':
            if not self.polym(e):
                self.eq(n, D.dimof(v), D.ZERO, what)
        elif t is not None and isfloatptr(t):
            if not D.israw(v):
                for k in list(find(v).kids.values()):
                    if not find(k).kids:
                        self.eq(n, D.dimof(k), D.ZERO, what)

    def x_Call(self, n):
        D = self.D
        key = n.a[0]
        es = n.c[1:]
        if key is None and n.c[0] is not None:
            self.ev(n.c[0])
            for e in es:
                x = strip_casts(e)
                v = self.ev(x)
                self.zero(n, x, v, 'value passed to Python')
            return self.other(n)
        q = qual(key) if key else ''
        base = bare(q).rsplit('::', 1)[-1]
        if base.startswith('PyArg_Parse'):
            for e in es:
                y = strip_casts(e)
                if y is not None and y.k == 'Un' and y.a == '&':
                    x = strip_casts(y.c[0])
                    if x.t is not None and x.t.k == 'float':
                        self.count(n, 'argument from Python')
                        if x.k == 'Ref' and x.a[0] == 'L' and x.a[1] not in self.alias:
                            self.env[x.a[1]] = Obj(D.ZERO)
                        else:
                            o = self.ev(x)
                            if o is not None:
                                self.eq(n, D.dimof(o), D.ZERO, 'argument from Python')
                    continue
                self.ev(e)
            return self.other(n)
        if base in ('PyFloat_AsDouble', 'PyLong_AsDouble'):
            for e in es:
                self.ev(e)
            self.count(n, 'value from Python')
            return D.num()
        if base in ('PyFloat_FromDouble', 'Py_BuildValue', 'PyObject_CallFunction', 'PyObject_CallMethod'):
            for e in es:
                x = strip_casts(e)
                self.zero(n, x, self.ev(e), 'value passed to Python')
            return self.other(n)
        if 'pyArrayElem' in base:
            for e in es:
                self.ev(e)
            self.count(n, 'array element')
            o = self.other(n)
            if n.t is not None and n.t.deref().k == 'float':
                o = Obj(D.ZERO)
                o.raw = ('elem', n.line)
            return o
        if base == 'blas_dmul':
            return self.blas(n, es)
        if base.startswith('allocateOutput'):
            for e in es:
                self.ev(e)
            return self.other(n)
        return Fn.x_Call(self, n)

    def builtin(self, n, q, base, es):
        if q.startswith('std::') and base in ('copy', 'fill', 'swap', 'reverse', 'sort'):
            vs = [self.ev(e) for e in es]
            if base == 'copy' and len(vs) == 3 and vs[0] is not None and vs[2] is not None:
                a = self.D.kid(vs[0], 'e')
                b = self.D.kid(vs[2], 'e')
                self.eq(n, self.D.dimof(a), self.D.dimof(b), 'copying of arrays')
            return self.other(n)
        return Fn.builtin(self, n, q, base, es)

    def libspec(self, key):
        q = bare(qual(key))
        return HELPERS.get(q) or LIB.get(q)

    def call(self, n, key, es, obj=None):
        D = self.D
        f = self.p.functions.get(key)
        sp = self.libspec(key) if self.f.q not in FILEUNITS else None
        if bare(qual(key)).endswith('::unpack_to') and qual(key).startswith('coord::') and self.f.q not in FILEUNITS:
            v = self.ev(es[0])
            if D.israw(v):
                self.stage(n, find(v).raw, [D.L, D.V] if 'PosVelT' in key else [D.L] if 'PosT' in key else [D.V])
                return None
        if sp is None and f is not None and f.file == FILE:
            return Fn.call(self, n, key, es, obj)
        if sp is None and f is not None and f.file.startswith('coord') and not any(D.israw(self.ev(e)) for e in es):
            return Fn.call(self, n, key, es, obj)
        self.outs(es)
        vs = [self.ev(e) for e in es]
        g = self.generic(n, key, es, vs, obj) if sp is None else False
        if g is not False:
            return g
        ps = None
        if sp is None and any(qual(r) in dims.CONTRACT for r in D.roots(key)):
            if f is None:
                ps, ret = D.abstract(key, es) if False else self.abstract(key, es)
            else:
                ps, ret = D.params(key)
        for i, (e, v) in enumerate(zip(es, vs)):
            if v is None:
                continue
            name = f.params[i][1] if f is not None and i < len(f.params) else '_%d' % i
            pt = f.params[i][2] if f is not None and i < len(f.params) else e.t
            what = 'argument %s of %s' % (name, qual(key).split('<')[0])
            if sp is not None:
                s = sp.get(name, sp.get('_%d' % i))
                if s is not None:
                    self.spec(n, e, v, s, what)
                    continue
            p = ps[i] if ps is not None and i < len(ps) else None
            if D.israw(v):
                if pt is not None and pt.s.startswith('const') or p is None and (pt is None or pt.sub is None or pt.sub.deref().k != 'rec'):
                    if p is not None:
                        self.bind(e, p, v, what)
                    continue
                t = pt.sub
                self.stage(n, find(v).raw, self.alldims(D.kid(p, 0, t) if p is not None else D.make(t), t))
                continue
            if p is not None and not self.polym(e):
                self.bind(e, p, v, what)
        if sp is not None and 'ret' in sp:
            self.count(n, 'result of a library function')
            return D.shape(sp['ret'])
        if ps is not None:
            if n.t is not None and n.t.k == 'float':
                return Obj(D.dimof(ret))
            return ret if n.t is None or n.t.k not in dims.NUMT else D.num()
        return self.other(n)

    def spec(self, n, e, v, s, what):
        D = self.D
        if s[0] == '*':
            y = strip_casts(e)
            if s[1] == 'v':         # pointer to vectors
                self.bind(n, D.kid(D.kid(v, 0), 'e'), D.shape(s[2:]), what)
                return
            d = D.spec(s[1:])
            if D.israw(v):
                self.stage(n, find(v).raw, [d])
            elif e.t is not None and e.t.k == 'float':
                if y.k == 'Ref' and y.a[0] == 'L' and y.a[1] not in self.alias:
                    self.count(n, what)
                    self.env[y.a[1]] = Obj(d)
                else:
                    self.eq(n, D.dimof(v), d, what)
            else:
                for k in (0, 'e'):
                    self.eq(n, D.dimof(D.kid(v, k)), d, what)
        elif s[0] == 'g':
            o = D.kid(v, 0)
            self.eq(n, D.dimof(D.kid(o, '#F')), D.spec(s[1:]), what)
        elif s[0] == 'v':
            self.bind(n, D.shape(s), v, what)
        elif not self.polym(e):
            self.eq(n, D.dimof(v), D.spec(s), what)

    def x_New0(self, n):
        key = n.a[0]
        sp = self.libspec(key) if key else None
        f = self.p.functions.get(key) if key else None
        if sp is not None and f is not None:
            for i, e in enumerate(n.c):
                v = self.ev(e)
                s = sp.get(f.params[i][1]) if i < len(f.params) else None
                if s is not None and v is not None:
                    self.spec(n, e, v, s, 'argument %s of %s' % (f.params[i][1], qual(key).split('<')[0]))
            o = Obj()
            self.D.typed(o, qual(key).rsplit('::', 1)[0])
            return o
        if f is not None and f.file != FILE and not f.file.startswith('coord') and f.cls not in ('actions::Actions', 'actions::Angles', 'actions::Frequencies'):
            for e in n.c:
                self.ev(e)
            o = Obj()
            self.D.typed(o, qual(key).rsplit('::', 1)[0])
            return o
        return Fn.x_New0(self, n)

    def polymorphic(self, f, n):
        if f.file != FILE and not f.file.startswith('coord') and not f.file.startswith('actions_base.h'):
            return False
        return Fn.polymorphic(self, f, n)


def analyse(prog):
    D = PyDims(prog)
    ks = [k for k in sorted(prog.functions) if prog.functions[k].body is not None and (prog.functions[k].file == FILE or prog.functions[k].file.startswith('coord.'))]
    ks.sort(key=lambda k: (not prog.functions[k].file.startswith('coord.h'), 'K' not in prog.functions[k].fl))
    for k in ks:
        f = prog.functions[k]
        (PyFn if f.file == FILE else Fn)(D, f).run()
    D.settle(lambda n, w, a, b: D.conflicts.setdefault((n.fn.file, n.line, w), (n, w, D.s.show(a), D.s.show(b))))
    return D, ks


# kinds of places where quantities cross the interface, and the number of them found at least
PLACES = {'argument from Python': 8, 'value from Python': 5, 'array element': 20, 'value passed to Python': 15, 'result of a library function': 5, 'scaling of an array': 5, 'conversion of the output': 3, 'unit of a parameter': 40}


def check_c12(rep):
    prog = Program()
    D, ks = analyse(prog)
    import factory_units
    D2, ks2 = factory_units.analyse(prog)
    bad = set()
    conflicts = [c for c in sorted(D.conflicts.items()) if c[0][0] == FILE] + [c for c in sorted(D2.conflicts.items()) if c[0][0] in factory_units.FILES]
    for (file, line, w), (n, what, a, b) in conflicts:
        bad.add((file, line, what))
        rep.bad('unit', '%s: %s: %s / %s' % (n.fn.q, what, a, b), n.fn.loc(n),
                '%s: a quantity of dimension %s where %s is needed (L length, V velocity in internal units, masses are L V^2; values in user units count as dimensionless, i.e. a conversion is missing, repeated or made with the factor of another dimension)' % (what, a, b))
    count = {}
    uses = 0
    for file, line, what in sorted(D2.checked):
        if file in factory_units.FILES:
            count[what] = count.get(what, 0) + 1
            if (file, line, what) not in bad:
                rep.ok('unit-file', '%s:%d %s' % (file, line, what))
    for file, line, what in sorted(D.checked):
        if file == FILE:
            count[what] = count.get(what, 0) + 1
            if (file, line, what) not in bad:
                rep.ok('unit', '%s:%d %s' % (file, line, what))
    for k in ks + ks2:
        f = prog.functions[k]
        if f.file == FILE or f.file in factory_units.FILES:
            uses += sum(1 for n in f.walk() if n.k == 'Member' and n.a[0] == 'M' and n.a[1] in ('units::ExternalUnits::lengthUnit', 'units::ExternalUnits::velocityUnit', 'units::ExternalUnits::massUnit', 'units::ExternalUnits::timeUnit'))
    rep.notes.append('%d functions, %d equations, %d uses of unit factors; %s' % (len(ks) + len(ks2), len(D.checked) + len(D2.checked), uses, ', '.join('%s: %d' % (w, count.get(w, 0)) for w in PLACES)))
    for w, m in PLACES.items():
        if count.get(w, 0) < m:
            raise AnalysisError('only %d places of the kind "%s" found, at least %d expected' % (count.get(w, 0), w, m))
    rep.require('unit', 800, 'equations between dimensions')
    rep.require('unit-file', 600, 'equations between dimensions in factories and file formats')
    return prog
