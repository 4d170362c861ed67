"""C12, second part: conversion of units in the routines that the Python interface uses to create models from
parameters and to read or write files.  Numbers in text or in a snapshot file are pure numbers; parameters of models,
particles and coefficients of expansions have their physical dimensions.
"""
import re
from core import *
import dims
from dims import Dims, Fn, Obj, find, bare, LIB, OUT
import units_checks
from units_checks import PyFn

FILES = ('potential_factory.cpp', 'df_factory.cpp', 'particles_io.cpp')
OUT['a'], OUT['Ec'] = dict(L=-1, V=2), dict(V=2)
# documented dimensions of the parameters of all models
ALLPARAM = dict(mass='M', surfaceDensity='S', densityNorm='R', scaleRadius='L', scaleHeight='L', innerCutoffRadius='L', outerCutoffRadius='L', v0='V', Omega='1/T',
                axisRatioY='0', axisRatioZ='0', alpha='0', beta='0', gamma='0', modulationAmplitude='0', cutoffStrength='0', sersicIndex='0', W0='0', trunc='0',
                binary_q='0', binary_sma='L', binary_ecc='0', binary_phase='0', rmin='L', rmax='L', zmin='L', zmax='L', smoothing='0', eta='0', r0='L', lengthUnit='L')
FLD = {'potential::AllParam::' + k: v for k, v in ALLPARAM.items()}
FLD.update({'particles::ParticleAux::stellarMass': 'M', 'particles::ParticleAux::stellarRadius': 'L'})
SPEC = {
    'utils::toDouble': dict(ret='0'),
    'utils::toFloat': dict(ret='0'),
    'utils::KeyValueMap::getDouble': dict(defaultValue='0', ret='0'),
    'utils::KeyValueMap::getDoubleAlt': dict(defaultValue='0', ret='0'),
    'utils::toString': dict(_0='0'),
    'utils::pp': dict(_0='0'),
    'particles::ParticleArray::add': dict(_1='M', second='M'),
    'particles::ParticleArray::mass': dict(ret='M'),
    'particles::ParticleAux::ParticleAux': dict(m='M', r='L', _stellarMass='M', _stellarRadius='L', _1='M', _2='L'),
    'potential::BasisSet::BasisSet': dict(eta='0', r0='L', coefs='vvEc', _0='0', _1='L', _2='vvEc'),
    'potential::BasisSet::getCoefs': dict(_0='*0', _1='*L', _2='vvEc'),
    'potential::Multipole::Multipole': dict(_0='vL', _1='vvEc', _2='vva'),
    'potential::Multipole::getCoefs': dict(_0='vL', _1='vvEc', _2='vva'),
    'potential::CylSpline::CylSpline': dict(_0='vL', _1='vL', _2='vvEc', _3='vva', _4='vva'),
    'potential::CylSpline::getCoefs': dict(_0='vL', _1='vL', _2='vvEc', _3='vva', _4='vva'),
    'potential::DensitySphericalHarmonic::DensitySphericalHarmonic': dict(_0='vL', _1='vvR'),
    'potential::DensitySphericalHarmonic::getCoefs': dict(_0='vL', _1='vvR'),
    'potential::DensityAzimuthalHarmonic::DensityAzimuthalHarmonic': dict(_0='vL', _1='vL', _2='vvR'),
    'potential::DensityAzimuthalHarmonic::getCoefs': dict(_0='vL', _1='vL', _2='vvR'),
    'potential::BasisSet::create': dict(eta='0', r0='L'),
    'potential::Multipole::create': dict(rmin='L', rmax='L', smoothing='0', gridRmin='L', gridRmax='L'),
    'potential::CylSpline::create': dict(Rmin='L', Rmax='L', zmin='L', zmax='L', gridRmin='L', gridRmax='L', gridzmin='L', gridzmax='L'),
    'potential::DensitySphericalHarmonic::create': dict(rmin='L', rmax='L', smoothing='0', gridRmin='L', gridRmax='L'),
    'potential::DensityAzimuthalHarmonic::create': dict(Rmin='L', Rmax='L', zmin='L', zmax='L', gridRmin='L', gridRmax='L', gridzmin='L', gridzmax='L'),
    'potential::Logarithmic::Logarithmic': dict(_0='V', _1='L', _2='0', _3='0', _4='L'),
    'potential::Harmonic::Harmonic': dict(_0='1/T', _1='0', _2='0'),
    'potential::MiyamotoNagai::MiyamotoNagai': dict(_0='M', _1='L', _2='L'),
    'potential::Dehnen::Dehnen': dict(_0='M', _1='L', _2='0', _3='0', _4='0'),
    'potential::Ferrers::Ferrers': dict(_0='M', _1='L', _2='0', _3='0'),
    'potential::Plummer::Plummer': dict(_0='M', _1='L'),
    'potential::Isochrone::Isochrone': dict(_0='M', _1='L'),
    'potential::NFW::NFW': dict(_0='M', _1='L'),
    'potential::PerfectEllipsoid::PerfectEllipsoid': dict(_0='M', _1='L', _2='L'),
    'potential::createKingPotential': dict(_0='M', _1='L', _2='0', _3='0'),
    'potential::createKingDensity': dict(_0='M', _1='L', _2='0', _3='0'),
    'potential::UniformAcceleration::UniformAcceleration': dict(_0='fTa', _1='fTa', _2='fTa'),
    'potential::Scaled::Scaled': dict(_1='fT0', _2='fT0'),
    'potential::Rotating::Rotating': dict(_1='fT0'),
    'potential::Shifted::Shifted': dict(_1='fTL', _2='fTL', _3='fTL'),
    'potential::Evolving::Evolving': dict(_0='vT'),
    'df::QuasiSphericalCOM::QuasiSphericalCOM': dict(_2='0', _3='L'),
    'particles::NemoSnapshotWriter::putVal': dict(_1='0'),
}


class FacDims(units_checks.PyDims):
    raws = False

    def __init__(self, prog):
        units_checks.PyDims.__init__(self, prog)

    def kid(self, o, sel, t=None):
        return Dims.kid(self, o, sel, t)

    def spec(self, s):
        return self.s.dim(**OUT[s])

    def shape(self, s):
        if s is not None and s[0] == 'f' and s != 'f':
            o = Obj()
            m = re.match(r'f(1/T|LV|T|L|0)(.*)$', s)
            o.kids['#X'], o.kids['#F'] = self.shape(m.group(1)), self.shape(m.group(2))
            return o
        return Dims.shape(self, s)

    def typed(self, o, name):
        Dims.typed(self, o, name)
        if name and re.match(r'std::pair<(coord::Pos|particles::)', name):
            o.kids.setdefault('second', Obj(self.M))

    def field(self, o, key, name, t):
        if key in FLD:
            return self.shape(FLD[key])
        if key.startswith('std::pair<') and name == 'second' and re.match(r'std::pair<(coord::Pos|particles::)', key):
            return Obj(self.M)
        return Dims.field(self, o, key, name, t)

    def contract(self, key, f, ps, ret):
        Dims.contract(self, key, f, ps, ret)


EXEMPT = {'potential::readMassProfile': 'the file contains values in internal units'}


def pkey(n):
    x = n.c[0] if n.c else None
    x = strip_casts(x) if x is not None else None
    return x.a[1] if x is not None and x.k == 'Ref' else None


def isfloat32(t):
    return t is not None and t.k == 'float' and t.s.replace('const ', '') == 'float'


class FacFn(PyFn):
    def __init__(self, D, f):
        Fn.__init__(self, D, f)
        self.staged, self.over, self.overset = {}, {}, set()
        self.unitp = None
        self.post = {}
        self.trial = set()

    def blas(self, n, es):
        # the array has other dimensions afterwards
        D = self.D
        u = self.dim(es[0])
        x = strip_casts(es[1])
        o = self.ev(es[1])
        self.count(n, 'scaling of an array')
        e = D.kid(o, 'e') if o is not None else Obj()
        k = Obj(D.mul(D.dimof(e), u)) if not find(e).top else Obj(top=True)
        new = Obj()
        new.kids['e'] = new.kids[0] = k
        if x.k in ('OpCall', 'Idx'):
            x = strip_casts(x.c[0])
            w = Obj()
            w.kids['e'] = w.kids[0] = new
            new = w
        if x.k == 'Ref' and x.a[0] == 'L':
            if x.a[1] in self.post:
                self.bind(n, self.post[x.a[1]], new, 'scaling of an array')
                new = self.post[x.a[1]]
            self.post[x.a[1]] = new
            self.env[x.a[1]] = new
        return None

    def join(self, a, b, n):
        if a is not None and b is not None:
            a, b = dict(a), dict(b)
            for k, o in self.post.items():
                if any(k in x and find(x[k]) is find(o) for x in (a, b)):
                    a[k] = b[k] = o
        return PyFn.join(self, a, b, n)

    def latest(self, k, y):
        return k in self.post and find(self.post[k]) is y

    def s_Throw(self, n):
        self.env = None

    def run(self):
        f, D = self.f, self.D
        if f.n == 'assignParam' and f.params[0][2].deref().k == 'float':
            # a reference to a number in user units, which is converted before returning
            self.unitp = f.params[0][0]
            Fn.run(self)
            self.atend(f.body)
            return
        Fn.run(self)

    def stmt(self, n):
        if self.unitp is not None and n is self.f.body:
            self.alias.discard(self.unitp)
            self.env[self.unitp] = Obj(self.D.ZERO)
        Fn.stmt(self, n)

    def atend(self, n):
        if self.env is not None:
            ps, _ = self.D.params(self.f.key)
            self.eq(n, self.D.dimof(self.env[self.unitp]), self.D.dimof(ps[-1]), 'value of a parameter after conversion')

    def s_Return(self, n):
        if self.unitp is not None:
            self.atend(n)
        m = getattr(Fn, 's_Return', None)
        return m(self, n)

    def mism(self, n, k, x, y):
        if k == self.unitp and not (isinstance(x, Obj) and False):
            return x if self.D.s.known(y.d) == self.D.ZERO else y
        return Fn.mism(self, n, k, x, y)

    def scaledfields(self, f):
        return set()

    def fieldobj(self, o, key, name, t):
        return self.D.field(o, key, name, t)

    def ev(self, n):
        o = Fn.ev(self, n)
        if n is not None and n.k in ('Idx', 'OpCall', 'Un') and isfloat32(n.t):
            return Obj(self.D.ZERO)
        return o

    def x_Idx(self, n):
        # an array of interpolators is filled element by element in one place and used in another
        t = n.t.deref() if n.t is not None else None
        if t is not None and t.k == 'rec' and 'CubicSpline' in t.s:
            b = self.ev(n.c[0])
            self.ev(n.c[1])
            if b is not None:
                e = self.D.kid(b, 'e', n.t)
                if 0 not in b.kids:
                    b.kids[0] = e
                elif b.kids[0] is not e:
                    self.bind(n, b.kids[0], e, 'elements of an array')
                return e
        return Fn.x_Idx(self, n)

    def x_Cast(self, n):
        if isfloat32(n.t) and n.c and n.c[0].t is not None and n.c[0].t.k == 'float' and not isfloat32(n.c[0].t):
            d = self.dim(n.c[0])
            if self.literal(n.c[0]) is None and not self.polym(n.c[0]):
                self.eq(n, d, self.D.ZERO, 'value stored in single precision')
            return Obj(self.D.ZERO)
        return Fn.x_Cast(self, n)

    def scaled(self, n, l, o, d):
        return Fn.scaled(self, n, l, o, d)

    def x_OpCall(self, n):
        key = n.a[0] or ''
        if 'operator<<' in key and len(n.c) == 2 and n.c[1].t is not None and n.c[1].t.k == 'float':
            self.ev(n.c[0])
            d = self.dim(n.c[1])
            if self.literal(n.c[1]) is None and not self.polym(n.c[1]):
                self.eq(n, d, self.D.ZERO, 'value written')
            return self.other(n)
        return Fn.x_OpCall(self, n)

    def x_MCall(self, n):
        key = n.a[0] or ''
        if 'operator<<' in key and n.c[0] is not None and len(n.c) == 2 and n.c[1].t is not None and n.c[1].t.k == 'float':
            self.ev(n.c[0])
            self.eq(n, self.dim(n.c[1]), self.D.ZERO, 'value written')
            return self.other(n)
        return Fn.x_MCall(self, n)

    def x_Assign(self, n):
        # a model created with unit normalisation serves to find the actual one
        l = strip_casts(n.c[0])
        if l.k == 'Member' and l.t is not None and l.t.k == 'float':
            key = (l.a[1], pkey(l))
            if self.literal(n.c[1]) is not None:
                self.trial.add(key)
            elif key in self.trial:
                self.trial.discard(key)
                self.ev(n.c[1])
                return self.ev(n.c[0])
        return Fn.x_Assign(self, n)

    def x_Call(self, n):
        key = n.a[0]
        q = bare(qual(key)) if key else ''
        if q.endswith('::blas_dmul'):
            return self.blas(n, n.c[1:])
        if q == 'utils::msg' or key is None and any(x.k == 'Ref' and x.a[0] == 'G' and 'utils::msg' in str(x.a[1]) for x in n.c[0].walk()):
            return self.other(n)
        f = self.p.functions.get(key) if key else None
        if f is not None and f.n == 'assignParam':
            es = n.c[1:]
            if f.params[0][2].deref().k != 'float':
                return Fn.x_Call(self, n)
            o = self.ev(es[0])
            for e in es[1:-1]:
                self.ev(e)
            u = self.ev(es[-1])
            d = self.D.ZERO if self.literal(es[-1]) is not None or es[-1].k == 'DefArg' else self.D.dimof(u)
            self.eq(n, self.D.dimof(o), d, 'unit of a parameter')
            return None
        return Fn.x_Call(self, n)

    def builtin(self, n, q, base, es):
        return Fn.builtin(self, n, q, base, es)

    def libspec(self, key):
        q = bare(qual(key))
        return SPEC.get(q) or LIB.get(q)

    def call(self, n, key, es, obj=None):
        sp = self.libspec(key)
        f = self.p.functions.get(key)
        if sp is None:
            return Fn.call(self, n, key, es, obj)
        vs = [self.ev(e) for e in es]
        self.specs(n, key, f, sp, es, vs)
        if 'ret' in sp:
            self.count(n, 'result of a library function')
            return self.D.shape(sp['ret'])
        return self.other(n)

    def specs(self, n, key, f, sp, es, vs):
        for i, (e, v) in enumerate(zip(es, vs)):
            if v is None:
                continue
            name = f.params[i][1] if f is not None and i < len(f.params) else '_%d' % i
            s = sp.get(name, sp.get('_%d' % i))
            if s is None or e.t is None or e.t.deref().k in dims.NUMT and e.t.deref().k != 'float' or self.literal(e) is not None:
                continue
            what = 'argument %s of %s' % (name, qual(key).split('<')[0])
            if s[0] == '*':
                x = strip_casts(e)
                if x.k == 'Ref' and x.a[0] == 'L' and x.a[1] not in self.alias:
                    self.count(n, what)
                    self.env[x.a[1]] = Obj(self.D.spec(s[1:]))
                    continue
                s = s[1:]
            if s[0] in 'fv':
                self.bind(n, self.D.shape(s), v, what)
            elif e.t.k == 'float' and not self.polym(e):
                self.eq(n, self.D.dimof(v), self.D.spec(s), what)

    def x_New0(self, n):
        key = n.a[0]
        sp = self.libspec(key) if key else None
        if sp is not None:
            vs = [self.ev(e) for e in n.c]
            if not (len(n.c) == 1 and n.c[0].t is not None and n.c[0].t.deref().k == 'rec' and n.c[0].t.deref().name == qual(key).rsplit('::', 1)[0]):
                self.specs(n, key, self.p.functions.get(key), sp, n.c, vs)
            o = Obj()
            self.D.typed(o, qual(key).rsplit('::', 1)[0])
            return o
        return Fn.x_New0(self, n)

    def refill(self, e, t):
        return False

    def purelit(self, q):
        return 'nit' in q[1]

    def polymorphic(self, f, n):
        if f.body is not None and f.file in FILES and self.depth < 4 and any(q[2].k == 'float' and 'nit' in q[1] for q in f.params):
            return True
        return Fn.polymorphic(self, f, n)


def analyse(prog):
    D = FacDims(prog)
    ks = [k for k in sorted(prog.functions) if prog.functions[k].body is not None and (prog.functions[k].file in FILES and prog.functions[k].q not in EXEMPT or prog.functions[k].file.startswith('coord.h'))]
    ks.sort(key=lambda k: (not prog.functions[k].file.startswith('coord.h'), 'K' not in prog.functions[k].fl))
    for k in ks:
        f = prog.functions[k]
        (FacFn if f.file in FILES else Fn)(D, f).run()
    D.settle(lambda n, w, a, b: D.conflicts.setdefault((n.fn.file, n.line, w), (n, w, D.s.show(a), D.s.show(b))))
    return D, ks
