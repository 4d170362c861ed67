"""C12, C13: inference of physical dimensions.

Every floating-point value gets a vector of exponents (of length and velocity inside the library, where the
gravitational constant is unity; additionally of the user's units at the interfaces).  Assignments, additions,
comparisons, calls, returns and products generate linear equations for these exponents, which are solved
incrementally (unification); the data types of positions, velocities, forces etc. and the interfaces of densities,
potentials, distribution functions and action finders provide the known dimensions.  An equation that contradicts
the earlier ones is a violation.  Exponents may be symbolic (parameters used in powers).
"""
import re, random
from fractions import Fraction as Fr
from core import *
from facts import AnalysisError

# ---------------------------------------------------------------- exponents: polynomials in symbols plus unknowns
# a linear form is {key: coefficient}, key = int (unknown) or tuple of (symbol, power) (monomial; () is a number)


def lin(c=0):
    return {(): Fr(c)} if c else {}


def ladd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        x = r.get(k, 0) + s * v
        if x:
            r[k] = x
        else:
            r.pop(k, None)
    return r


def lscale(a, c):
    return {k: v * c for k, v in a.items()} if c else {}


def mmul(a, b):
    d = dict(a)
    for s, p in b:
        d[s] = d.get(s, 0) + p
    return tuple(sorted((s, p) for s, p in d.items() if p))


def pmul(a, b):
    """product of two polynomials without unknowns"""
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = mmul(k, l)
            x = r.get(m, 0) + v * w
            if x:
                r[m] = x
            else:
                r.pop(m, None)
    return r


def isconst(a):
    return all(isinstance(k, tuple) for k in a)


def pnum(a):
    """numeric value of a polynomial that is a number"""
    if not a:
        return Fr(0)
    if len(a) == 1 and () in a:
        return a[()]
    return None


def psym(s):
    return {((s, 1),): Fr(1)}


def pinv(a):
    n = pnum(a)
    if n is not None:
        return {(): 1 / n} if n else None
    if len(a) == 1:
        (m, c), = a.items()
        return {tuple((s, -p) for s, p in m): 1 / c}
    return psym(('inv', tuple(sorted(a.items(), key=repr))))


def pval(a, vals):
    """numeric value for random values of symbols"""
    r = 0.
    for m, c in a.items():
        x = float(c)
        for s, p in m:
            x *= sval(s, vals) ** p
        r += x
    return r


def sval(s, vals):
    if isinstance(s, tuple) and s and s[0] == 'inv':
        return 1 / pval(dict(s[1]), vals)
    if s not in vals:
        vals[s] = random.Random(repr(s)).uniform(0.3, 2.9)
    return vals[s]


class Solver(object):
    def __init__(self, bases):
        self.bases = bases
        self.n = 0
        self.sub = {}
        self.free = {}          # unknown -> allowed bases (not used after creation)

    def new(self):
        self.n += 1
        return self.n

    def fresh(self, bases=None):
        """dimension with all exponents unknown"""
        return tuple({self.new(): Fr(1)} if bases is None or b in bases else {} for b in self.bases)

    def dim(self, **kw):
        return tuple(lin(Fr(kw[b])) if b in kw else {} for b in self.bases)

    def red(self, a):
        if not any(k in self.sub for k in a if isinstance(k, int)):
            return a
        r = {}
        for k, v in a.items():
            if isinstance(k, int) and k in self.sub:
                x = self.red(self.sub[k])
                self.sub[k] = x
                r = ladd(r, x, v)
            else:
                r = ladd(r, {k: v})
        return r

    def rdim(self, d):
        return tuple(self.red(a) for a in d)

    def equate(self, x, y):
        """False if the equation contradicts the earlier ones (then nothing is changed)"""
        ds = [self.red(ladd(a, b, -1)) for a, b in zip(x, y)]
        for d in ds:
            if d and isconst(d) and not self.zero(d):
                return False
        for d in ds:
            d = self.red(d)
            v = [k for k in d if isinstance(k, int)]
            if v:
                k = max(v)
                c = d[k]
                self.sub[k] = {j: -w / c for j, w in d.items() if j != k}
            elif d and not self.zero(d):
                return False
        return True

    def zero(self, d):
        if pnum(d) is not None:
            return pnum(d) == 0
        return all(abs(pval(d, {s: random.Random(repr(s) + str(i)).uniform(0.3, 2.9) for m in d for s, p in m if not (isinstance(s, tuple) and s[0] == 'inv')})) < 1e-9 for i in range(2))

    def known(self, d):
        d = self.rdim(d)
        return d if all(isconst(a) for a in d) else None

    def show(self, d):
        r = []
        for b, a in zip(self.bases, self.rdim(d)):
            if not a:
                continue
            if not isconst(a):
                r.append('%s^?' % b)
            elif pnum(a) is not None:
                n = pnum(a)
                r.append(b if n == 1 else '%s^%s' % (b, n))
            else:
                r.append('%s^(%s)' % (b, ' + '.join('%s%s' % ('' if c == 1 and m else c, ''.join('*%s' % (re.sub(r'.*::', '', str(s[-1] if isinstance(s, tuple) else s))) for s, p in m)) for m, c in sorted(a.items(), key=repr))))
        return ' '.join(r) or 'dimensionless'


class Obj(object):
    __slots__ = ('up', 'd', 'kids', 'top', 't', 'poly', 'raw')

    def __init__(self, d=None, top=False):
        self.up = None
        self.d = d
        self.kids = {}
        self.top = top
        self.t = None
        self.raw = None         # (units at the Python interface) storage holding values in user units
        self.poly = None        # symbolic value used in exponents


def find(o):
    while o.up is not None:
        if o.up.up is not None:
            o.up = o.up.up
        o = o.up
    return o


COORD = {'x': 1, 'y': 1, 'z': 1, 'R': 1, 'r': 1, 'rho': 1, 'lambda': 2, 'theta': 0, 'phi': 0}
NUMT = ('float', 'int', 'uint', 'bool', 'enum', 'char')


def coordnames(s, nu):
    """[('R',2)] from 'dR2', 'dRdz' """
    r = []
    while s:
        m = re.match(r'd(x|y|z|R|rho|r|lambda|nu|theta|phi)(?=d|2|$)(2?)', s)
        if not m:
            return None
        c = m.group(1)
        r.append((nu if c == 'nu' else COORD[c]) * (2 if m.group(2) else 1))
        s = s[m.end():]
    return sum(r)


class Dims(object):
    """state of the analysis of the whole program"""
    def __init__(self, prog, bases=('L', 'V')):
        self.p = prog
        prog.method_info()
        self.s = Solver(bases)
        self.ZERO = self.s.dim()
        s = self.s
        self.L, self.V = s.dim(L=1), s.dim(V=1)
        self.T = s.dim(L=1, V=-1)
        self.M = s.dim(L=1, V=2)
        self.POT = s.dim(V=2)
        self.RHO = s.dim(L=-2, V=2)
        self.ACT = s.dim(L=1, V=1)
        self.FREQ = s.dim(V=1, L=-1)
        self.DF = s.dim(L=-2, V=-1)
        self.fld = {}
        self.par = {}
        self.cls = {}
        self.glob = {}
        self.ifn = {}
        self.conflicts = {}
        self.checked = {}
        self.deferred = []
        self.size = {}
        self._isfn = {}
        self._root = {}

    # ---- dimensions arithmetic
    def mul(self, a, b, s=1):
        return tuple(ladd(x, y, s) for x, y in zip(a, b))

    def scale(self, a, c):
        return tuple(lscale(x, c) for x in a)

    def power(self, d, e, n):
        """d^e for a polynomial e"""
        if e is None:
            e = psym(('expr', n.fn.key, n.line))
        c = pnum(e)
        if c is not None:
            return self.scale(d, c)
        k = self.s.known(d)
        if k is not None:
            return tuple(pmul(a, e) for a in k)
        r = self.s.fresh()
        self.deferred.append((d, e, r, n))
        return r

    def settle(self, report):
        again = True
        while again:
            again = False
            rest = []
            for d, e, r, n in self.deferred:
                k = self.s.known(d)
                if k is None:
                    rest.append((d, e, r, n))
                    continue
                again = True
                v = tuple(pmul(a, e) for a in k)
                if not self.s.equate(r, v):
                    report(n, 'power', r, v)
            self.deferred = rest

    # ---- objects
    def dimof(self, o):
        o = find(o)
        if o.top:
            return self.s.fresh()
        if o.d is None:
            o.d = self.s.fresh()
        return o.d

    def const(self, d):
        return Obj(d)

    def num(self, poly=None):
        o = Obj(self.ZERO)
        o.poly = poly
        return o

    def unify(self, a, b):
        """merge two objects; returns list of conflicting dimensions"""
        bad = []
        stack = [(a, b)]
        while stack:
            a, b = stack.pop()
            a, b = find(a), find(b)
            if a is b or a.top or b.top:
                continue
            if a.d is not None and b.d is not None:
                if not self.s.equate(a.d, b.d):
                    bad.append((a.d, b.d))
                    continue
            elif a.d is None:
                a.d = b.d
            if a.t is None:
                a.t = b.t
            b.up = a
            for k, x in b.kids.items():
                y = a.kids.get(k)
                if y is None:
                    a.kids[k] = x
                else:
                    stack.append((x, y))
        return bad

    def kid(self, o, sel, t=None):
        o = find(o)
        if o.top:
            return Obj(top=True)
        k = o.kids.get(sel)
        if k is None:
            k = self.make(t)
            if find(o) is o:
                o.kids[sel] = k
        return find(k)

    def make(self, t):
        """new object of the given type"""
        o = Obj()
        if t is not None:
            t = t.deref()
            if t.k in ('int', 'uint', 'bool', 'enum', 'char'):
                o.d = self.ZERO
            elif t.k == 'rec':
                self.typed(o, t.name)
            o.t = t
        return o

    def isfunction(self, cls):
        """is the class a user-defined one-dimensional function (outside the math library)"""
        if cls not in self._isfn:
            b = self.p.bases_of(cls) if cls in self.p.classes else ()
            self._isfn[cls] = 'math::IFunction' in b and not cls.startswith('math::')
        return self._isfn[cls]

    def fnclass(self, cls):
        """dimensions of the argument and value of a function class"""
        if cls not in self.ifn:
            b = set(self.p.bases_of(cls)) | {cls}
            x, f = Obj(), Obj()
            if 'potential::BasePotentialSphericallySymmetric' in b:
                x.d, f.d = self.L, self.POT
            elif self.modes(cls):
                f = Obj(top=True)
            self.ifn[cls] = (x, f)
        return self.ifn[cls]

    def modes(self, cls):
        """does a function class compute different quantities depending on an enumerated mode"""
        for n in ('value', 'evalDeriv'):
            for f in self.p.functions.values():
                if f.cls == cls and f.n == n and f.body is not None:
                    for x in f.body.walk():
                        if x.k == 'Switch' and any(y.k == 'Member' and y.t is not None and y.t.k == 'enum' for y in x.c[0].walk() if y is not None) if x.k == 'Switch' and x.c[0] is not None else False:
                            if any(y.k == 'Return' for y in x.walk()):
                                return True
        return False

    def typed(self, o, name):
        if name and self.isfunction(name):
            x, f = self.fnclass(name)
            o.kids.setdefault('#X', x)
            o.kids.setdefault('#F', f)

    def field(self, o, key, name, t):
        """member of an object"""
        cls = key.rsplit('::', 1)[0]
        s = self.s
        m = re.match(r'coord::(PosT|VelT|PosVelT|Vel2T|GradT|HessT|PosDerivT|PosDeriv2T)<coord::(\w+)(?:, coord::(\w+))?>$', cls)
        if m:
            kind, cs = m.group(1), m.group(2)
            nu = 2 if 'ProlSph' in cls and 'ProlMod' not in cls else 0
            if kind in ('PosT', 'PosVelT', 'VelT', 'Vel2T'):
                if name in ('coordsys', 'cs'):
                    return self.kid(o, name, t)
                if name == 'phidot':
                    return Obj(self.FREQ)
                if name in ('lambdadot', 'nudot'):
                    return Obj(s.dim(L=1, V=1))
                if name.endswith('dot'):
                    return Obj(self.V)
                if kind == 'VelT':
                    return Obj(self.V)
                if kind == 'Vel2T':
                    return Obj(s.dim(V=2))
                if name == 'cotnu':
                    return Obj(self.ZERO)
                if name == 'nu':
                    return Obj(s.dim(L=nu))
                if name in COORD:
                    return Obj(s.dim(L=COORD[name]))
            if kind in ('GradT', 'HessT'):
                c = coordnames(name, nu)
                if c is None:
                    return self.kid(o, name, t)
                F = self.dimof(self.kid(o, '#F'))
                return Obj(self.mul(F, s.dim(L=-c)))
            m = re.match(r'd2?(x|y|z|R|rho|r|lambda|nu|theta|phi)(?=d)(d.*)$', name)
            if m:
                c = m.group(1)
                e = coordnames(m.group(2), nu)
                if e is not None:
                    return Obj(s.dim(L=(nu if c == 'nu' else COORD[c]) - e))
            return self.kid(o, name, t)
        f = FIELDS.get(key)
        if f is not None:
            return Obj(s.dim(**{b: e for b, e in f.items() if b in s.bases}))
        if key in FUNCS:
            return self.shape(FUNCS[key])
        if cls == 'df::DerivByActions':
            F = self.dimof(self.kid(o, '#F'))
            return Obj(self.mul(F, self.ACT, -1))
        if cls.startswith('std::') or cls.startswith('math::') or cls.startswith('__gnu'):
            return self.kid(o, name, t)
        if key not in self.fld:
            self.fld[key] = self.make(t)
        return self.fld[key]

    def apply(self, o, s, t):
        """give an object the dimension of a specification of LIB"""
        if s[0] == 'f':
            self.unify(o, self.shape(s))
        elif s[0] == 'v':
            self.unify(o, self.shape(s))
        elif s[0] == '*':
            if s[1] in 'vDQ':
                return
            if t is not None and t.k in ('ptr', 'arr'):
                _pt([o], 0, self.spec(s[1:]), self)
            else:
                self.setd(o, self.spec(s[1:]))
        elif s[0] == 'g':
            _grad([o], 0, self.spec(s[1:]), self)
        else:
            self.setd(o, self.spec(s))

    def spec(self, s):
        return self.s.dim(**OUT[s])

    def shape(self, s):
        if s is None:
            return Obj(top=True)
        o = Obj()
        if s[0] == 'f':
            o.kids['#X'], o.kids['#F'] = self.shape(s[1]), self.shape(s[2:])
        elif s.startswith('v'):
            o.kids['e'] = o.kids[0] = self.shape(s[1:])
        else:
            o.d = self.spec(s)
        return o

    def params(self, key):
        """objects of parameters and of the return value"""
        if key in self.par:
            return self.par[key]
        f = self.p.functions.get(key)
        ps = [self.make(q[2]) for q in f.params] if f is not None else []
        ret = Obj()
        self.par[key] = (ps, ret)
        if f is not None:
            self.contract(key, f, ps, ret)
        return self.par[key]

    def roots(self, key):
        if key not in self._root:
            self._root[key] = self.p.root_methods(key) if key in self.p.methods else [key]
        return self._root[key]

    def setd(self, o, d):
        o = find(o)
        if o.d is None:
            o.d = d
        else:
            self.s.equate(o.d, d)

    def contract(self, key, f, ps, ret):
        cls = f.cls
        for q, o in zip(f.params, ps):
            if q[1] in ('time', 't') and q[2].k == 'float' and q[1] == 'time':
                self.setd(o, self.T)
        for r in self.roots(key):
            c = CONTRACT.get(qual(r))
            if c is not None:
                c(self, f, ps, ret)
        sp = LIB.get(qual(key)) or LIB.get(bare(qual(key)))
        if sp is not None:
            for q, o in zip(f.params, ps):
                if q[1] in sp:
                    self.apply(o, sp[q[1]], q[2])
            if 'ret' in sp:
                self.apply(ret, sp['ret'], None)
        # functions of one variable
        if cls and self.isfunction(cls) and f.n in ('evalDeriv', 'value', 'operator()', 'integrate') and ps and f.params[0][2].k == 'float':
            x, F = self.fnclass(cls)
            if f.n == 'evalDeriv':
                self.unify(ps[0], x)
                for i in range(1, len(ps)):
                    e = self.kid(ps[i], 0)
                    self.setd(e, self.mul(self.dimof(F), self.scale(self.dimof(x), i - 1), -1))
            elif f.n in ('value', 'operator()') and len(ps) == 1:
                self.unify(ps[0], x)
                if find(F).top:
                    find(ret).top = True
                else:
                    self.unify(ret, F)


def _pt(ps, i, d, D):
    if i < len(ps):
        D.setd(D.kid(ps[i], 0), d)
        D.setd(D.kid(ps[i], 'e'), d)


def _grad(ps, i, d, D):
    if i < len(ps):
        for s in (0, 'e'):
            D.setd(D.kid(D.kid(ps[i], s), '#F'), d)


def c_eval(D, f, ps, ret):
    _pt(ps, 1, D.POT, D)
    _grad(ps, 2, D.POT, D)
    _grad(ps, 3, D.POT, D)


def c_ret(d, **kw):
    def c(D, f, ps, ret):
        D.setd(ret, getattr(D, d) if isinstance(d, str) else D.s.dim(**d))
        for k, v in kw.items():
            D.setd(ps[int(k[1:])], getattr(D, v))
    return c


def c_evalmanyrho(D, f, ps, ret):
    _pt(ps, 2, D.RHO, D)


def c_evalmanypot(D, f, ps, ret):
    _pt(ps, 2, D.POT, D)
    _grad(ps, 3, D.POT, D)
    _grad(ps, 4, D.POT, D)


def c_df(D, f, ps, ret):
    _pt(ps, 1, D.DF, D)
    _grad(ps, 2, D.DF, D)


def c_dfmany(D, f, ps, ret):
    _pt(ps, 3, D.DF, D)
    _grad(ps, 4, D.DF, D)


CONTRACT = {
    'potential::BasePotential::evalCar': c_eval, 'potential::BasePotential::evalCyl': c_eval, 'potential::BasePotential::evalSph': c_eval,
    'potential::BasePotential::eval': c_eval, 'potential::BasePotential::value': c_ret('POT'),
    'potential::BasePotential::evalmanyPotentialCar': c_evalmanypot, 'potential::BasePotential::evalmanyPotentialCyl': c_evalmanypot, 'potential::BasePotential::evalmanyPotentialSph': c_evalmanypot,
    'potential::BaseDensity::densityCar': c_ret('RHO'), 'potential::BaseDensity::densityCyl': c_ret('RHO'), 'potential::BaseDensity::densitySph': c_ret('RHO'),
    'potential::BaseDensity::density': c_ret('RHO'),
    'potential::BaseDensity::enclosedMass': c_ret('M', p0='L'), 'potential::BaseDensity::totalMass': c_ret('M'),
    'potential::BaseDensity::evalmanyDensityCar': c_evalmanyrho, 'potential::BaseDensity::evalmanyDensityCyl': c_evalmanyrho, 'potential::BaseDensity::evalmanyDensitySph': c_evalmanyrho,
    'df::BaseDistributionFunction::evalDeriv': c_df, 'df::BaseDistributionFunction::value': c_ret('DF'), 'df::BaseDistributionFunction::totalMass': c_ret('M'),
    'df::BaseDistributionFunction::evalmany': c_dfmany,
}
_J = dict(L=1, V=1)
FIELDS = {
    'actions::Actions::Jr': _J, 'actions::Actions::Jz': _J, 'actions::Actions::Jphi': _J,
    'actions::Angles::thetar': {}, 'actions::Angles::thetaz': {}, 'actions::Angles::thetaphi': {},
    'actions::Frequencies::Omegar': dict(L=-1, V=1), 'actions::Frequencies::Omegaz': dict(L=-1, V=1), 'actions::Frequencies::Omegaphi': dict(L=-1, V=1),
    'coord::PosProj::X': dict(L=1), 'coord::PosProj::Y': dict(L=1),
    'coord::ProlSph::Delta2': dict(L=2), 'coord::Axi::Delta2': dict(L=2),
    'coord::Orientation::mat': {},
    'units::ExternalUnits::lengthUnit': dict(L=1, Lu=-1), 'units::ExternalUnits::velocityUnit': dict(V=1, Vu=-1),
    'units::ExternalUnits::massUnit': dict(L=1, V=2, Mu=-1), 'units::ExternalUnits::timeUnit': dict(L=1, V=-1, Lu=-1, Vu=1),
}
# dimensions of arguments and results of library functions: by parameter name; 'ret' is the result
# fXF function of an argument X with values F
# X scalar, *X storage for output, vX vector elements, gX gradient or Hessian of a quantity
LIB = {
    'actions::eval': dict(focalDistance='L'),
    'actions::createActionMapper': dict(tol='0'),
    'df::BaseDistributionFunction::totalMass': dict(reqRelError='0', ret='M'),
    'df::totalEntropy': dict(reqRelError='0', ret='M'),
    'galaxymodel::ComponentWithDisklikeDF::ComponentWithDisklikeDF': dict(_Rmin='L', _Rmax='L', _zmin='L', _zmax='L', _relError='0'),
    'galaxymodel::ComponentWithSpheroidalDF::ComponentWithSpheroidalDF': dict(_rmin='L', _rmax='L', _relError='0'),
    'galaxymodel::GaussianPSF::GaussianPSF': dict(_width='L', _ampl='0'),
    'galaxymodel::SelectionFunctionDistance::SelectionFunctionDistance': dict(_radius='L', _steepness='0'),
    'galaxymodel::BaseSelectionFunction::evalmany': dict(values='*0'),
    'galaxymodel::TargetDensityClassic::TargetDensityClassic': dict(_gridr='vL', axisYtoX='0', axisZtoX='0'),
    'galaxymodel::TargetDensityCylindrical::TargetDensityCylindrical': dict(_gridR='vL', _gridz='vL'),
    'galaxymodel::TargetDensitySphHarm::TargetDensitySphHarm': dict(_gridr='vL'),
    'galaxymodel::TargetKinemShell::TargetKinemShell': dict(gridr='vL'),
    'galaxymodel::assignVelocity': dict(beta='0', kappa='0'),
    'galaxymodel::computeMoments': dict(density='*D', reqRelError='0'),
    'galaxymodel::computeProjectedDF': dict(result='*Q', reqRelError='0'),
    'galaxymodel::computeTotalMass': dict(result='*M', reqRelError='0'),
    'galaxymodel::computeVelocityDistribution': dict(gridv='vV', gridvX='vV', gridvY='vV', gridvZ='vV', density='*D', amplvX='*v1/V', amplvY='*v1/V', amplvZ='*v1/V', reqRelError='0'),
    'orbit::OrbitIntParams::OrbitIntParams': dict(_accuracy='0'),
    'orbit::OrbitIntegrator::OrbitIntegrator': dict(Omega='1/T'),
    'orbit::OrbitIntegrator::init': dict(time='T'),
    'orbit::BaseOrbitIntegrator::run': dict(totalTime='T', _0='T'),
    'orbit::RuntimeTrajectory::RuntimeTrajectory': dict(_samplingInterval='T'),
    'orbit::RuntimeVariational::RuntimeVariational': dict(_samplingInterval='T', _outputLyapunovExponent='*0'),
    'particles::ParticleArray::add': dict(second='M'),
    'particles::ParticleArray::mass': dict(ret='M'),
    'particles::ParticleArray::totalMass': dict(ret='M'),
    'potential::Interpolator::R_circ': dict(E='E', deriv='*A', ret='L'),
    'potential::Interpolator::R_from_Lz': dict(Lz='LV', deriv='*1/V', ret='L'),
    'potential::Interpolator::R_max': dict(E='E', deriv='*A', ret='L'),
    'potential::R_circ': dict(E='E', ret='L'),
    'potential::R_from_Lz': dict(L='LV', ret='L'),
    'potential::R_max': dict(E='E', ret='L'),
    'potential::T_circ': dict(E='E', ret='T'),
    'potential::v_circ': dict(R='L', ret='V'),
    'potential::densityFromCumulativeMass': dict(gridr='vL', gridm='vM', ret='vR'),
    'potential::DensitySphericalHarmonic::DensitySphericalHarmonic': dict(_gridRadii='vL', coefs='vvR'),
    'potential::findPlanarOrbitExtent': dict(E='E', L='LV', R1='*L', R2='*L'),
    'potential::principalAxes': dict(radius='L', axes='*0', angles='*0'),
    'potential::projectedDensity': dict(time='T', ret='S'),
    'potential::projectedEval': dict(value='*P', grad='gP', hess='gP', time='T'),
    'potential::totalEnergy': dict(time='T', ret='E'),
    'particles::writeSnapshot': dict(time='T'),
    'potential::L_circ': dict(E='E', ret='LV'),
    'potential::epicycleFreqs': dict(R='L', kappa='*1/T', nu='*1/T', Omega='*1/T'),
    'potential::Interpolator::L_circ': dict(E='E', deriv='*T', ret='LV'),
    'potential::Interpolator::epicycleFreqs': dict(R='L', kappa='*1/T', nu='*1/T', Omega='*1/T', derivs='*W'),
    'potential::DiskDensity::DiskDensity': dict(_radialFnc='fLS', _verticalFnc='fL1/L'),
    'potential::DiskAnsatz::DiskAnsatz': dict(_radialFnc='fLS', _verticalFnc='fL1/L'),
    'potential::createRadialDiskFnc': dict(ret='fLS'),
    'potential::createVerticalDiskFnc': dict(ret='fL1/L'),
    'potential::createSpheroidDensity': dict(ret='fLR'),
    'potential::createNukerDensity': dict(ret='fLR'),
    'potential::createSersicDensity': dict(ret='fLR'),
    'coord::PosVelT<coord::Sph>::momenta': dict(pr='*V', ptheta='*LV', pphi='*LV'),
    'coord::PosVelT<coord::Axi>::momenta': dict(prho='*V', pnu='*LV', pphi='*LV'),
}
OUT = {'0': {}, 'L': dict(L=1), 'V': dict(V=1), 'T': dict(L=1, V=-1), '1/T': dict(L=-1, V=1), '1/V': dict(V=-1), 'M': dict(L=1, V=2), 'E': dict(V=2),
       'LV': dict(L=1, V=1), 'R': dict(L=-2, V=2), 'S': dict(L=-1, V=2), 'P': dict(L=1, V=2), 'W': dict(L=-2, V=1), 'A': dict(L=1, V=-2), '1/L': dict(L=-1), 'J': dict(L=1, V=1)}
# documented dimensions of parameters of models
PARAMS = {
    'df::DoublePowerLawParam': dict(norm='M', J0='J', Jcutoff='J', Jphi0='J', Jcore='J', steepness='0'),
    'df::ExponentialParam': dict(norm='M', Jr0='J', Jz0='J', Jphi0='J', addJden='J', addJvel='J'),
    'df::QuasiIsothermalParam': dict(Sigma0='S', Rdisk='L', Hdisk='L', sigmar0='V', sigmaz0='V', sigmamin='V', Rsigmar='L', Rsigmaz='L', Jmin='J'),
    'potential::SersicParam': dict(surfaceDensity='S', scaleRadius='L'),
    'potential::NukerParam': dict(surfaceDensity='S', scaleRadius='L', outerCutoffRadius='L'),
    'potential::SpheroidParam': dict(densityNorm='R', scaleRadius='L', outerCutoffRadius='L'),
    'potential::DiskParam': dict(surfaceDensity='S', scaleRadius='L', scaleHeight='L', innerCutoffRadius='L'),
    'orbit::OrbitIntParams': dict(accuracy='0'),
    'galaxymodel::SelfConsistentModel': dict(rminSph='L', rmaxSph='L', RminCyl='L', RmaxCyl='L', zminCyl='L', zmaxCyl='L'),
}
# members that hold functions of one variable
FUNCS = {
    'potential::DiskDensity::radialFnc': 'fLS', 'potential::DiskDensity::verticalFnc': 'fL1/L',
    'potential::DiskAnsatz::radialFnc': 'fLS', 'potential::DiskAnsatz::verticalFnc': 'fL1/L',
    'potential::SpheroidDensity::rho': 'fLR',
}


def bare(q):
    """name without template arguments"""
    while True:
        r = re.sub(r'<[^<>]*>', '', q)
        if r == q:
            return r
        q = r

for _c, _f in PARAMS.items():
    for _n, _s in _f.items():
        FIELDS[_c + '::' + _n] = OUT[_s]
SAME = {'fabs', 'abs', 'fmin', 'fmax', 'min', 'max', 'hypot', 'fmod', 'floor', 'ceil', 'round', 'rint', 'trunc', 'clip', 'remainder', 'ldexp', 'nextafter', 'fdim'}
PURE = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'erf', 'erfc', 'tgamma', 'lgamma', 'expm1', 'log1p', 'gamma', 'gammainc', 'factorial', 'dfactorial', 'binomial', 'besselJ', 'besselY', 'besselI', 'besselK', 'besselj', 'ellintK', 'ellintE', 'ellintP', 'hypergeom2F1', 'hypergeom', 'lambertW', 'digamma', 'betainc', 'gegenbauer', 'legendreQ', 'hypergeom2F1deriv', 'solveKepler', 'qexp', 'wrapAngle', 'exp10', 'exp2', 'legendrePmm'}
LOGS = {'log', 'log10', 'log2', 'exp'}
NODIM = {'isFinite', 'sign', 'isfinite', 'isnan', 'signbit', 'lgamma'}


# functions in which a literal stands for a quantity of any dimension
PLACEHOLDER = {
    'df::ActionSpaceScalingTriangLog::toActions': 'the scaled variable is the logarithm of the action, with an arbitrary zero point',
    'potential::DiskAnsatz::evalCyl': 'the inverse radius at the origin is replaced by 1 and multiplied by zero',
}


class Fn(object):
    """analysis of one function"""
    def __init__(self, D, f):
        self.D, self.f, self.p = D, f, D.p
        self.n = 0
        self.env = {}
        self.alias = set()
        self.ps, self.ret = D.params(f.key)
        self.depth = 0
        self.chain = [f]
        self.site = None
        self.brk = []
        self.cont = []

    def run(self):
        f, D = self.f, self.D
        for q, o in zip(f.params, self.ps):
            self.env[q[0]] = o
            if q[2].k in ('ref', 'rref'):
                self.alias.add(q[0])
        for kind, name, written, expr in f.inits:
            if expr is None:
                continue
            v = self.ev(expr)
            if self.literal(expr) is not None:      # default value of a parameter
                continue
            if kind == 'field' or '::' in str(name):
                cls, _, fn = str(name).rpartition('::')
                t = expr.t
                o = self.fieldobj(self.this(), name, fn, t)
                self.bind(expr, o, v, 'initialisation of %s' % fn)
        if f.body is not None:
            self.stmt(f.body)
        D.settle(self.report)

    def this(self):
        if not hasattr(self, '_this'):
            self._this = Obj()
            if self.f.cls:
                self.D.typed(self._this, self.f.cls)
                self._this.kids.setdefault('#F', Obj())
        return self._this

    # ---- reporting
    def report(self, n, what, a, b):
        D = self.D
        k = (n.fn.file, n.line, what)
        if k not in D.conflicts:
            D.conflicts[k] = (n, what, D.s.show(a), D.s.show(b))

    def count(self, n, what):
        f = n.fn.file if n is not None else self.f.file
        self.D.checked[(f, n.line, what)] = 1

    def eq(self, n, a, b, what):
        """two quantities must have the same dimension"""
        self.count(n, what)
        if not self.D.s.equate(a, b):
            self.report(n, what, a, b)

    def bind(self, n, o, v, what):
        """a value is stored in / passed to an object"""
        if o is None or v is None:
            return
        self.count(n, what)
        for a, b in self.D.unify(o, v):
            self.report(n, what, a, b)

    # ---- statements
    def copyenv(self):
        return dict(self.env) if self.env is not None else None

    def join(self, a, b, n):
        if a is None:
            return b
        if b is None:
            return a
        D = self.D
        r = dict(a)
        for k, o in b.items():
            if k not in r:
                r[k] = o
                continue
            x, y = find(r[k]), find(o)
            if x is y:
                continue
            if x.d is not None and y.d is not None and not x.kids and not y.kids:
                if x.top or y.top:
                    r[k] = Obj(top=True)
                elif not D.s.equate(x.d, y.d):
                    r[k] = self.mism(n, k, x, y)
                continue
            bad = D.unify(x, y)
            if bad:
                r[k] = Obj(top=True)
        return r

    def mism(self, n, k, x, y):
        self.report(n, 'join', x.d, y.d)
        return Obj(top=True)

    def latest(self, k, y):
        return False

    def loopmix(self, n, x, y):
        """a variable that has different dimensions before and after the body of a loop"""
        return Obj(top=True)

    def stmt(self, n):
        if n is None or self.env is None and not self.haslabel(n):
            return
        m = getattr(self, 's_' + n.k, None)
        if m is not None:
            m(n)
        else:
            if self.env is None:
                self.env = {}
            self.ev(n)

    def haslabel(self, n):
        return any(x.k in ('Case', 'Default', 'Label') for x in n.walk())

    def s_Block(self, n):
        for c in n.c:
            self.stmt(c)

    def s_OMP(self, n):
        for c in n.c:
            self.stmt(c)

    def s_Nop(self, n):
        pass

    def s_Decl(self, n):
        for c in n.c:
            self.var(c)

    def var(self, v):
        if v.k != 'Var':
            self.ev(v)
            return
        D = self.D
        t = v.t
        vid, name, gkey = v.a[0], v.a[1], v.a[2]
        init = v.c[0] if v.c else None
        if t is not None and t.k in ('ref', 'rref'):
            self.env[vid] = self.ev(init) if init is not None else Obj()
            self.alias.add(vid)
            return
        o = D.make(t)
        if init is not None:
            if init.k == 'InitList':
                self.initlist(init, o)
            else:
                r = self.ev(init)
                if self.literal(init) is not None and t is not None and t.k == 'float':
                    r = Obj()
                if t is not None and t.k in NUMT and r is not None:
                    if t.k != 'float':
                        o = D.num(self.poly(init))
                    else:
                        o = Obj(D.dimof(r))
                        o.poly = self.poly(init) if D.s.known(o.d) == D.ZERO or self.literal(init) is not None else None
                elif r is not None:
                    self.bind(init, o, r, 'initialisation of %s' % name)
        self.env[vid] = o

    def initlist(self, n, o):
        D = self.D
        t = n.t
        for i, c in enumerate(n.c):
            if c is None:
                continue
            if t is not None and t.k == 'rec':
                fl = self.p.classes[t.name].fields if t.name in self.p.classes else None
                if fl is None or i >= len(fl):
                    self.ev(c)
                    continue
                fk = fl[i][0] if isinstance(fl[i], (list, tuple)) else fl[i]
                k = D.field(o, fk if '::' in fk else t.name + '::' + fk, fk.rsplit('::', 1)[-1], c.t)
            else:
                k = D.kid(o, i, c.t)
            if c.k == 'InitList':
                self.initlist(c, k)
            else:
                self.bind(c, k, self.val(c), 'initialisation')

    def s_If(self, n):
        # c[0] may be an init/condition variable
        if n.c[0] is not None:
            self.stmt(n.c[0]) if n.c[0].k == 'Decl' else self.ev(n.c[0])
        self.ev(n.c[1])
        k = self.constcond(n.c[1])
        if k is not None and not self.haslabel(n):
            if k:
                self.stmt(n.c[2])
            elif len(n.c) > 3 and n.c[3] is not None:
                self.stmt(n.c[3])
            return
        e0 = self.copyenv()
        self.stmt(n.c[2])
        e1 = self.env
        self.env = e0
        if len(n.c) > 3 and n.c[3] is not None:
            self.stmt(n.c[3])
        self.env = self.join(e1, self.env, n)

    def constcond(self, n):
        """value of a condition known at compile time (template parameters)"""
        n = strip_casts(n)
        if n.k in ('Bool', 'Const', 'Int'):
            x = str(n.a)
            return x not in ('0', 'False', 'false')
        if n.k == 'Un' and n.a == '!':
            x = self.constcond(n.c[0])
            return None if x is None else not x
        return None

    def loop(self, n, cond, body, inc):
        if cond is not None:
            self.ev(cond)
        e0 = self.copyenv()
        self.brk.append([])
        self.cont.append([])
        self.stmt(body)
        for e in self.cont.pop():
            self.env = self.join(self.env, e, n)
        if self.env is not None and inc is not None:
            self.ev(inc)
        D = self.D
        if self.env is not None and e0 is not None:
            r = dict(e0)
            for k, o in self.env.items():
                if k not in r:
                    continue
                x, y = find(r[k]), find(o)
                if x is y:
                    continue
                if self.latest(k, y):
                    r[k] = y
                    continue
                if x.d is not None and y.d is not None and not x.kids and not y.kids:
                    if not D.s.equate(x.d, y.d):
                        r[k] = self.loopmix(n, x, y)
                    continue
                if D.unify(x, y):
                    r[k] = Obj(top=True)
            self.env = r
        elif e0 is not None:
            self.env = e0
        for e in self.brk.pop():
            self.env = self.join(self.env, e, n)

    def s_For(self, n):
        if n.c[0] is not None:
            self.stmt(n.c[0])
        self.loop(n, n.c[1], n.c[3], n.c[2])

    def s_While(self, n):
        self.loop(n, n.c[0] if len(n.c) < 3 else n.c[1], n.c[-1], None)

    def s_Do(self, n):
        b, c = n.c[0], n.c[1]
        self.loop(n, None, b, c)

    def s_Switch(self, n):
        body = n.c[-1]
        for c in n.c[:-1]:
            if c is not None:
                self.ev(c)
        e0 = self.copyenv()
        self.brk.append([])
        self.sw = getattr(self, 'sw', [])
        self.sw.append((e0, n))
        self.env = None
        self.stmt(body)
        self.sw.pop()
        for e in self.brk.pop():
            self.env = self.join(self.env, e, n)
        if not any(x.k == 'Default' for x in body.walk()):
            self.env = self.join(self.env, e0, n)
        if self.env is None:
            self.env = None

    def s_Case(self, n):
        e0, sn = self.sw[-1] if getattr(self, 'sw', None) else ({}, n)
        self.env = self.join(self.env, dict(e0), n) if self.env is not None else dict(e0)
        for c in n.c[1:] if n.k == 'Case' else n.c:
            self.stmt(c)
    s_Default = s_Case

    def s_Break(self, n):
        if self.brk:
            self.brk[-1].append(self.env)
        self.env = None

    def s_Continue(self, n):
        if self.cont:
            self.cont[-1].append(self.env)
        self.env = None

    def s_Label(self, n):
        if self.env is None:
            self.env = {}
        for c in n.c:
            self.stmt(c)

    def s_Goto(self, n):
        pass

    def s_Return(self, n):
        if n.c and n.c[0] is not None:
            v = self.val(n.c[0])
            if v is not None:
                self.bind(n.c[0], self.ret, v, 'return value')
        self.env = None

    def s_Throw(self, n):
        self.env = None

    def s_Try(self, n):
        e0 = self.copyenv()
        self.stmt(n.c[0])
        e1 = self.env
        for h in n.c[1:]:
            self.env = dict(e0) if e0 is not None else None
            for c in h.c:
                self.stmt(c)
            e1 = self.join(e1, self.env, n)
        self.env = e1

    # ---- literals
    def literal(self, n):
        """value of a literal (or constant) expression, None otherwise"""
        n = strip_casts(n)
        if n is None:
            return None
        if n.k == 'Float':
            try:
                return float(n.a)
            except ValueError:
                return 0.
        if n.k in ('Int',):
            return float(n.a)
        if n.k == 'Const':
            try:
                return float(n.a)
            except (TypeError, ValueError):
                return None
        if n.k == 'Un' and n.a in ('-', '+', '__extension__'):
            x = self.literal(n.c[0])
            return None if x is None else -x if n.a == '-' else x
        if n.k == 'Ref' and n.a[0] == 'G':
            g = self.p.globals.get(n.a[1])
            if g is not None and g['t'].s.startswith('const') and g['t'].k in NUMT:
                i = self.p.global_init(n.a[1])
                return self.literal(i) if i is not None and i is not n else None
            return None
        if n.k == 'Call' and n.a[0] and n.a[0].startswith('__builtin_') and ('inf' in n.a[0] or 'nan' in n.a[0] or 'huge' in n.a[0]):
            return 0.
        if n.k == 'Bin' and n.a in '*/+-':
            a, b = self.literal(n.c[0]), self.literal(n.c[1])
            if a is None or b is None:
                return None
            try:
                return a * b if n.a == '*' else a / b if n.a == '/' else a + b if n.a == '+' else a - b
            except ZeroDivisionError:
                return 0.
        return None

    def polym(self, n):
        """literal without a dimension of its own"""
        x = self.literal(n)
        return x is not None and (self.f.q in PLACEHOLDER or x == 0 or abs(x) < 1e-4 or abs(x) > 1e4)

    def val(self, n):
        """value of an expression stored somewhere"""
        if self.literal(n) is not None:
            return None
        x = strip_casts(n)
        if x is not None and x.k == 'Assign':       # chained assignment of a literal
            y = x
            while y is not None and y.k == 'Assign':
                y = strip_casts(y.c[1])
            if y is not None and self.literal(y) is not None:
                self.ev(x)
                return None
        return self.ev(n)

    # ---- symbolic values of exponents
    def poly(self, n):
        n = strip_casts(n)
        if n is None:
            return None
        if n.k == 'Int':
            return {(): Fr(int(n.a))} if int(n.a) else {}
        if n.k == 'Float':
            try:
                x = Fr(n.a)
            except (ValueError, OverflowError):
                return None
            x = x.limit_denominator(1000)
            return {(): x} if x else {}
        if n.k == 'Const':
            try:
                x = Fr(n.a)
                return {(): x} if x else {}
            except (TypeError, ValueError):
                return None
        if n.k == 'Un' and n.a == '-':
            x = self.poly(n.c[0])
            return None if x is None else lscale(x, Fr(-1))
        if n.k == 'Un' and n.a == '+':
            return self.poly(n.c[0])
        if n.k == 'Bin' and n.a in ('+', '-', '*', '/'):
            a, b = self.poly(n.c[0]), self.poly(n.c[1])
            if a is None or b is None:
                return None
            if n.a == '+':
                return ladd(a, b)
            if n.a == '-':
                return ladd(a, b, -1)
            if n.a == '*':
                return pmul(a, b)
            if all(x.t is not None and x.t.k in ('int', 'uint') for x in n.c):
                return psym(('div', repr(sorted(a.items(), key=repr)), repr(sorted(b.items(), key=repr))))
            i = pinv(b)
            return pmul(a, i) if i is not None else None
        if n.k == 'Ref' and n.a[0] == 'L':
            o = self.env.get(n.a[1]) if self.env else None
            if o is not None and o.poly is not None:
                return o.poly
            return psym(('L', self.f.key, n.a[1]))
        if n.k == 'Member' and n.a[0] == 'M':
            return psym(('M', n.a[1]))
        if n.k == 'Ref' and n.a[0] == 'G':
            x = self.literal(n)
            if x is not None:
                return self.polyf(x)
            return psym(n.a[1])
        if n.k == 'Ref' and n.a[0] == 'E':
            return {(): Fr(n.a[2])} if n.a[2] else {}
        return None

    def polyf(self, x):
        x = Fr(x).limit_denominator(1000)
        return {(): x} if x else {}

    # ---- expressions
    def ev(self, n):
        """object denoted by an expression (None: no dimension, e.g. void)"""
        if n is None:
            return None
        m = getattr(self, 'x_' + n.k, None)
        if m is not None:
            return m(n)
        for c in n.c:
            self.ev(c)
        return self.other(n)

    def other(self, n):
        return self.D.make(n.t)

    def dim(self, n):
        """dimension of a scalar expression"""
        o = self.ev(n)
        return self.D.dimof(o) if o is not None else self.D.s.fresh()

    def x_Int(self, n):
        return self.D.num()

    def x_Float(self, n):
        x = self.literal(n)
        return Obj() if x == 0 else self.D.num()

    def x_Const(self, n):
        return self.D.num()

    def x_Bool(self, n):
        return self.D.num()
    x_Char = x_Bool

    def x_Null(self, n):
        return None

    def x_Str(self, n):
        return None

    def x_This(self, n):
        return self.this()

    def x_DefArg(self, n):
        return self.ev(n.c[0]) if n.c else None

    def x_Ref(self, n):
        D = self.D
        if n.a[0] == 'L':
            o = self.env.get(n.a[1])
            if o is None:
                o = self.env[n.a[1]] = D.make(n.t)
            return o
        if n.a[0] == 'G':
            if self.literal(n) is not None:
                return D.num()
            o = D.glob.get(n.a[1])
            if o is None:
                o = D.glob[n.a[1]] = D.make(n.t)
            return o
        if n.a[0] == 'E':
            return D.num()
        return None

    def x_Member(self, n):
        if n.a[0] == 'G':
            o = self.D.glob.get(n.a[1])
            if o is None:
                o = self.D.glob[n.a[1]] = self.D.make(n.t)
            return o
        b = self.ev(n.c[0]) if n.c and n.c[0] is not None else self.this()
        if n.a[0] != 'M':
            return None
        if b is None:
            b = Obj()
        if n.a[2] and n.c and n.c[0] is not None and strip_casts(n.c[0]).k != 'This':
            b = self.deref(n.c[0], b)
        return self.fieldobj(b, n.a[1], n.a[3], n.t)

    def fieldobj(self, o, key, name, t):
        return self.D.field(o, key, name, t)

    def deref(self, e, o):
        """object a pointer (or smart pointer) points to"""
        if o is None:
            return Obj()
        t = e.t.sub if e is not None and e.t is not None and e.t.k == 'ptr' else None
        return self.D.kid(o, 0, t)

    def x_Cast(self, n):
        k = n.a[0]
        if not n.c:
            return self.other(n)
        if k in ('NullToPointer',):
            return None
        if k in ('IntegralToFloating', 'FloatingToIntegral', 'IntegralCast', 'FloatingCast', 'PointerToBoolean', 'FloatingToBoolean', 'IntegralToBoolean'):
            o = self.ev(n.c[0])
            if k == 'FloatingCast':
                return o
            if k == 'IntegralToFloating' and self.literal(n.c[0]) == 0:
                return Obj()
            return self.D.num()
        if k == 'ToVoid':
            self.ev(n.c[0])
            return None
        if k == 'Dynamic':
            self.ev(n.c[0])
            return self.other(n)
        return self.ev(n.c[0])

    def isnum(self, n):
        return n.t is not None and n.t.k in NUMT

    def x_Un(self, n):
        D = self.D
        if n.a == '&':
            x = n.c[0]
            y = strip_casts(x)
            if y.k == 'Idx' or y.k == 'OpCall' and y.a[0] and '::operator[](' in y.a[0]:
                base = self.ev(y.c[0])
                self.ev(y.c[1])
                if self.literal(y.c[1]) == 0 or not self.constidx(y.c[1]):
                    if base is not None and y.k == 'OpCall':
                        # pointer to the elements of a vector
                        o = Obj()
                        e = D.kid(base, 'e', y.t)
                        o.kids[0] = e
                        o.kids['e'] = e
                        return o
                    if base is not None and self.literal(y.c[1]) != 0:
                        o = Obj()
                        e = D.kid(base, 'e', y.t)
                        o.kids[0] = e
                        o.kids['e'] = e
                        return o
                    return base
                return Obj()
            o = self.ev(x)
            r = Obj()
            if o is not None:
                r.kids[0] = o
            return r
        if n.a == '*':
            o = self.ev(n.c[0])
            return self.deref(n.c[0], o)
        if n.a == '!':
            self.ev(n.c[0])
            return D.num()
        if n.a in ('p++', 'p--', '++', '--'):
            return self.ev(n.c[0])
        return self.ev(n.c[0])

    def constidx(self, n):
        """constant part of an index (None if there is none)"""
        n = strip_casts(n)
        x = self.literal(n)
        if x is not None:
            return int(x)
        if n.k == 'Bin' and n.a == '+':
            a, b = n.c
            for u, w in ((a, b), (b, a)):
                x = self.literal(u)
                y = strip_casts(w)
                if x is not None and y.k == 'Bin' and y.a == '*' and (self.literal(y.c[0]) is not None or self.literal(y.c[1]) is not None):
                    return int(x)
        if n.k == 'Bin' and n.a == '*' and (self.literal(n.c[0]) is not None or self.literal(n.c[1]) is not None):
            return 0
        return None

    def x_Idx(self, n):
        b = self.ev(n.c[0])
        self.ev(n.c[1])
        if b is None:
            return self.other(n)
        i = self.constidx(n.c[1])
        return self.D.kid(b, i if i is not None else 'e', n.t)

    def x_Assign(self, n):
        D = self.D
        l = strip_casts(n.c[0])
        r = self.val(n.c[1])
        if l.k == 'Ref' and l.a[0] == 'L' and self.isnum(l) and l.a[1] not in self.alias:
            o = Obj(D.dimof(r)) if r is not None and l.t.k == 'float' else D.num() if l.t.k != 'float' else Obj()
            if l.t.k != 'float' or D.s.known(o.d or D.ZERO) == D.ZERO and o.d is not None:
                o.poly = self.poly(n.c[1])
            self.env[l.a[1]] = o
            return o
        o = self.ev(n.c[0])
        if r is not None and o is not None:
            if n.t is not None and n.t.k in NUMT:
                self.eq(n, D.dimof(o), D.dimof(r), 'assignment')
            else:
                self.bind(n, o, r, 'assignment')
        return o

    def x_AssignOp(self, n):
        D = self.D
        op = (n.a if isinstance(n.a, str) else n.a[0]).rstrip('=')
        l = strip_casts(n.c[0])
        o = self.ev(n.c[0])
        r = self.ev(n.c[1])
        if o is None or r is None or not self.isnum(n.c[0]):
            return o
        if op in ('+', '-'):
            if not self.polym(n.c[1]) and n.c[0].t.k == 'float':
                self.eq(n, D.dimof(o), D.dimof(r), 'addition')
            return o
        if op in ('*', '/') and n.c[0].t.k == 'float':
            d = D.mul(D.dimof(o), D.dimof(r), 1 if op == '*' else -1)
            if l.k == 'Ref' and l.a[0] == 'L' and l.a[1] not in self.alias:
                o = Obj(d)
                self.env[l.a[1]] = o
            else:
                self.scaled(n, l, o, d)
        return o

    def scaled(self, n, l, o, d):
        """compound multiplication of an element or member"""
        if self.literal(n.c[1]) is None:
            self.eq(n, self.D.dimof(o), d, 'scaling in place')

    def x_Bin(self, n):
        D = self.D
        a, b = n.c[0], n.c[1]
        if n.a in ('&&', '||'):
            self.ev(a)
            e = self.copyenv()
            self.ev(b)
            self.env = self.join(e, self.env, n)
            return D.num()
        if n.a == ',':
            self.ev(a)
            return self.ev(b)
        x, y = self.ev(a), self.ev(b)
        if n.a in ('==', '!=', '<', '>', '<=', '>='):
            if x is not None and y is not None and self.isnum(a) and self.isnum(b) and (a.t.k == 'float' or b.t.k == 'float'):
                if self.literal(a) is None and self.literal(b) is None:
                    self.eq(n, D.dimof(x), D.dimof(y), 'comparison')
            return D.num()
        if n.t is None or n.t.k != 'float':
            if n.t is not None and n.t.k == 'ptr':
                o, e = (x, b) if a.t is not None and a.t.k == 'ptr' or a.t is not None and a.t.k == 'arr' else (y, a)
                if o is not None and n.a == '+' and self.constidx(e) not in (None, 0):
                    return Obj()
                if o is not None and self.constidx(e) is None:
                    r = Obj()
                    k = D.kid(o, 'e', n.t.sub)
                    r.kids[0] = k
                    r.kids['e'] = k
                    return r
                return o if o is not None else Obj()
            if self.isnum(n):
                return D.num()
            return self.other(n)
        if x is None or y is None:
            return Obj()
        dx, dy = D.dimof(x), D.dimof(y)
        if n.a in ('+', '-'):
            if self.polym(a):
                return Obj(dy)
            if self.polym(b):
                return Obj(dx)
            self.eq(n, dx, dy, 'addition')
            return Obj(dx if D.s.known(dx) else dy)
        if n.a == '*':
            return Obj(D.mul(dx, dy))
        if n.a == '/':
            return Obj(D.mul(dx, dy, -1))
        return Obj()

    def x_Cond(self, n):
        D = self.D
        self.ev(n.c[0])
        e0 = self.copyenv()
        x = self.ev(n.c[1])
        e1 = self.env
        self.env = e0
        y = self.ev(n.c[2])
        self.env = self.join(e1, self.env, n)
        if x is None:
            return y
        if y is None:
            return x
        if n.t is not None and n.t.k == 'float':
            if self.polym(n.c[1]):
                return y
            if self.polym(n.c[2]):
                return x
            self.eq(n, D.dimof(x), D.dimof(y), 'alternatives of a conditional expression')
            return Obj(D.dimof(x))
        if n.t is not None and n.t.k in NUMT:
            return D.num()
        self.bind(n, x, y, 'alternatives of a conditional expression')
        return x

    # ---- calls
    def args(self, es):
        return [self.ev(e) for e in es]

    def x_Call(self, n):
        D = self.D
        key = n.a[0]
        es = n.c[1:]
        if key is None:
            if n.c[0] is not None:
                self.ev(n.c[0])
            self.args(es)
            return self.other(n)
        q = bare(qual(key))
        base = q.rsplit('::', 1)[-1]
        r = self.builtin(n, q, base, es)
        if r is not False:
            return r
        return self.call(n, key, es)

    def builtin(self, n, q, base, es):
        D = self.D
        ns = q.rsplit('::', 1)[0] if '::' in q else ''
        if ns.startswith(('std', 'math')) or ns == '':
            if base == 'sqrt':
                return Obj(D.scale(self.dim(es[0]), Fr(1, 2)))
            if base == 'cbrt':
                return Obj(D.scale(self.dim(es[0]), Fr(1, 3)))
            if base in ('pow_2', 'pow_3'):
                return Obj(D.scale(self.dim(es[0]), Fr(int(base[-1]))))
            if base in ('pow', 'powInt') and len(es) == 2:
                d = self.dim(es[0])
                self.ev(es[1])
                if self.literal(es[0]) is not None:
                    return D.num()
                return Obj(D.power(d, self.poly(es[1]), n))
            if base in SAME:
                r = None
                for e in es:
                    o = self.ev(e)
                    if o is None or self.polym(e):
                        continue
                    if r is None:
                        r = Obj(D.dimof(o))
                    else:
                        self.eq(n, D.dimof(r), D.dimof(o), 'arguments of %s' % base)
                return r if r is not None else Obj()
            if base == 'copysign':
                o = self.ev(es[0])
                self.ev(es[1])
                return Obj(D.dimof(o)) if o is not None else Obj()
            if base == 'atan2':
                a, b = self.dim(es[0]), self.dim(es[1])
                if not (self.polym(es[0]) or self.polym(es[1])):
                    self.eq(n, a, b, 'arguments of atan2')
                return D.num()
            if base == 'sincos' and len(es) >= 1:
                self.eq(n, self.dim(es[0]), D.ZERO, 'argument of sincos')
                self.outs(es[1:])
                for e in es[1:]:
                    o = self.ev(e)
                    if o is not None:
                        D.setd(o if e.t is not None and e.t.k != 'ptr' else D.kid(o, 0), D.ZERO)
                return None
            if base in NODIM:
                self.args(es)
                return D.num()
            if base in PURE:
                for e in es:
                    if e.t is not None and e.t.k == 'float':
                        self.eq(n, self.dim(e), D.ZERO, 'argument of %s' % base)
                    else:
                        self.ev(e)
                return D.num()
            if base in LOGS:
                return self.logs(n, base, es[0])
            if q in ('std::swap',):
                a, b = self.args(es)
                self.bind(n, a, b, 'exchange')
                return None
            if q in ('std::make_pair',):
                o = Obj()
                a, b = self.args(es)
                if a is not None:
                    o.kids['first'] = a
                if b is not None:
                    o.kids['second'] = b
                return o
            if base in ('integrate', 'integrateGL', 'integrateAdaptive') and ns == 'math' and len(es) >= 3:
                f = self.ev(es[0])
                a, b = self.dim(es[1]), self.dim(es[2])
                X = D.dimof(D.kid(f, '#X')) if f is not None else D.s.fresh()
                for e, d in ((es[1], a), (es[2], b)):
                    if not self.polym(e):
                        self.eq(n, d, X, 'integration limits')
                self.args(es[3:])
                F = D.dimof(D.kid(f, '#F')) if f is not None else D.s.fresh()
                return Obj(D.mul(X, F))
            if base in ('findRoot', 'findMin') and ns == 'math' and len(es) >= 3:
                f = self.ev(es[0])
                X = D.dimof(D.kid(f, '#X')) if f is not None else D.s.fresh()
                for e in es[1:3]:
                    d = self.dim(e)
                    if not self.polym(e) and self.literal(e) is None:
                        self.eq(n, d, X, 'search interval')
                self.args(es[3:])
                return Obj(X)
        return False

    def logs(self, n, base, e):
        """logarithms are pure numbers; an exponential of a single value restores a quantity of unknown dimension"""
        D = self.D
        d = self.dim(e)
        if base.startswith('log'):
            return D.num()
        self.eq(n, d, D.ZERO, 'argument of %s' % base)
        x = strip_casts(e)
        if x.k in ('Ref', 'Member', 'Call', 'MCall', 'Idx', 'OpCall') or self.f.q in PLACEHOLDER:
            return Obj()
        return D.num()

    def outs(self, es):
        """scalars passed by address get new values"""
        for e in es:
            y = strip_casts(e)
            if y is not None and y.k == 'Un' and y.a == '&':
                x = strip_casts(y.c[0])
                if x.k == 'Ref' and x.a[0] == 'L' and x.t is not None and x.t.k == 'float' and x.a[1] not in self.alias and e.t is not None and e.t.k == 'ptr' and not e.t.s.startswith('const'):
                    self.env[x.a[1]] = Obj()

    def call(self, n, key, es, obj=None):
        D = self.D
        self.outs(es)
        vs = [self.ev(e) for e in es]
        f = self.p.functions.get(key)
        r = self.generic(n, key, es, vs, obj)
        if r is not False:
            return r
        if f is None and (key not in self.p.methods or key.startswith('math::')) or key.startswith(('std::', '__gnu', 'utils::')):
            return self.other(n)
        if f is None:
            rk = [k for k in D.roots(key)]
            ps, ret = self.abstract(key, es)
        elif key.startswith('math::') or f.file.startswith('math_'):
            return self.other(n)
        elif self.polymorphic(f, n):
            return self.instance(f, n, es, vs, obj)
        else:
            ps, ret = D.params(key)
        for i, (e, v) in enumerate(zip(es, vs)):
            if v is None or i >= len(ps) or self.polym(e):
                continue
            if f is not None and '<' in f.q and self.refill(e, f.params[i][2]):
                continue
            self.bind(e, ps[i], v, 'argument %d of %s' % (i + 1, qual(key)))
        if n.t is not None and n.t.k == 'float':
            return Obj(D.dimof(ret))
        if n.t is not None and n.t.k in NUMT:
            return D.num()
        return ret

    def refill(self, e, t):
        """a local array filled by a generic function: its elements get new contents"""
        e = strip_casts(e)
        if t.k in ('ptr', 'arr') and not t.s.startswith('const') and e.k == 'Ref' and e.a[0] == 'L' and e.t is not None and e.t.k == 'arr' and e.a[1] in self.env and e.a[1] not in self.alias:
            self.env[e.a[1]] = Obj()
            return True
        return False

    def polymorphic(self, f, n):
        """small non-virtual functions are analysed separately for each call"""
        D = self.D
        if bare(qual(f.key)) in LIB and not SCOPE.match(f.file):
            return False
        if f.body is None or self.depth >= 4 or n.a[1] or any(f is x for x in self.chain):
            return False
        k = D.size.get(f.key)
        if k is None:
            k = D.size[f.key] = sum(1 for _ in f.walk())
        m = self.p.methods.get(f.key)
        return k <= 500 and not (m and 'V' in m[2])

    def purelit(self, q):
        """is a literal passed for this parameter a pure number"""
        return False

    def instance(self, f, n, es, vs, obj):
        D = self.D
        sub = type(self)(D, f)
        sub.depth = self.depth + 1
        sub.chain = self.chain + [f]
        sub.site = self.site or n
        sub.ps = []
        own, _ = D.params(f.key)
        for i, q in enumerate(f.params):
            v = vs[i] if i < len(vs) else None
            o = D.make(q[2])
            if v is not None and '<' in f.q and self.refill(es[i], q[2]):
                v = None
            if v is not None and not self.polym(es[i]):
                if q[2].k in ('ref', 'rref', 'ptr', 'arr') or q[2].deref().k == 'rec':
                    o = v
                elif q[2].k == 'float':
                    o = Obj(D.dimof(v))
                    if D.s.known(o.d) == D.ZERO:
                        o.poly = self.poly(es[i])
                else:
                    o = D.num(self.poly(es[i]))
            elif v is not None and q[2].k == 'float' and self.purelit(q):
                o = D.num()
            sub.ps.append(o)
        sub.ret = Obj()
        if obj is not None:
            sub._this = obj
            obj.kids.setdefault('#F', Obj()) if not find(obj).top else None
        sub.run()
        if n.t is not None and n.t.k == 'float':
            return Obj(D.dimof(sub.ret))
        if n.t is not None and n.t.k in NUMT:
            return D.num()
        return sub.ret

    def abstract(self, key, es):
        """pure virtual method: objects from its contract"""
        D = self.D
        if key in D.par:
            return D.par[key]
        ps, ret = [D.make(e.t) for e in es], Obj()
        D.par[key] = (ps, ret)
        c = None
        for r in D.roots(key):
            c = c or CONTRACT.get(qual(r))
        if c is not None:
            c(D, None, ps, ret)
        return ps, ret

    GENERIC = re.compile(r'^math::(IFunction\w*|BaseInterpolator1d|CubicSpline|QuinticSpline|LinearInterpolator|BsplineInterpolator1d<\d>|LogLogSpline|IFunctionIntegral)::')

    def generic(self, n, key, es, vs, obj):
        """methods of one-dimensional functions of the math library, containers"""
        D = self.D
        if obj is None:
            return False
        m = self.GENERIC.match(key)
        roots = D.roots(key)
        name = re.sub(r'<.*', '', qual(key).rsplit('::', 1)[-1])
        if m and 'Ndim' not in m.group(1) and '2d' not in m.group(1):
            X, F = D.dimof(D.kid(obj, '#X')), D.dimof(D.kid(obj, '#F'))
            if name in ('operator()', 'value') and es:
                if vs[0] is not None and not self.polym(es[0]):
                    self.eq(n, D.dimof(vs[0]), X, 'argument of a function')
                if len(es) > 1:
                    return Obj()
                return Obj(F)
            if name == 'evalDeriv':
                if vs[0] is not None and not self.polym(es[0]):
                    self.eq(n, D.dimof(vs[0]), X, 'argument of a function')
                for i, (e, v) in enumerate(zip(es[1:], vs[1:])):
                    if v is not None:
                        self.eq(e, D.dimof(D.kid(v, 0)), D.mul(F, D.scale(X, i), -1), 'derivative %d of a function' % i)
                return None
            if name in ('xmin', 'xmax'):
                return Obj(X)
            if name == 'xvalues':
                o = Obj()
                o.kids['e'] = Obj(X)
                return o
            if name == 'integrate' and len(es) == 2:
                for e, v in zip(es, vs):
                    if v is not None and not self.polym(e):
                        self.eq(n, D.dimof(v), X, 'argument of a function')
                return Obj(D.mul(X, F))
            return self.other(n)
        return False

    def x_MCall(self, n):
        D = self.D
        key = n.a[0]
        ob, es = n.c[0], n.c[1:]
        o = self.ev(ob) if ob is not None else self.this()
        if o is not None and ob is not None and ob.t is not None and ob.t.k == 'ptr' and strip_casts(ob).k != 'This':
            o = self.deref(ob, o)
        if key is None:
            self.args(es)
            return self.other(n)
        q = qual(key)
        name = re.sub(r'<.*', '', q.rsplit('::', 1)[-1])
        cls = q.rsplit('::', 1)[0]
        if o is None:
            o = Obj()
        if cls.startswith('std::') or cls.startswith('__gnu'):
            return self.container(n, cls, name, o, es)
        return self.call(n, key, es, o)

    def container(self, n, cls, name, o, es):
        D = self.D
        if cls.startswith(('std::shared_ptr', 'std::__shared_ptr', 'std::unique_ptr', 'std::auto_ptr')):
            if name in ('operator->', 'get', 'operator*'):
                return o if name in ('operator->', 'get') else D.kid(o, 0)
            for v in self.args(es):
                if name == 'reset' and v is not None:
                    self.bind(n, o, v, 'assignment')
            return self.other(n)
        vs = self.args(es)
        et = None
        if name in ('operator[]', 'at', 'front', 'back'):
            return D.kid(o, 'e', n.t)
        if name == 'data':
            r = Obj()
            e = D.kid(o, 'e')
            r.kids[0] = r.kids['e'] = e
            return r
        if name in ('begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend'):
            r = Obj()
            e = D.kid(o, 'e')
            r.kids[0] = r.kids['e'] = e
            return r
        if name in ('push_back', 'emplace_back') and vs and vs[0] is not None:
            if not self.polym(es[0]):
                self.bind(n, D.kid(o, 'e', es[0].t), vs[0], 'element added to a container')
            return None
        if name in ('resize', 'assign') and len(vs) == 2 and vs[1] is not None and es[1].t is not None and es[1].t.k in NUMT:
            if not self.polym(es[1]) and es[1].t.k == 'float':
                self.bind(n, D.kid(o, 'e', es[1].t), vs[1], 'elements of a container')
            return None
        if name == 'swap' and vs and vs[0] is not None:
            self.bind(n, o, vs[0], 'exchange')
            return None
        if name == 'operator=' and vs and vs[0] is not None:
            self.bind(n, o, vs[0], 'assignment')
            return o
        if name == 'operator bool':
            return D.num()
        return self.other(n)

    def x_OpCall(self, n):
        D = self.D
        key = n.a[0]
        q = qual(key) if key else ''
        name = q.rsplit('::', 1)[-1]
        if not n.c:
            return self.other(n)
        o = self.ev(n.c[0])
        es = n.c[1:]
        if o is None:
            o = Obj()
        if '::operator' in q and (q.startswith('std::') or q.startswith('__gnu')):
            cls = q.rsplit('::operator', 1)[0]
            nm = 'operator' + q.rsplit('::operator', 1)[1]
            if nm in ('operator->', 'operator*') and cls.startswith(('std::shared_ptr', 'std::__shared_ptr', 'std::unique_ptr', 'std::auto_ptr')):
                return o if nm == 'operator->' else D.kid(o, 0)
            if nm == 'operator->':
                return o
            if nm == 'operator*':
                return D.kid(o, 0, n.t)
            return self.container(n, cls, nm, o, es)
        if q.endswith('operator='):
            v = self.val(es[0]) if es else None
            if v is not None:
                self.bind(n, o, v, 'assignment')
            return o
        if q.endswith('operator()') or q.endswith('operator[]'):
            f = self.p.functions.get(key)
            if f is not None or key in self.p.methods:
                if q.startswith('math::') and not self.GENERIC.match(key or ''):
                    self.args(es)
                    if 'Matrix' in q and es and len(es) == 2:
                        return D.kid(o, 'e', n.t)
                    return self.other(n)
                return self.call(n, key, es, o)
        self.args(es)
        return self.other(n)

    def x_New0(self, n):
        D = self.D
        key = n.a[0]
        if key is None:
            self.args(n.c)
            return self.other(n)
        q = qual(key)
        cls = q.rsplit('::', 1)[0]
        es = n.c
        f = self.p.functions.get(key)
        o = D.make(n.t)
        if not (n.t is not None and n.t.k == 'rec'):
            o = Obj()
            D.typed(o, cls)
        # copy or conversion
        if len(es) == 1 and es[0].t is not None and es[0].t.deref().k == 'rec' and (es[0].t.deref().name == cls or f is None and cls.startswith(('std::shared_ptr', 'std::__shared_ptr', 'std::vector'))):
            v = self.ev(es[0])
            if v is not None:
                self.bind(n, o, v, 'copy')
            return o
        if cls.startswith(('std::shared_ptr', 'std::__shared_ptr')) and len(es) >= 1:
            v = self.ev(es[0])
            if v is not None and es[0].t is not None and (es[0].t.k == 'ptr' or es[0].t.deref().k == 'rec'):
                self.bind(n, o, v, 'copy')
            return o
        vs = self.args(es)
        if cls.startswith('std::vector'):
            if len(es) >= 2 and vs[1] is not None and es[1].t is not None and es[1].t.k == 'float' and not self.polym(es[1]):
                self.bind(n, D.kid(o, 'e', es[1].t), vs[1], 'elements of a container')
            elif len(es) >= 2 and vs[0] is not None and es[0].t is not None and es[0].t.k != 'uint' and es[0].t.k != 'int' and vs[0].kids:
                self.bind(n, D.kid(o, 'e'), D.kid(vs[0], 0), 'elements of a container')
            return o
        if cls.startswith('std::pair') and len(es) == 2:
            for k, v, e in zip(('first', 'second'), vs, es):
                if v is not None and not self.polym(e):
                    self.bind(n, D.kid(o, k, e.t), v, 'elements of a pair')
            return o
        if re.match(r'math::(CubicSpline|QuinticSpline|LinearInterpolator|LogLogSpline|HermiteSpline|BsplineInterpolator1d<\d>)::', key) and len(es) >= 2:
            for k, v in zip(('#X', '#F'), vs):
                if v is not None and find(v).kids:
                    self.bind(n, D.kid(o, k), D.kid(v, 'e'), 'values of an interpolated function')
            return o
        if f is not None and not f.file.startswith('math_'):
            ps, ret = D.params(key)
            for i, (e, v) in enumerate(zip(es, vs)):
                if v is None or i >= len(ps) or self.polym(e):
                    continue
                self.bind(e, ps[i], v, 'argument %d of %s' % (i + 1, qual(key)))
        return o

    def x_NewE(self, n):
        r = Obj()
        for c in n.c:
            v = self.ev(c)
            if v is not None and c.k == 'New0':
                r.kids[0] = v
        return r

    def x_InitList(self, n):
        o = self.D.make(n.t)
        self.initlist(n, o)
        return o

    def x_Lambda(self, n):
        return Obj()


# ---------------------------------------------------------------- C13
SCOPE = re.compile(r'^(coord\.|potential_(analytic|base|dehnen|disk|ferrers|king|perfect_ellipsoid|spheroid|composite)\.|df_(disk|halo|base|interp\w*)\.|orbit\.|actions_(isochrone|base)\.|galaxymodel_selfconsistent\.|raga_binary\.)')
EVALS = {'evalCar': 8, 'evalCyl': 12, 'evalSph': 5, 'densityCar': 5, 'densityCyl': 8, 'densitySph': 5, 'evalDeriv': 10}


def check_c13(rep):
    prog = Program()
    D = Dims(prog)
    ks = [k for k in sorted(prog.functions) if prog.functions[k].body is not None and SCOPE.match(prog.functions[k].file)]
    # declarations first: constructors tell the dimensions of members
    ks.sort(key=lambda k: (not prog.functions[k].file.startswith('coord.h'), 'K' not in prog.functions[k].fl))
    have = {}
    for k in ks:
        f = prog.functions[k]
        Fn(D, f).run()
        have[f.n] = have.get(f.n, 0) + 1
    D.settle(lambda n, w, a, b: D.conflicts.setdefault((n.fn.file, n.line, w), (n, w, D.s.show(a), D.s.show(b))))
    bad = set()
    for (file, line, w), (n, what, a, b) in sorted(D.conflicts.items()):
        if not SCOPE.match(file):
            continue
        bad.add((file, line, what))
        rep.bad('dimension', '%s: %s: %s / %s' % (n.fn.q, what, a, b), n.fn.loc(n),
                '%s combines quantities of different dimension: %s and %s (L length, V velocity; masses are L V^2 as the gravitational constant is unity)' % (what, a, b))
    for file, line, what in sorted(D.checked):
        if SCOPE.match(file) and (file, line, what) not in bad:
            rep.ok('dimension', '%s:%d %s' % (file, line, what))
    for n, m in EVALS.items():
        if have.get(n, 0) < m:
            raise AnalysisError('only %d functions named %s in the files analysed, at least %d expected' % (have.get(n, 0), n, m))
    rep.require('dimension', 2500, 'equations between dimensions')
    rep.notes.append('%d functions, %d equations' % (len(ks), len(D.checked)))
    return prog
