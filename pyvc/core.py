"""pyvc core: symbolic scalars, path exploration, obligations.

Deductive verification of the real Python functions: every function under contract is
executed on symbolic arguments (all branches, arrays of symbolic length), and each
postcondition becomes a verification condition discharged by z3 (cvc5 as second opinion).
Floats are mathematical reals; see DESIGN.md for the assumptions.
"""
import sys
import time

try:
    import z3
except ImportError:  # z3 lives in the verification tool venv
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3

z3.set_param("smt.random_seed", 1)

U = z3.DeclareSort("U")  # strings / opaque objects
_Val = z3.Datatype("Val")
_Val.declare("VR", ("vr", z3.RealSort()))
_Val.declare("VI", ("vi", z3.IntSort()))
_Val.declare("VB", ("vb", z3.BoolSort()))
_Val.declare("VO", ("vo", U))
_Val.declare("VN")
Val = _Val.create()

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(BaseException):
    """the code uses a construct outside the verifier's reach"""


class PathDone(BaseException):
    """this path ended (loop cut, infeasible)"""


class _Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = _Unbound()


# ---------------------------------------------------------------- symbolic scalars
class Sym:
    _is_sym = True
    __array_ufunc__ = None
    __slots__ = ("e",)

    def __init__(self, e):
        object.__setattr__(self, "e", e)

    def __hash__(self):
        return self.e.hash()

    def __str__(self):
        return "<sym>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<sym>"

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def is_sym(x):
    return getattr(type(x), "_is_sym", False) is True


_interned = {}


def intern_const(s):
    """constants (strings and other opaque python values) as distinct elements of U"""
    key = (type(s).__name__, s)
    if key not in _interned:
        c = z3.Const(f"cst!{len(_interned)}!{s!r:.20}", U)
        _interned[key] = c
    return _interned[key]


def distinct_consts_axiom():
    cs = list(_interned.values())
    return [z3.Distinct(*cs)] if len(cs) > 1 else []


def interned_value(model, e):
    for (t, v), c in _interned.items():
        if model.eval(c == e, model_completion=True).eq(z3.BoolVal(True)):
            return v
    return None


def frac(x):
    return z3.RealVal(repr(float(x))) if False else z3.Q(*float(x).as_integer_ratio())


import math


def lift(x):
    """python scalar / Sym -> z3 expr"""
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if math.isinf(x):
            return POS_INF if x > 0 else -POS_INF
        if math.isnan(x):
            return NAN
        return frac(x)
    if x is None:
        return Val.VN
    if isinstance(x, str):
        return intern_const(x)
    if isinstance(x, tuple):
        return intern_const(x)
    try:
        import numpy

        if isinstance(x, numpy.bool_):
            return z3.BoolVal(bool(x))
        if isinstance(x, numpy.integer):
            return z3.IntVal(int(x))
        if isinstance(x, numpy.floating):
            return lift(float(x))
        if isinstance(x, numpy.ndarray) and x.shape == ():
            return lift(x.item())
    except ImportError:
        pass
    raise Unsupported(f"cannot lift {type(x).__name__}")


# infinities and NaN are designated real constants; code under contract must not do
# arithmetic on them (isfinite/isnan/isinf test for them)
POS_INF = z3.Real("POS_INF!")
NAN = z3.Real("NAN!")
IsFin = z3.Function("IsFinite!", REAL, BOOL)
IsNan = z3.Function("IsNan!", REAL, BOOL)


def wrap(e):
    """z3 expr -> python proxy (constants are folded)"""
    s = e.sort()
    if s == BOOL:
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(e)
    if s == INT:
        if z3.is_int_value(e):
            return e.as_long()
        return SymNum(e)
    if s == REAL:
        return SymNum(e)
    if s == U:
        for (t, v), c in _interned.items():
            if c.eq(e):
                return v
        return SymObj(e)
    if s == Val:
        return SymVal(e)
    if s == Ref:
        return SymRef(e)
    raise Unsupported(f"sort {s}")


def to_real(e):
    s = e.sort()
    if s == REAL:
        return e
    if s == INT:
        return z3.ToReal(e)
    if s == BOOL:
        return z3.If(e, z3.RealVal(1), z3.RealVal(0))
    if s == Val:
        # object cells hold reals, ints or bools when used numerically
        if z3.is_app(e) and e.num_args() == 1:
            d = e.decl()
            if d.eq(Val.VR):
                return e.arg(0)
            if d.eq(Val.VI):
                return z3.ToReal(e.arg(0))
        return z3.If(
            Val.is_VR(e), Val.vr(e), z3.If(Val.is_VI(e), z3.ToReal(Val.vi(e)), z3.If(Val.vb(e), z3.RealVal(1), z3.RealVal(0)))
        )
    raise Unsupported(f"to_real {s}")


def to_int(e):
    """int(x): truncation toward zero"""
    s = e.sort()
    if s == INT:
        return e
    if s == BOOL:
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    if s == REAL:
        return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
    if s == Val:
        if z3.is_app(e) and e.num_args() == 1 and e.decl().eq(Val.VI):
            return e.arg(0)
        r = to_real(e)
        return z3.If(Val.is_VI(e), Val.vi(e), z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))
    raise Unsupported(f"to_int {s}")


def to_val(e):
    s = e.sort()
    if s == Val:
        return e
    if s == REAL:
        return Val.VR(e)
    if s == INT:
        return Val.VI(e)
    if s == BOOL:
        return Val.VB(e)
    if s == U:
        return Val.VO(e)
    raise Unsupported(f"to_val {s}")


def to_bool(e):
    s = e.sort()
    if s == BOOL:
        return e
    if s == INT:
        return e != 0
    if s == REAL:
        return e != 0
    if s == Val:
        if z3.is_app(e) and e.num_args() == 1 and e.decl().eq(Val.VB):
            return e.arg(0)
        return z3.If(Val.is_VB(e), Val.vb(e), z3.If(Val.is_VI(e), Val.vi(e) != 0, Val.vr(e) != 0))
    raise Unsupported(f"to_bool {s}")


def coerce(e, kind):
    return {"f": to_real, "i": to_int, "b": to_bool, "O": to_val, "U": lambda x: x}[kind](e)


def kind_of(e):
    s = e.sort()
    return {INT: "i", REAL: "f", BOOL: "b", Val: "O", U: "U"}[s]


_RANK = {"b": 0, "i": 1, "f": 2}


def unify(a, b):
    """two z3 exprs to a common sort for ite / ="""
    if a.sort() == b.sort():
        return a, b
    ka, kb = kind_of(a), kind_of(b)
    if ka in _RANK and kb in _RANK:
        k = ka if _RANK[ka] > _RANK[kb] else kb
        return coerce(a, k), coerce(b, k)
    return to_val(a), to_val(b)


def eq(a, b):
    """python equality of two z3 exprs"""
    sa, sb = a.sort(), b.sort()
    if sa == sb:
        return a == b
    ka, kb = kind_of(a), kind_of(b)
    if ka in _RANK and kb in _RANK:
        x, y = unify(a, b)
        return x == y
    if {ka, kb} == {"O", "U"}:
        return to_val(a) == to_val(b)
    if "O" in (ka, kb):
        o, x = (a, b) if ka == "O" else (b, a)
        if x.sort() in (INT, REAL):
            return z3.And(z3.Or(Val.is_VR(o), Val.is_VI(o)), to_real(o) == to_real(x))
        return o == to_val(x)
    return z3.BoolVal(False)


def _num(e):
    k = kind_of(e)
    if k == "b":
        return to_int(e)
    if k == "O":
        return to_real(e)
    if k == "U":
        raise TypeError("unsupported operand: str")
    return e


def num_pair(a, b):
    a, b = _num(a), _num(b)
    if a.sort() != b.sort():
        a, b = to_real(a), to_real(b)
    return a, b


EXP = z3.Function("exp!", REAL, REAL)
LOG = z3.Function("log!", REAL, REAL)
SQRT = z3.Function("sqrt!", REAL, REAL)
POW = z3.Function("pow!", REAL, REAL, REAL)
CDF = z3.Function("normcdf!", REAL, REAL)
PDF = z3.Function("normpdf!", REAL, REAL)
ROUND = z3.Function("round!", REAL, INT, REAL)


def _q(v):
    """numeral as Fraction or None"""
    v = z3.simplify(v)
    if z3.is_int_value(v):
        from fractions import Fraction

        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return v.as_fraction()
    return None


def mk_pow(a, b):
    qb = _q(b)
    if qb is not None and qb.denominator == 1 and 0 <= qb <= 4:
        if qb == 0:
            return z3.IntVal(1) if a.sort() == INT else z3.RealVal(1)
        r = a
        for _ in range(int(qb) - 1):
            r = r * a
        return r
    from fractions import Fraction

    if qb == Fraction(1, 2):
        return mk_sqrt(to_real(a))
    qa = _q(a)
    if qa == -1 and b.sort() == INT:
        return z3.If(b % 2 == 0, z3.IntVal(1), z3.IntVal(-1))
    a, b = to_real(a), to_real(b)
    p = POW(a, b)
    c = ctx()
    c.axiom(z3.Implies(a > 0, p > 0))
    c.axiom(z3.Implies(z3.And(a >= 0), p >= 0))
    c.axiom(z3.Implies(z3.And(a == 0, b > 0), p == 0))
    c.axiom(z3.Implies(b == 0, p == 1))
    c.axiom(z3.Implies(b == 1, p == a))
    c.note_pow(a, b)
    return p


def _uf(f, x):
    x = to_real(x)
    c = ctx()
    r = f(x)
    c.note_uf(f, x)
    return r


def mk_sqrt(x):
    r = SQRT(to_real(x))
    ctx().axiom(z3.Implies(to_real(x) >= 0, z3.And(r >= 0, r * r == to_real(x))))
    return r


def mk_exp(x):
    return _uf(EXP, x)


def mk_log(x):
    return _uf(LOG, x)


def mk_cdf(x):
    return _uf(CDF, x)


def mk_pdf(x):
    return _uf(PDF, x)


def mk_floor(x):
    return z3.ToReal(z3.ToInt(to_real(x)))


def mk_ceil(x):
    return -z3.ToReal(z3.ToInt(-to_real(x)))


def mk_abs(x):
    x = _num(x)
    return z3.If(x >= 0, x, -x)


def mk_min(a, b):
    a, b = num_pair(a, b)
    return z3.If(a <= b, a, b)


def mk_max(a, b):
    a, b = num_pair(a, b)
    return z3.If(a >= b, a, b)


def mk_rint(x):
    """round half to even, exactly"""
    x = to_real(x)
    f = z3.ToInt(x)
    d = x - z3.ToReal(f)
    half = z3.RealVal("1/2")
    return z3.ToReal(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))


def mk_round(x, p):
    p = to_int(lift(p))
    r = ROUND(to_real(x), p)
    return r


def mk_sign(x):
    x = to_real(x)
    return z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0)))


def _nary(op, a, b):
    if op in ("==", "!="):
        r = eq(a, b)
        return r if op == "==" else z3.Not(r)
    a, b = num_pair(a, b)
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        a, b = to_real(a), to_real(b)
        ctx().note_div(b)
        return a / b
    if op == "//":
        if a.sort() == INT:
            return z3.If(b > 0, a / b, (-a) / (-b))
        return mk_floor(a / b)
    if op == "%":
        if a.sort() == INT:
            return z3.If(b > 0, a % b, -((-a) % (-b)))
        return a - b * mk_floor(a / b)
    if op == "**":
        return mk_pow(a, b)
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    if op == ">=":
        return a >= b
    raise Unsupported(op)


def elem_op(op, a, b):
    if op in ("&", "|", "^"):
        if a.sort() == BOOL and b.sort() == BOOL:
            return {"&": z3.And, "|": z3.Or, "^": z3.Xor}[op](a, b)
        raise Unsupported(f"bitwise {op} on ints")
    return _nary(op, a, b)


def _scalar_bin(op, swap=False):
    def f(self, other):
        if getattr(type(other), "_is_symarray", False) or isinstance(other, (list,)) and op == "*":
            if isinstance(other, list):
                return ctx().engine_repeat(other, self)
            return NotImplemented
        import numpy

        if isinstance(other, numpy.ndarray) and other.shape != ():
            from . import symnp

            o = symnp.to_symarray(other)
            return o._bin(op, self, not swap)
        try:
            a, b = self.e, lift(other)
        except Unsupported:
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        if swap:
            a, b = b, a
        return wrap(z3.simplify(elem_op(op, a, b), som=False) if False else elem_op(op, a, b))

    return f


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return ctx().decide(self.e)

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    for _n, _o in (("and", "&"), ("or", "|"), ("xor", "^")):
        exec(f"__{_n}__ = _scalar_bin('{_o}'); __r{_n}__ = _scalar_bin('{_o}', True)")
    for _n, _o in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("pow", "**")):
        exec(f"__{_n}__ = _scalar_bin('{_o}'); __r{_n}__ = _scalar_bin('{_o}', True)")
    __eq__ = _scalar_bin("==")
    __ne__ = _scalar_bin("!=")
    __lt__ = _scalar_bin("<")
    __le__ = _scalar_bin("<=")
    __gt__ = _scalar_bin(">")
    __ge__ = _scalar_bin(">=")
    __hash__ = Sym.__hash__

    def item(self):
        return self


class SymNum(Sym):
    __slots__ = ()
    for _n, _o in (
        ("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"), ("pow", "**"),
    ):
        exec(f"__{_n}__ = _scalar_bin('{_o}'); __r{_n}__ = _scalar_bin('{_o}', True)")
    __eq__ = _scalar_bin("==")
    __ne__ = _scalar_bin("!=")
    __lt__ = _scalar_bin("<")
    __le__ = _scalar_bin("<=")
    __gt__ = _scalar_bin(">")
    __ge__ = _scalar_bin(">=")
    __hash__ = Sym.__hash__

    def __neg__(self):
        return SymNum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(mk_abs(self.e))

    def __bool__(self):
        return ctx().decide(self.e != 0)

    def __index__(self):
        if self.e.sort() == INT:
            v = z3.simplify(self.e)
            if z3.is_int_value(v):
                return v.as_long()
        raise Unsupported("symbolic value used where a concrete integer is required")

    def __int__(self):
        raise Unsupported("int() of symbolic outside shadow builtins")

    def __float__(self):
        raise Unsupported("float() of symbolic outside shadow builtins")

    def is_int(self):
        return self.e.sort() == INT

    # numpy-scalar-like interface
    def item(self):
        return self

    def astype(self, t):
        from . import symnp

        return wrap(coerce(self.e, symnp.dtype_kind(t)))

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def copy(self):
        return self

    def tolist(self):
        return self

    def __getitem__(self, k):
        raise TypeError("'float' object is not subscriptable")


class SymObj(Sym):
    __slots__ = ()
    __eq__ = _scalar_bin("==")
    __ne__ = _scalar_bin("!=")
    __hash__ = Sym.__hash__

    def __add__(self, other):
        return SymObj(STRCAT(self.e, lift(other)))

    def __radd__(self, other):
        return SymObj(STRCAT(lift(other), self.e))

    def __bool__(self):
        raise Unsupported("truth of opaque object")

    def item(self):
        return self


Ref = z3.DeclareSort("Ref")


class SymRef(Sym):
    """an opaque heap object (e.g. a search variable): attributes are functions of the reference,
    registered per proof (V.refs). Copies are indistinguishable from the original (aliasing is not modelled);
    writing an attribute is rejected."""

    __slots__ = ()
    __hash__ = Sym.__hash__

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        at = ctx().__dict__.get("ref_attrs", {})
        if n not in at:
            raise AttributeError(n)
        r = at[n](self.e)
        return wrap(r) if isinstance(r, z3.ExprRef) else r

    def __setattr__(self, n, v):
        if n == "e":
            object.__setattr__(self, n, v)
        else:
            raise Unsupported(f"write to attribute {n} of an opaque object")

    def __eq__(self, o):
        if isinstance(o, SymRef):
            return wrap(self.e == o.e)
        return False

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, Sym) else not r

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


STRCAT = z3.Function("strcat!", U, U, U)
STR_I = z3.Function("str_int!", INT, U)
STR_R = z3.Function("str_real!", REAL, U)
STR_V = z3.Function("str_val!", Val, U)


class SymVal(Sym):
    """object-dtype cell"""

    __slots__ = ()
    for _n, _o in (
        ("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("mod", "%"), ("pow", "**"),
    ):
        exec(f"__{_n}__ = _scalar_bin('{_o}'); __r{_n}__ = _scalar_bin('{_o}', True)")
    __eq__ = _scalar_bin("==")
    __ne__ = _scalar_bin("!=")
    __lt__ = _scalar_bin("<")
    __le__ = _scalar_bin("<=")
    __gt__ = _scalar_bin(">")
    __ge__ = _scalar_bin(">=")
    __hash__ = Sym.__hash__

    def __bool__(self):
        return ctx().decide(to_bool(self.e))

    def item(self):
        return self


def value_eq(a, b):
    return wrap(eq(lift(a), lift(b)))


_FAX = {}


def func_axioms(key):
    """universally quantified facts about the transcendental functions (trusted)"""
    if key in _FAX:
        return _FAX[key]
    x, y, b = z3.Reals("ax!x ax!y ax!b")
    mp = z3.MultiPattern

    def mono(f, guard=z3.BoolVal(True)):
        return z3.ForAll([x, y], z3.Implies(z3.And(x < y, guard), f(x) < f(y)), patterns=[mp(f(x), f(y))])

    if key == "exp!":
        r = [z3.ForAll([x], z3.And(EXP(x) > 0, EXP(x) >= x + 1, z3.Implies(x == 0, EXP(x) == 1)), patterns=[EXP(x)]), mono(EXP)]
    elif key == "log!":
        r = [
            z3.ForAll([x], z3.Implies(x > 0, z3.And(EXP(LOG(x)) == x, z3.Implies(x == 1, LOG(x) == 0))), patterns=[LOG(x)]),
            mono(LOG, x > 0),
        ]
    elif key == "normcdf!":
        r = [z3.ForAll([x], z3.And(CDF(x) > 0, CDF(x) < 1), patterns=[CDF(x)]), mono(CDF)]
    elif key == "normpdf!":
        r = [z3.ForAll([x], z3.And(PDF(x) > 0, PDF(x) < 1), patterns=[PDF(x)])]
    elif key == "pow!":
        r = [
            z3.ForAll(
                [x, y, b], z3.Implies(z3.And(b > 0, x >= 0, x < y), POW(x, b) < POW(y, b)), patterns=[mp(POW(x, b), POW(y, b))]
            ),
        ]
    else:
        r = []
    _FAX[key] = r
    return r


# ---------------------------------------------------------------- contexts
_CTX = []


def ctx():
    if not _CTX:
        raise Unsupported("no active verification context")
    return _CTX[-1]


class Obligation:
    __slots__ = ("name", "hyps", "goal", "extra", "status", "time", "backend", "model", "path", "hints")

    def __init__(self, name, hyps, goal, hints=()):
        self.name, self.hyps, self.goal, self.hints = name, hyps, goal, hints
        self.status = None
        self.time = 0.0
        self.backend = None
        self.model = None
        self.path = None


class Ctx:
    def __init__(self, timeout_ms=10000, max_paths=400):
        self.pc = []
        self._ax_ids = set()
        self._keep = []
        self.bound = []
        self.exports = []
        self.decs = []
        self._noforks = 0
        self.prefix = []
        self.trace = []
        self.pos = 0
        self.obligations = []
        self.nfresh = 0
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.journal = None
        self.divs = []
        self.ufs = {}
        self.pows = []
        self.sums = []
        self.stats = {"decides": 0, "solver_s": 0.0, "paths": 0}
        self.over_approx = False  # an abstraction was used: sat answers are not refutations
        self.loop_contracts = {}
        self.notes = []
        self.inputs = {}

    # -- symbols
    def name(self, base):
        self.nfresh += 1
        return f"{base}!{self.nfresh}"

    def _fresh(self, base, sort):
        bv = [v for v, _ in self.bound]
        if not bv:
            return z3.Const(self.name(base), sort)
        return z3.Function(self.name(base), *[v.sort() for v in bv], sort)(*bv)

    def fresh_int(self, base="k"):
        return self._fresh(base, INT)

    def fresh_real(self, base="r"):
        return self._fresh(base, REAL)

    def fresh_bool(self, base="b"):
        return self._fresh(base, BOOL)

    def fresh_var(self, base="q"):
        """a fresh variable meant to be quantified / substituted"""
        return z3.Int(self.name(base))

    def fresh_fun(self, base, *sorts):
        bv = [v for v, _ in self.bound]
        f = z3.Function(self.name(base), *[v.sort() for v in bv], *sorts)
        if not bv:
            return f
        return lambda *a: f(*bv, *a)

    def assume(self, f):
        f = lift(f) if not isinstance(f, z3.ExprRef) else f
        if z3.is_true(f):
            return
        self.pc.append(f)
        if self.bound:
            self.exports.append((list(self.decs), f))

    def axiom(self, f):
        i = f.get_id()
        if i in self._ax_ids:
            return
        self._ax_ids.add(i)
        self._keep.append(f)
        self.pc.append(f)
        if self.bound:
            self.exports.append(([], f))

    def quantify(self, var, guard, fn):
        """evaluate fn() with var bound (no branching); returns its value; side axioms are
        exported as universally quantified facts"""
        saved_exports, n = self.exports, len(self.pc)
        self.exports = []
        self.bound.append((var, guard))
        self.pc.append(guard)
        self._noforks += 1
        try:
            r = fn()
        finally:
            self._noforks -= 1
            self.bound.pop()
            exports, self.exports = self.exports, saved_exports
            del self.pc[n:]
        self._export(exports, var, guard)
        return r

    def _export(self, exports, var, guard):
        seen = set()
        for decs, f in exports:
            g = z3.And(guard, *decs) if decs else guard
            if mentions(f, var):
                q = z3.ForAll([var], z3.Implies(g, f))
            elif any(mentions(d, var) for d in decs):
                q = z3.Implies(z3.Exists([var], g), f)
            else:
                q = z3.Implies(z3.And(*decs), f) if decs else f
            if q.get_id() in seen:
                continue
            seen.add(q.get_id())
            self._keep.append(q)
            self.assume(q)

    def note_div(self, d):
        self.divs.append((list(self.pc), d))

    def note_uf(self, f, x):
        key = f.name()
        if self.bound:
            for ax in func_axioms(key):
                self.axiom(ax)
            if key == "log!":
                for ax in func_axioms("exp!"):
                    self.axiom(ax)
            return
        lst = self.ufs.setdefault(key, [])
        if any(y.eq(x) for y in lst):
            return
        lst.append(x)
        fx = f(x)
        if key == "exp!":
            self.axiom(fx > 0)
            self.axiom(fx >= x + 1)
            self.axiom(z3.Implies(x == 0, fx == 1))
            for y in lst[:-1]:
                fy = f(y)
                self.axiom(z3.And(z3.Implies(x < y, fx < fy), z3.Implies(y < x, fy < fx), z3.Implies(x == y, fx == fy)))
        elif key == "log!":
            for y in lst[:-1]:
                fy = f(y)
                self.axiom(
                    z3.Implies(z3.And(x > 0, y > 0), z3.And(z3.Implies(x < y, fx < fy), z3.Implies(y < x, fy < fx)))
                )
            self.axiom(z3.Implies(x == 1, fx == 0))
            self.axiom(z3.Implies(x >= 1, fx >= 0))
            self.axiom(z3.Implies(x > 0, EXP(fx) == x))
            if fx.get_id() not in [y.get_id() for y in self.ufs.get("exp!", [])]:
                self.note_uf(EXP, fx)
        elif key == "normcdf!":
            self.axiom(z3.And(fx > 0, fx < 1))
            for y in lst[:-1]:
                fy = f(y)
                self.axiom(z3.And(z3.Implies(x < y, fx < fy), z3.Implies(y < x, fy < fx)))
        elif key == "normpdf!":
            self.axiom(fx > 0)
            self.axiom(fx < 1)

    def note_pow(self, a, b):
        if self.bound:
            for ax in func_axioms("pow!"):
                self.axiom(ax)
            return
        for (a2, b2) in self.pows:
            p, p2 = POW(a, b), POW(a2, b2)
            self.axiom(z3.Implies(z3.And(b == b2, b > 0, a >= 0, a2 >= 0, a < a2), p < p2))
            self.axiom(z3.Implies(z3.And(b == b2, b > 0, a >= 0, a2 >= 0, a2 < a), p2 < p))
        self.pows.append((a, b))

    # -- branching
    decide_ms = 1500

    def _check(self, f, ms=None):
        ms = self.decide_ms if ms is None else ms
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 700)
        for h in self.pc:
            if not has_quant(h):
                s.add(h)
        for a in distinct_consts_axiom():
            s.add(a)
        s.add(f)
        r = s.check()
        if r == z3.unsat:
            self.stats["solver_s"] += time.time() - t0
            return r
        s = z3.Solver()
        s.set("timeout", ms)
        for h in self.pc:
            s.add(h)
        for a in distinct_consts_axiom():
            s.add(a)
        s.add(f)
        r = s.check()
        self.stats["solver_s"] += time.time() - t0
        return r

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.stats["decides"] += 1
        if self._noforks:
            raise Unsupported("branch on a symbolic condition under a quantifier")
        if self.pos < len(self.prefix):
            b = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((b, True))
            self._dec(cond if b else z3.Not(cond))
            return b
        can_t = self._check(cond) != z3.unsat
        can_f = self._check(z3.Not(cond)) != z3.unsat
        self.pos += 1
        if can_t and can_f:
            self.trace.append((True, False))
            self.prefix.append(True)
            self._dec(cond)
            return True
        b = can_t
        if not can_t and not can_f:
            raise PathDone()
        self.trace.append((b, True))
        self.prefix.append(b)
        self._dec(cond if b else z3.Not(cond))
        return b

    def _dec(self, f):
        self.pc.append(f)
        self.decs.append(f)

    def choose(self, n, label="choice"):
        """non-deterministic branching over n alternatives (all explored)"""
        for i in range(n - 1):
            c = z3.Bool(self.name(f"{label}_{i}"))
            if self.decide(c):
                return i
        return n - 1

    def oblige(self, name, goal):
        goal = lift(goal) if not isinstance(goal, z3.ExprRef) else goal
        self.obligations.append(Obligation(name, list(self.pc), goal, self._hints()))

    def _hints(self):
        """instantiation hints: the rank (inverse) functions of selections, applied to the generic indices of
        the contract; each term is wrapped in a fresh predicate, so the hints constrain nothing"""
        gs, fs = self.__dict__.get("_generics", []), self.__dict__.get("_rankfns", [])
        if not gs or not fs or len(fs) > 6:
            return ()
        T = z3.Function("hint!", INT, BOOL)
        out, lvl = {}, list(gs[:4])
        for _ in range(2):
            nxt = []
            for g in lvl:
                for f in fs:
                    t = f(g)
                    if t.get_id() not in out:
                        out[t.get_id()] = T(t)
                        nxt.append(t)
            lvl = nxt
        return list(out.values())[:60]

    # -- exploration of all paths of a thunk
    def explore(self, fn, var=None, guard=None, on_path=None):
        """run fn on every feasible path; returns [(decisions, outcome, journal_result)]
        outcome = ('ok', value) | ('exc', exception) | ('done', None).
        With `var`, fn is evaluated for a generic value of `var` (guard holds): fresh symbols
        become functions of var, assumptions are exported universally quantified."""
        base_pc = len(self.pc)
        base_ax = set(self._ax_ids)
        saved = (self.prefix, self.trace, self.pos, self.journal, self.decs, self.exports, self._noforks)
        work = [[]]
        out = []
        all_exports = []
        self._noforks = 0
        if var is not None:
            self.bound.append((var, guard))
        try:
            while work:
                if len(out) > self.max_paths:
                    raise Unsupported("too many paths")
                pre = work.pop()
                del self.pc[base_pc:]
                if var is not None:
                    self.pc.append(guard)
                self._ax_ids = set(base_ax)
                ufs, pows, sums = {k: list(v) for k, v in self.ufs.items()}, list(self.pows), list(self.sums)
                self.prefix, self.trace, self.pos = list(pre), [], 0
                self.journal = []
                self.decs, self.exports = [], []
                try:
                    try:
                        res = ("ok", fn())
                    except PathDone:
                        res = ("done", None)
                    except Unsupported:
                        raise
                    except RecursionError as e:
                        raise Unsupported("recursion") from e
                    except Exception as e:
                        res = ("exc", e)
                    extra = on_path(self.journal) if on_path else None
                    out.append((list(self.decs), res, extra))
                    all_exports += self.exports
                finally:
                    # roll back heap effects
                    for undo in reversed(self.journal):
                        undo.rollback()
                    if var is None:
                        self.ufs, self.pows, self.sums = ufs, pows, sums
                self.stats["paths"] += 1
                for i in range(len(pre), len(self.trace)):
                    b, forced = self.trace[i]
                    if not forced:
                        work.append([t[0] for t in self.trace[:i]] + [False])
        finally:
            del self.pc[base_pc:]
            self._ax_ids = set(base_ax)
            self.prefix, self.trace, self.pos, self.journal, self.decs, self.exports, self._noforks = saved
            if var is not None:
                self.bound.pop()
        if var is not None:
            self._export(all_exports, var, guard)
        return out

    def engine_repeat(self, lst, n):
        from .symnp import SymSeq

        if len(lst) != 1:
            raise Unsupported("list repetition of symbolic count")
        v = lst[0]
        return SymSeq(n, lambda i: v)


_HQ = {}


def has_quant(e):
    i = e.get_id()
    if i in _HQ:
        return _HQ[i][0]
    seen, stack, r = set(), [e], False
    while stack:
        x = stack.pop()
        if z3.is_quantifier(x):
            r = True
            break
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack.extend(x.children())
    _HQ[i] = (r, e)
    return r


def mentions(e, var):
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(var):
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def run_with(c, fn):
    _CTX.append(c)
    try:
        return fn()
    finally:
        _CTX.pop()


# ---------------------------------------------------------------- discharge
_SYM = {}


def _symbols(e):
    """uninterpreted constants and functions of a term"""
    k = e.get_id()
    hit = _SYM.get(k)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    out, seen, todo = set(), set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            todo.extend(t.children())
    if len(_SYM) > 20000:
        _SYM.clear()
    _SYM[k] = (e, out)
    return out


def _cones(base, depths):
    """subsets of the assertions (the last one is the negated goal) that are connected to the goal by shared symbols within so many steps"""
    goal, hyps = base[-1], [(h, _symbols(h)) for h in base[:-1]]
    out, sizes = [], {len(base)}
    for d in depths:
        have, keep, k = set(_symbols(goal)), [False] * len(hyps), 0
        while d is None or k < d:
            new = [i for i, (h, s) in enumerate(hyps) if not keep[i] and s & have]
            if not new:
                break
            add = set()
            for i in new:
                keep[i] = True
                add |= hyps[i][1]
            have |= add
            k += 1
        sub = [h for (h, s), q in zip(hyps, keep) if q] + [goal]
        if len(sub) not in sizes:
            sizes.add(len(sub))
            out.append(sub)
    return out


def discharge(ob, timeout_ms=10000, second=True, axioms=(), sizes=()):
    t0 = time.time()
    goal = ob.goal
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for a in distinct_consts_axiom():
        s.add(a)
    for h in ob.hyps:
        s.add(h)
    for a in axioms:
        s.add(a)
    s.add(z3.Not(goal))
    s.set("timeout", min(timeout_ms, 3000))
    r = s.check()
    ob.backend = "z3"
    if r == z3.unknown and z3.is_eq(goal) and goal.arg(0).sort() in (REAL, INT):
        # a polynomial identity: z3's sum-of-monomials normal form of the difference is zero
        d = z3.simplify(goal.arg(0) - goal.arg(1), som=True, som_blowup=100000)
        if z3.is_rational_value(d) or z3.is_int_value(d):
            if d.as_fraction() == 0 if z3.is_rational_value(d) else d.as_long() == 0:
                r, ob.backend = z3.unsat, "z3(normal form)"
    if r == z3.unknown:
        # portfolio of strategies; the hints are ground terms of interest wrapped in a fresh predicate asserted true
        H = list(ob.hints or ())
        short = min(timeout_ms, 3000)
        plan = []
        if H:
            plan.append(("z3(hints)", dict(), H, short))
        for sd in (1, 2):
            plan.append((f"z3(ematch{sd})", {"smt.mbqi": False, "smt.random_seed": sd}, H if sd == 2 else [], short))
        for sd in (3, 4):
            plan.append((f"z3(seed{sd})", {"smt.random_seed": sd, "smt.phase_selection": 5 if sd == 3 else 3}, H if sd == 4 else [], short))
        plan.append(("z3(arith2)", {"smt.arith.solver": 2, "smt.random_seed": 7}, H, timeout_ms))
        if timeout_ms > short:
            plan.append(("z3(long)", dict(), H, timeout_ms))
        base = list(s.assertions())
        # dropping hypotheses is sound for a proof (not for a counterexample): first those that share no symbol with the goal, transitively, then the ones further away than 1 or 2 steps
        cones = _cones(base, (None, 2, 1))
        if cones:
            plan = [(f"z3(cone{i})", dict(_cone=i), [], short) for i in range(len(cones))] + plan
        for nm, par, extra, tmo in plan:
            s2 = z3.Solver()
            s2.set("timeout", tmo)
            cone = par.pop("_cone", None)
            for k, v in par.items():
                s2.set(k, v)
            if cone is not None:
                s2.add(*cones[cone])
                if s2.check() == z3.unsat:
                    r, s, ob.backend = z3.unsat, s2, nm
                    break
                continue
            s2.add(*base)
            s2.add(*extra)
            r2 = s2.check()
            if r2 == z3.unsat or (r2 == z3.sat and par.get("smt.mbqi") is not False):
                r, s, ob.backend = r2, s2, nm
                break
        if r == z3.unknown and second:
            r3 = _cvc5(s.to_smt2(), timeout_ms)
            if r3 == "unsat":
                r = z3.unsat
                ob.backend = "cvc5"
    if r == z3.unknown and sizes:
        # counterexample search with small sizes
        for b in (1, 2, 3):
            s3 = z3.Solver()
            s3.set("timeout", 2000)
            s3.add(*s.assertions())
            for e in sizes:
                s3.add(e <= b)
            r3 = s3.check()
            if r3 == z3.sat:
                r, s = r3, s3
                break
    ob.time = time.time() - t0
    if r == z3.unsat:
        ob.status = "proved"
    elif r == z3.sat:
        ob.status = "failed"
        try:
            ob.model = s.model()
        except z3.Z3Exception:
            ob.model = None
    else:
        ob.status = "unknown"
    return ob


def _cvc5(smt2, timeout_ms):
    import subprocess
    import tempfile
    import os

    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write("(set-logic ALL)\n" + smt2)
        o = subprocess.run(["cvc5", f"--tlimit={timeout_ms}", p], capture_output=True, text=True, timeout=timeout_ms / 1000 + 10)
        return o.stdout.strip().split("\n")[-1] if o.stdout.strip() else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(p)
