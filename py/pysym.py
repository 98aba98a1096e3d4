"""A small symbolic executor for Python functions over integers, names and real numbers.

The code under test runs unmodified on proxies (Sym*) that carry z3 terms. Whenever the code needs a truth value, the
executor asks z3 which sides are possible under the path condition; the run continues on one and the other is queued. Where
the code needs a concrete value (an index, a hash, a C conversion) the feasible values are enumerated through z3 in the same
way, up to a limit beyond which the path is marked as cut."""
import time
import z3

class Cut(Exception): pass
class Violation(Exception): pass

class Engine:
    def __init__(self): self.queries = 0; self.solver_s = 0.0; self.paths = 0; self.forks = 0; self.asserts = 0; self.cut = 0; self.values = None; self.unknown = 0
    def check(self, *c):
        t = time.time(); self.queries += 1; r = self.s.check(*c); self.solver_s += time.time() - t
        if r == z3.unknown: self.unknown += 1
        return r == z3.sat
    def reset(self, prefix, values=None):
        self.s = z3.Solver(); self.s.set("timeout", 20000); self.prefix = prefix; self.pos = 0; self.names = []; self.trace = []; self.values = values; self.pending = []
    def fork(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if self.pos < len(self.prefix): d = self.prefix[self.pos]; self.pos += 1; self.trace.append(d); self.s.add(cond if d else z3.Not(cond)); return d
        self.pos += 1
        t, f = self.check(cond), self.check(z3.Not(cond))
        if t and f: self.pending.append(self.trace + [False]); self.forks += 1; d = True
        else: d = t
        self.trace.append(d); self.s.add(cond if d else z3.Not(cond)); return d
    def realize(self, e, limit=80):
        for i in range(limit):
            v = z3.simplify(e)
            if z3.is_int_value(v) or z3.is_rational_value(v) or z3.is_string_value(v): return v
            if not self.check(): raise Cut()
            m = self.s.model().eval(e, model_completion=True)
            # the value itself has to be repeatable: it is a function of the path so far
            if self.fork(e == m): return m
        self.cut += 1; raise Cut()
    def model(self):
        self.check(); m = self.s.model()
        return [(n, k, conc(m.eval(e, model_completion=True))) for n, k, e in self.names]
    def fresh(self, name, kind, e):
        self.names.append((name, kind, e))

def conc(v):
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_string_value(v): return v.as_string()
    return None

E = Engine()

def T(x):
    if isinstance(x, SymInt) or isinstance(x, SymReal) or isinstance(x, SymStr): return x.e
    if type(x) is bool: return z3.IntVal(int(x))
    if type(x) is int: return z3.IntVal(x)
    if type(x) is float: return z3.RealVal(repr(x)) if x == x and abs(x) != float("inf") else None
    if type(x) is str: return z3.StringVal(x)
    return None

class SymBool:
    def __init__(self, e): self.e = e
    def __bool__(self): return E.fork(self.e)
    def __eq__(self, o): return bool(self) == o
    def __hash__(self): return hash(bool(self))
    def __index__(self): return int(bool(self))
    def __and__(self, o): return bool(self) & o
    def __or__(self, o): return bool(self) | o
    def __rand__(self, o): return o & bool(self)
    def __ror__(self, o): return o | bool(self)

class SymNum:
    def _cmp(self, o, f):
        t = T(o)
        if t is None or isinstance(o, (str, SymStr)): return NotImplemented
        return SymBool(f(self.e, t))
    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b); return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b); return True if r is NotImplemented else r
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __bool__(self): return E.fork(self.e != 0)
    def __format__(self, s): return str(self)
    def __str__(self): return "<symbolic>"
    __repr__ = __str__
    def _ar(self, o, f):
        t = T(o)
        if t is None or isinstance(o, (str, SymStr)): return NotImplemented
        return wrapnum(f(self.e, t))
    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: b + a)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a)
    def __mul__(self, o): return self._ar(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return wrapnum(-self.e)
    def __pos__(self): return self
    def __abs__(self): return wrapnum(z3.If(self.e < 0, -self.e, self.e))

def wrapnum(e): return SymInt(z3.simplify(e)) if e.is_int() else SymReal(z3.simplify(e))

class SymInt(SymNum):
    """an integer of at most 32 bits; bit operations go through 33 bit vectors"""
    __class__ = property(lambda self: int)
    def __init__(self, e): self.e = e
    def __hash__(self): return hash(int(self))
    def __int__(self): return E.realize(self.e).as_long()
    __index__ = __trunc__ = __int__
    def __float__(self): return float(int(self))
    def bit_length(self): return int(self).bit_length()
    def _bit(self, o, f):
        t = T(o)
        if t is None or not t.is_int(): return NotImplemented
        return SymInt(z3.simplify(z3.BV2Int(f(z3.Int2BV(self.e, 33), z3.Int2BV(t, 33)), True)))
    def __and__(self, o): return self._bit(o, lambda a, b: a & b)
    def __or__(self, o): return self._bit(o, lambda a, b: a | b)
    def __xor__(self, o): return self._bit(o, lambda a, b: a ^ b)
    __rand__ = __and__; __ror__ = __or__; __rxor__ = __xor__
    def __invert__(self): return SymInt(z3.simplify(-self.e - 1))
    def __lshift__(self, o): return int(self) << int(o)
    def __rlshift__(self, o): return int(o) << int(self)
    def __rshift__(self, o): return int(self) >> int(o)
    def __rrshift__(self, o): return int(o) >> int(self)
    def __floordiv__(self, o): return int(self) // int(o)
    def __mod__(self, o): return int(self) % int(o)
    def __rfloordiv__(self, o): return int(o) // int(self)
    def __rmod__(self, o): return int(o) % int(self)
    def __truediv__(self, o): return float(self) / float(o)
    def __pow__(self, o): return int(self) ** int(o)
    def __rpow__(self, o): return int(o) ** int(self)

class SymReal(SymNum):
    __class__ = property(lambda self: float)
    def __init__(self, e): self.e = e
    def __hash__(self): return hash(float(self))
    def __float__(self): return conc(E.realize(self.e))
    def __int__(self): return int(float(self))
    __trunc__ = __int__

class SymStr:
    """a text, compared with literals by z3; where its characters are needed it is fixed by the names known to the harness first"""
    __class__ = property(lambda self: str)
    known = ()
    def __init__(self, e): self.e = e
    def __eq__(self, o):
        t = T(o)
        return SymBool(self.e == t) if isinstance(o, (str, SymStr)) else False
    def __ne__(self, o): return not (self == o)
    def __hash__(self): return hash(str(self))
    def __str__(self):
        for k in SymStr.known:
            if E.fork(self.e == z3.StringVal(k)): return k
        E.check(); m = E.s.model().eval(self.e, model_completion=True); E.fork(self.e == m); return m.as_string()
    def __format__(self, s): return str(self)
    def __repr__(self): return repr(str(self))
    def __getattr__(self, n): return getattr(str(self), n)
    def __len__(self): return len(str(self))
    def __iter__(self): return iter(str(self))
    def __add__(self, o): return str(self) + str(o)
    def __radd__(self, o): return str(o) + str(self)
    def __bool__(self): return E.fork(z3.Length(self.e) > 0)

def val(name):
    """replay: the recorded value, by order"""
    n, k, v = E.values.pop(0) if E.values else (name, "?", None)
    return v
def integer(name, lo, hi):
    if E.values is not None: v = val(name); return lo if v is None else v
    e = z3.Int("%s#%d" % (name, len(E.names))); E.s.add(e >= lo, e <= hi); E.fresh(name, "int", e); return SymInt(e)
def real(name, lo=-1000000, hi=1000000):
    if E.values is not None: v = val(name); return 0.0 if v is None else v
    # multiples of 1/16: exact in single precision
    n = z3.Int("%s#%d" % (name, len(E.names))); e = z3.ToReal(n) / 16; E.s.add(n >= lo * 16, n <= hi * 16, z3.Implies(z3.Or(n > 2 ** 23, n < -2 ** 23), n % 32 == 0)); E.fresh(name, "real", e); return SymReal(e)
def text(name, names):
    """one of the names, or any other text"""
    SymStr.known = names
    if E.values is not None: v = val(name); return "" if v is None else v
    e = z3.String("%s#%d" % (name, len(E.names))); E.s.add(z3.Length(e) < 12, z3.InRe(e, z3.Star(z3.Range("a", "z")))); E.fresh(name, "text", e); return SymStr(e)
def choose(name, n):
    """a number below n, decided by forks"""
    v = integer(name, 0, n - 1)
    for i in range(n - 1):
        if v == i: return i
    return n - 1
def same(a, b, what):
    """assertion: equal for every value on this path"""
    E.asserts += 1
    if E.values is not None: ok = a == b
    else:
        if isinstance(a, SymNum) or isinstance(a, SymStr) or isinstance(b, SymNum) or isinstance(b, SymStr):
            ta, tb = T(a), T(b)
            if ta is None or tb is None: ok = False
            else:
                try: c = z3.simplify(ta == tb)
                except z3.Z3Exception: c = z3.BoolVal(False)
                ok = not E.check(z3.Not(c))
                if not ok: E.s.add(z3.Not(c))
        else: ok = a == b
    if not ok: raise Violation("%s: %s instead of %s" % (what, a, b))
def ensure(c, what):
    E.asserts += 1
    if not c: raise Violation(what)
def opaque(x): return isinstance(x, (SymNum, SymStr)) and E.values is None
