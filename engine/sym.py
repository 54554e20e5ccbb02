"""Symbolic executor / verification-condition generator over clang LLVM IR.

Machine integers are mathematical integers (z3 Int) in canonical signed range, every nsw operation yields a
no-overflow obligation, non-nsw operations wrap explicitly.  Division is axiomatised by quotient/remainder.
Calls to functions under contract are replaced by the contract, other defined functions are executed in place,
loops are cut by inductive invariants (closed forms inferred + user supplied), paths fork at branches.
"""
import re, sys, time, os
RLIMIT = 4000
NLT = int(os.environ.get('VC_NLT', '5'))
SPECROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import z3
from ir import Module, ParseError

sys.setrecursionlimit(100000)

class Unsupported(Exception):
    pass

class PathEnd(Exception):
    """current path ends (infeasible / noreturn)"""
    def __init__(self, why=''):
        self.why = why

I1 = ('i', 1)

def is_c(x):
    return isinstance(x, int) and not isinstance(x, bool)

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off):
        self.obj, self.off = obj, off
    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)

NULL = Ptr(0, 0)

class Fn:
    __slots__ = ('name',)
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return 'Fn(%s)' % self.name

class Packed:
    """integer made of parts, low first: [(bits, value)]; values are signed-canonical of that width, or Ptr"""
    __slots__ = ('parts',)
    def __init__(self, parts):
        self.parts = parts
    def __repr__(self):
        return 'Packed(%s)' % (self.parts,)

class Undef:
    def __repr__(self):
        return 'undef'
UNDEF = Undef()

FPS = z3.DeclareSort('FP')

class Provider:
    """lazily materialised symbolic memory, shared between copies"""
    def __init__(self, name, eng):
        self.name, self.eng, self.d = name, eng, {}
    def get(self, off, ty, text=''):
        key = (off, ty)
        if key in self.d:
            return self.d[key]
        e = self.eng
        nm = '%s@%s' % (self.name, off)
        # overlapping materialised cell?
        sz = e.mod.size(ty)
        for (o, t), v in self.d.items():
            s2 = e.mod.size(t)
            if o < off + sz and off < o + s2:
                if o == off and sz == s2 and ty[0] == t[0]:
                    return v
                if t == ('i', 64) and o == off and ty == ('i', 32):
                    raise Unsupported('overlapping lazy access ' + nm)
                raise Unsupported('overlapping lazy access ' + nm)
        if ty[0] == 'i':
            if ty[1] == 1:
                v = e.fresh_bool(nm)
            else:
                v = e.fresh_int(nm, ty[1])
        elif ty[0] == 'ptr':
            v = Ptr(e.new_obj_id('lazy:' + nm), 0)
            e.lazy_objs[v.obj] = nm
        elif ty[0] == 'f':
            v = e.fresh_fp(nm)
        else:
            raise Unsupported('lazy type %s' % (ty,))
        self.d[key] = v
        return v

class Obj:
    __slots__ = ('id', 'size', 'name', 'cells', 'backing', 'alive', 'kind', 'sym', 'zero')
    def __init__(self, id, size, name, kind):
        self.id, self.size, self.name, self.kind = id, size, name, kind
        self.cells = {}      # off -> (nbytes, ty, value)
        self.backing = []    # (lo, hi, provider, shift)   hi None = unbounded
        self.alive = True
        self.sym = None      # symbolic-offset log: SymMem
        self.zero = False
    def clone(self):
        o = Obj(self.id, self.size, self.name, self.kind)
        o.cells = dict(self.cells)
        o.backing = list(self.backing)
        o.alive = self.alive
        o.sym = self.sym
        o.zero = self.zero
        return o

class SymMem:
    """memory with symbolic offsets: base + log of writes (immutable, linked)"""
    __slots__ = ('base', 'esize', 'ty', 'log')
    def __init__(self, base, esize, ty, log=()):
        self.base, self.esize, self.ty, self.log = base, esize, ty, log

def _get_id(self, _f=z3.z3core.Z3_get_ast_id):
    try:
        return self._vid
    except AttributeError:
        v = self._vid = _f(self.ctx.ref(), self.as_ast())
        return v
z3.AstRef.get_id = z3.ExprRef.get_id = _get_id

class Models:
    """recent satisfying assignments: most feasible queries are satisfied by one of them"""
    def __init__(self, n=6):
        self.n = n
        self.ms = []
        self.hits = self.misses = 0
    def sat(self, forms):
        for k, (m, known) in enumerate(self.ms):
            for f in forms:
                i = f.get_id()
                r = known.get(i)
                if r is None:
                    try:
                        r = (z3.is_true(m.eval(f, model_completion=True)), f)
                    except z3.Z3Exception:
                        r = (False, f)
                    known[i] = r
                if not r[0]:
                    break
            else:
                if k:
                    self.ms.insert(0, self.ms.pop(k))
                self.hits += 1
                return True
        self.misses += 1
        return False
    def add(self, solver):
        try:
            self.ms.insert(0, (solver.model(), {}))
            del self.ms[self.n:]
        except z3.Z3Exception:
            pass

def fast_add(solver, forms):
    """Solver.add without the conversions of the Python interface"""
    a = z3.z3core.Z3_solver_assert
    c, h = solver.ctx.ref(), solver.solver
    for f in forms:
        a(c, h, f.as_ast())

class State:
    __slots__ = ('mem', 'pc', 'dead', 'lits')
    def __init__(self):
        self.mem = {}
        self.pc = []
    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        return s

class Obligation:
    __slots__ = ('name', 'loc', 'pc', 'goal', 'kind', 'bounded')
    def __init__(self, name, loc, pc, goal, kind, bounded):
        self.name, self.loc, self.pc, self.goal, self.kind, self.bounded = name, loc, pc, goal, kind, bounded

def mkint(x):
    if isinstance(x, bool):
        return 1 if x else 0
    return x

def Z(x):
    return z3.IntVal(x) if is_c(x) else x

def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x

def bnot(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)

def band(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return z3.And(a, b)

def bor(a, b):
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    return z3.Or(a, b)

def is_val(x):
    return is_c(x) or isinstance(x, z3.ArithRef)

def add(a, b):
    if is_c(a) and is_c(b):
        return a + b
    if is_c(a) and a == 0:
        return b
    if is_c(b) and b == 0:
        return a
    if is_c(b) and not is_c(a) and z3.is_add(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
        return add(a.arg(0), a.arg(1).as_long() + b)
    return Z(a) + Z(b) if not (is_c(b)) else a + b

def sub(a, b):
    if is_c(a) and is_c(b):
        return a - b
    if is_c(b):
        return add(a, -b)
    if not is_c(a) and a.eq(b):
        return 0
    r = Z(a) - b
    if not is_c(a):
        s = z3.simplify(r)
        if z3.is_int_value(s):
            return s.as_long()
        if s.num_args() <= 2 and len(str(s)) < 200:
            return s
    return r

def mul(a, b):
    if is_c(a) and is_c(b):
        return a * b
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if b == 0:
            return 0
        if b == 1:
            return a
    return Z(a) * Z(b)

class Engine:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.opts = opts or {}
        self.cnt = {}
        self.defs = {}           # symbol name -> list of facts (z3) about it
        self.divs = {}           # (ida, idb) -> (q, r, a, b)
        self.divlist = []
        self.keep = []
        self.lazy_objs = {}
        self.objnames = {}
        self.next_obj = 1
        self.globobj = {}
        self.obls = []
        self.covers = {}
        self.suppress = 0
        self.bounded_depth = 0
        self.contracts = {}      # real fn symbol -> contract fn symbol
        self.contract_used = set()
        self.fn_real = set()     # functions whose real body was executed
        self.model_used = set()
        self.mode = []           # stack: 'proof' | 'call'
        self.target = None
        self.inputs = []         # ordered list of harness inputs (name, term)
        self.loopinfo = {}
        self.t_end = None
        self.scale = 1           # of the limits of the solvers
        self.stat = dict(paths=0, feas=0, feas_t=0.0, throws=0)
        self.validcache = {}
        self.loop_seed = {}
        self.join_hints = []
        self.solver_decided = set()
        self.zext_src = {}
        self.cur_entry = None
        self.loop_hints = []     # (regex, idx, fnname)
        self.unroll_hints = []
        self.skip_fn = None
        self.bounded_notes = []
        self.intervals = {}
        self.base_syms = {}
        self.callstack = []
        self.frames = [{}]
        self.loop_log = []
        self.maps = {}
        self.demangle = {}
        self.max_paths = 20000
        self.binding_names = []
        self.forall_slots = {}

    # ---------- symbols ----------
    def uniq(self, name):
        n = self.cnt.get(name, 0)
        self.cnt[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)
    def fresh_int(self, name, bits=None, lo=None, hi=None):
        nm = self.uniq(name)
        s = z3.Int(nm)
        if bits is not None:
            lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        f = []
        if lo is not None:
            f.append(s >= lo)
        if hi is not None:
            f.append(s <= hi)
        self.defs[nm] = f
        self.intervals[s.get_id()] = (lo, hi)
        self.keep.append(s)
        return s
    def fresh_bool(self, name):
        nm = self.uniq(name)
        s = z3.Bool(nm)
        self.keep.append(s)
        return s
    def fresh_fp(self, name):
        s = z3.Const(self.uniq(name), FPS)
        self.keep.append(s)
        return s
    def new_obj_id(self, name):
        i = self.next_obj
        self.next_obj += 1
        self.objnames[i] = name
        return i

    # ---------- interval approximation ----------
    def iv(self, t):
        if is_c(t):
            return (t, t)
        k = t.get_id()
        r = self.intervals.get(k)
        if r is not None:
            return r
        r = (None, None)
        if z3.is_int_value(t):
            v = t.as_long()
            r = (v, v)
        elif z3.is_add(t):
            lo = hi = 0
            for c in t.children():
                a, b = self.iv(c)
                lo = None if lo is None or a is None else lo + a
                hi = None if hi is None or b is None else hi + b
            r = (lo, hi)
        elif z3.is_sub(t) and t.num_args() == 2:
            a, b = self.iv(t.arg(0))
            c, d = self.iv(t.arg(1))
            r = (None if a is None or d is None else a - d, None if b is None or c is None else b - c)
        elif z3.is_mul(t) and t.num_args() == 2:
            a, b = self.iv(t.arg(0))
            c, d = self.iv(t.arg(1))
            if None not in (a, b, c, d):
                ps = [a * c, a * d, b * c, b * d]
                r = (min(ps), max(ps))
            elif a is not None and c is not None and a >= 0 and c >= 0:
                r = (a * c, None)
        elif z3.is_app_of(t, z3.Z3_OP_ITE):
            a, b = self.iv(t.arg(1))
            c, d = self.iv(t.arg(2))
            r = (None if a is None or c is None else min(a, c), None if b is None or d is None else max(b, d))
        elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
            a, b = self.iv(t.arg(0))
            r = (None if b is None else -b, None if a is None else -a)
        self.intervals[k] = r
        self.keep.append(t)
        return r

    # ---------- solver access during exploration ----------
    def syms(self, t, acc):
        seen = self._symcache
        k = t.get_id()
        r = seen.get(k)
        if r is None:
            r = set()
            st = [t]
            vis = set()
            while st:
                x = st.pop()
                i = x.get_id()
                if i in vis:
                    continue
                vis.add(i)
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r.add(x.decl().name())
                else:
                    st.extend(x.children())
            r = frozenset(r)
            seen[k] = r
            self.keep.append(t)
        acc |= r
        return acc
    _symcache = {}
    _growcache = {}
    models = Models()
    abs_models = Models()

    def close_defs(self, forms):
        """facts defining all symbols occurring in forms (transitively)"""
        todo = set()
        for f in forms:
            self.syms(f, todo)
        done = set()
        out = []
        seen = set()
        while todo:
            s = todo.pop()
            if s in done:
                continue
            done.add(s)
            for f in self.defs.get(s, ()):
                if f.get_id() in seen:
                    continue
                seen.add(f.get_id())
                out.append(f)
                todo |= self.syms(f, set()) - done
        return out

    def relevant(self, pc, goal):
        """cone of influence of goal in pc"""
        S = self.syms(goal, set())
        # add def-dependencies
        cache = self._growcache
        def grow(S):
            out = set()
            for x in S:
                d = self.defs.get(x)
                if d is None:
                    out.add(x)
                    continue
                r = cache.get(x)
                if r is None or r[0] != len(d):
                    todo = {x}
                    done = set()
                    while todo:
                        s = todo.pop()
                        if s in done:
                            continue
                        done.add(s)
                        for f in self.defs.get(s, ()):
                            todo |= self.syms(f, set()) - done
                    r = cache[x] = (len(d), done)
                out |= r[1]
            return out
        S = grow(S)
        rest = [(p, self.syms(p, set())) for p in pc]
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for p, ps in rest:
                if ps & S or not ps:
                    out.append(p)
                    S |= grow(ps)
                    ch = True
                else:
                    nr.append((p, ps))
            rest = nr
        return out

    def nonlinear(self, t):
        k = ('nl', t.get_id())
        r = self.validcache.get(k)
        if r is None:
            r = False
            if z3.is_mul(t):
                r = sum(1 for c in t.children() if not z3.is_int_value(c)) > 1
            r = r or any(self.nonlinear(c) for c in t.children())
            self.validcache[k] = r
            self.keep.append(t)
        return r

    def check(self, forms, timeout=1000):
        t = time.time()
        allf = list(forms) + self.close_defs(forms)
        nl = any(self.nonlinear(f) for f in allf)
        r = z3.unknown
        try:
            if nl:
                # linear abstraction first: cheap, and enough for most infeasible branches
                from solve import feas_abstract
                if not hasattr(self, '_fab'):
                    self._fab = None
                r = feas_abstract(self, allf, 400, len(forms) - 1)
                timeout = min(timeout, NLT)
            if r != z3.unsat and self.models.sat(allf):
                r = z3.sat
            elif r != z3.unsat:
                s = z3.Solver()
                # the resource limit decides, not the clock
                s.set('timeout', timeout * 6 * self.scale)
                s.set('rlimit', timeout * RLIMIT * self.scale)
                fast_add(s, allf)
                r = s.check()
                if r == z3.sat:
                    self.models.add(s)
        except z3.Z3Exception:
            r = z3.unknown
        dt = time.time() - t
        self.stat['feas'] += 1
        self.stat['feas_t'] += dt
        return r

    def valid(self, st, goal, timeout=400):
        if isinstance(goal, bool):
            return goal
        rel = self.relevant(st.pc, goal)
        key = (goal.get_id(), frozenset(p.get_id() for p in rel))
        r = self.validcache.get(key)
        if r is None:
            r = self.check(rel + [z3.Not(goal)], timeout) == z3.unsat
            self.validcache[key] = r
            self.keep.append(goal)
        return r

    def feasible(self, st, cond, timeout=400):
        if isinstance(cond, bool):
            return cond
        return not self.valid(st, bnot(cond), timeout)

    def assume(self, st, f):
        if isinstance(f, bool):
            if not f:
                raise PathEnd('false assumption')
            return
        # split conjunctions for relevance filtering
        if z3.is_and(f):
            for c in f.children():
                self.assume(st, c)
            return
        if z3.is_not(f) and z3.is_or(f.arg(0)):
            for c in f.arg(0).children():
                self.assume(st, bnot(c))
            return
        st.pc.append(f)
        self.keep.append(f)

    def oblige(self, st, name, goal, loc, kind):
        if isinstance(goal, bool) and goal:
            if kind not in ('overflow', 'bounds'):
                self.trivial = getattr(self, 'trivial', 0) + (0 if self.suppress else 1)
                if not self.suppress:
                    self.obls.append(Obligation(name, loc, [], z3.BoolVal(True), kind, self.bounded_depth > 0))
            return
        if not self.suppress:
            self.obls.append(Obligation(name, loc, list(st.pc), B(goal), kind, self.bounded_depth > 0))
        if isinstance(goal, bool):
            raise PathEnd('obligation false')
        self.assume(st, goal)

    # ---------- locations ----------
    def where(self, ins):
        l = self.mod.loc(ins.dbg) if ins is not None else None
        if not l:
            return self.callstack[-1] if self.callstack else '?'
        return '%s:%d' % (re.sub(r'^.*/(include/dlaf|src|harness|include)/', r'\1/', l[0] or '?'), l[1])

    def joins(self, fn):
        if self.join_hints and not hasattr(fn, '_joined'):
            nm = self.demangle.get(fn.name, fn.name)
            fn._joined = any(re.search(rx, nm) for rx in self.join_hints)
        return getattr(fn, '_joined', False) or self.is_spec(fn)

    def is_spec(self, fn):
        r = getattr(fn, '_spec', None)
        if r is None:
            r = False
            if fn.subprogram:
                d = self.mod.md.get(fn.subprogram, '')
                m = re.search(r'file: (!\d+)', d)
                if m:
                    f = re.search(r'filename: "([^"]*)"', self.mod.md.get(m.group(1), ''))
                    dr = re.search(r'directory: "([^"]*)"', self.mod.md.get(m.group(1), ''))
                    p = f.group(1) if f else ''
                    p = os.path.normpath(os.path.join(dr.group(1) if dr else '', p))
                    r = p.startswith(SPECROOT + '/')
            fn._spec = r
        return r

    # ---------- values ----------
    def const(self, ty, v, st, env):
        k = v[0]
        if k == 'l':
            try:
                return env[v[1]]
            except KeyError:
                raise Unsupported('undefined local ' + v[1])
        rt = self.mod.rtype(ty)
        if k == 'c':
            if rt == I1:
                return bool(v[1])
            n = rt[1]
            x = v[1] & ((1 << n) - 1)
            if x >= 1 << (n - 1):
                x -= 1 << n
            return x
        if k == 'null':
            return NULL
        if k == 'g':
            nm = v[1]
            if nm in self.mod.funcs or nm in self.mod.aliases:
                return Fn(self.mod.resolve_fn(nm))
            return self.global_ptr(nm, st)
        if k == 'undef':
            if rt[0] in ('struct', 'arr', 'vec'):
                return self.undef_agg(rt)
            return UNDEF
        if k == 'zero':
            return self.zero_val(rt)
        if k == 'fp':
            return z3.Const('fp:' + v[1], FPS)
        if k == 'agg':
            return [self.const(t, x, st, env) for t, x in v[1]]
        if k == 'cstr':
            return ('bytes', v[1])
        if k == 'gep':
            return self.gep(v[1], [(t, self.const(t, x, st, env)) for t, x in v[2]], st)
        if k == 'cast':
            return self.cast(st, v[1], v[2], self.const(v[2], v[3], st, env), v[4], None, False)
        if k == 'cbin':
            (t, a), (_, b) = v[2]
            return self.binop(st, v[1], t, self.const(t, a, st, env), self.const(t, b, st, env), frozenset(), None, True)
        if k == 'cicmp':
            (t, a), (_, b) = v[2]
            return self.icmp(st, v[1], t, self.const(t, a, st, env), self.const(t, b, st, env), None)
        if k == 'splat':
            return [self.const(v[1][0], v[1][1], st, env)] * rt[1]
        raise Unsupported('const %s' % (v,))

    def undef_agg(self, rt):
        if rt[0] == 'struct':
            return [self.undef_agg(self.mod.rtype(t)) if self.mod.rtype(t)[0] in ('struct', 'arr') else UNDEF for t in rt[1]]
        return [UNDEF] * rt[1]

    def zero_val(self, rt):
        rt = self.mod.rtype(rt)
        if rt == I1:
            return False
        if rt[0] == 'i':
            return 0
        if rt[0] == 'ptr':
            return NULL
        if rt[0] == 'f':
            return z3.Const('fp:0.000000e+00', FPS)
        if rt[0] == 'struct':
            return [self.zero_val(t) for t in rt[1]]
        if rt[0] in ('arr', 'vec'):
            return [self.zero_val(rt[2])] * rt[1]
        raise Unsupported('zero %s' % (rt,))

    def global_ptr(self, nm, st):
        oid = self.globobj.get(nm)
        if oid is None:
            oid = self.new_obj_id('global:' + nm)
            self.globobj[nm] = oid
        if oid not in st.mem:
            gi = self.mod.global_info(nm)
            o = Obj(oid, self.mod.size(gi['type']) if self.mod.rtype(gi['type']) else None, nm, 'global')
            st.mem[oid] = o
            if nm == '@__libc_single_threaded':
                o.zero = True  # libstdc++ takes its multithreaded path
            elif gi['init'] is not None:
                if gi['init'][0] == 'zero':
                    o.zero = True
                else:
                    self.store_const(o, 0, gi['type'], gi['init'], st)
            else:
                o.backing.append((0, None, Provider('glob' + nm, self), 0))
        return Ptr(oid, 0)

    def store_const(self, o, off, ty, v, st):
        rt = self.mod.rtype(ty)
        if v[0] == 'zero':
            if rt[0] == 'struct':
                for t, fo in zip(rt[1], self.mod.offsets(rt)):
                    self.store_const(o, off + fo, t, ('zero',), st)
            elif rt[0] in ('arr', 'vec'):
                if rt[1] > 4096:
                    raise Unsupported('big zero array')
                es = self.mod.size(rt[2])
                for i in range(rt[1]):
                    self.store_const(o, off + i * es, rt[2], ('zero',), st)
            else:
                o.cells[off] = (self.mod.size(rt), rt, self.zero_val(rt))
        elif v[0] == 'undef':
            pass
        elif v[0] == 'cstr':
            raw = v[1][2:-1]
            bs = []
            i = 0
            while i < len(raw):
                if raw[i] == '\\':
                    bs.append(int(raw[i + 1:i + 3], 16))
                    i += 3
                else:
                    bs.append(ord(raw[i]))
                    i += 1
            for i, b in enumerate(bs):
                o.cells[off + i] = (1, ('i', 8), b if b < 128 else b - 256)
        elif v[0] == 'agg':
            if rt[0] == 'struct':
                for (t, x), fo in zip(v[1], self.mod.offsets(rt)):
                    self.store_const(o, off + fo, t, x, st)
            else:
                es = self.mod.size(rt[2])
                for i, (t, x) in enumerate(v[1]):
                    self.store_const(o, off + i * es, t, x, st)
        else:
            o.cells[off] = (self.mod.size(rt), rt, self.const(rt, v, st, {}))

    def cstring(self, p, st):
        if isinstance(p, Ptr) and p.obj and is_c(p.off):
            o = self.getobj(st, p.obj)
            out = []
            i = p.off
            while i in o.cells and is_c(o.cells[i][2]) and o.cells[i][2] != 0:
                out.append(chr(o.cells[i][2] & 255))
                i += 1
            return ''.join(out)
        return '?'

    # ---------- memory ----------
    def getobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            if oid in self.lazy_objs:
                o = Obj(oid, None, self.lazy_objs[oid], 'lazy')
                o.backing.append((0, None, Provider(self.lazy_objs[oid], self), 0))
                st.mem[oid] = o
            else:
                raise Unsupported('no object %s (%s)' % (oid, self.objnames.get(oid)))
        return o

    def access(self, st, p, n, ins, what):
        if isinstance(p, Fn):
            raise Unsupported('access through function pointer')
        if not isinstance(p, Ptr):
            raise Unsupported('access via non-pointer %s at %s in %s' % (type(p), ins, ' < '.join(x.split('(')[0][-60:] for x in reversed(getattr(self, 'callstack', [])[-6:]))))
        if p.obj == 0:
            self.oblige(st, 'null dereference (%s)' % what, False, self.where(ins), 'bounds')
        o = self.getobj(st, p.obj)
        if not o.alive:
            self.oblige(st, 'use after free (%s)' % what, False, self.where(ins), 'bounds')
        if o.size is not None:
            if is_c(p.off) and is_c(o.size):
                if not (0 <= p.off and p.off + n <= o.size):
                    self.oblige(st, 'out of bounds %s of %s' % (what, o.name), False, self.where(ins), 'bounds')
            else:
                g = z3.And(Z(p.off) >= 0, Z(p.off) + n <= Z(o.size))
                self.oblige(st, 'in-bounds %s of %s' % (what, o.name), g, self.where(ins), 'bounds')
        return o

    def load(self, st, p, ty, ins):
        rt = self.mod.rtype(ty)
        if rt[0] in ('struct', 'arr', 'vec'):
            if rt[0] == 'struct':
                return [self.load(st, Ptr(p.obj, add(p.off, o)), t, ins) for t, o in zip(rt[1], self.mod.offsets(rt))]
            es = self.mod.size(rt[2])
            return [self.load(st, Ptr(p.obj, add(p.off, i * es)), rt[2], ins) for i in range(rt[1])]
        n = self.mod.size(rt)
        o = self.access(st, p, n, ins, 'load')
        if o.sym is not None:
            return self.sym_load(st, o, p.off, n, rt)
        if not is_c(p.off):
            return self.load_symoff(st, o, p.off, n, rt, ins)
        return self.load_cell(st, o, p.off, n, rt, ins)

    def load_cell(self, st, o, off, n, rt, ins):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.retype(c[2], c[1], rt, st)
        # overlapping cells?
        ov = sorted(x for x in o.cells if x < off + n and off < x + o.cells[x][0])
        if not ov:
            for lo, hi, prov, sh in reversed(o.backing):
                if lo <= off and (hi is None or off + n <= hi):
                    v = prov.get(off - sh, rt)
                    if isinstance(v, Ptr) and v.obj in self.lazy_objs:
                        self.getobj(st, v.obj)
                    o2 = o.clone()
                    o2.cells[off] = (n, rt, v)
                    st.mem[o.id] = o2
                    return v
            if o.zero:
                return self.zero_val(rt)
            return UNDEF
        # compose from smaller cells
        parts = []
        cur = off
        while cur < off + n:
            c = o.cells.get(cur)
            if c is None:
                # maybe inside larger cell
                for x in ov:
                    if x <= cur and cur + 1 <= x + o.cells[x][0] and x != cur:
                        v = self.split_cell(o.cells[x], cur - x, off + n - cur if off + n < x + o.cells[x][0] else x + o.cells[x][0] - cur)
                        sz = v[0] // 8
                        parts.append(v)
                        cur += sz
                        break
                else:
                    # padding / uninitialised bytes up to next cell
                    nx = min([x for x in ov if x > cur] + [off + n])
                    back = None
                    for lo, hi, prov, sh in reversed(o.backing):
                        if lo <= cur and (hi is None or cur < hi):
                            back = (prov, sh)
                            break
                    w = nx - cur
                    if back and w in (1, 2, 4, 8):
                        parts.append((8 * w, back[0].get(cur - back[1], ('i', 8 * w))))
                    else:
                        parts.append((8 * w, 0 if o.zero else UNDEF))
                    cur = nx
                continue
            if cur + c[0] > off + n:
                v = self.split_cell(c, 0, off + n - cur)
                parts.append(v)
                cur = off + n
                continue
            parts.append((8 * c[0], c[2]))
            cur += c[0]
        if len(parts) == 1 and parts[0][0] == 8 * n:
            return self.retype(parts[0][1], ('i', 8 * n), rt, st)
        if all(is_c(v) for _, v in parts):
            x = 0
            sh = 0
            for b, v in parts:
                x |= (v & ((1 << b) - 1)) << sh
                sh += b
            if x >= 1 << (8 * n - 1):
                x -= 1 << (8 * n)
            return x
        if rt[0] != 'i':
            raise Unsupported('mixed load %s %s at %s' % (rt, parts, ins))
        return Packed(parts)

    def split_cell(self, c, sub_off, nb):
        n, ty, v = c
        if isinstance(v, Packed):
            bo = 0
            for b, x in v.parts:
                if bo == 8 * sub_off and b <= 8 * nb:
                    return (b, x)
                bo += b
            raise Unsupported('split packed')
        if is_c(v):
            x = (v >> (8 * sub_off)) & ((1 << (8 * nb)) - 1)
            if x >= 1 << (8 * nb - 1):
                x -= 1 << (8 * nb)
            return (8 * nb, x)
        if v is UNDEF:
            return (8 * nb, UNDEF)
        if isinstance(v, z3.ArithRef) and sub_off == 0:
            return (8 * nb, self.wrap(None, v, 8 * nb))
        if isinstance(v, z3.ArithRef):
            # bytes [sub_off, ...) of an integer
            d = 1 << (8 * sub_off)
            return (8 * nb, self.wrap(None, z3.IntVal(0) + v / d, 8 * nb))
        if isinstance(v, Ptr) and v.obj == 0 and is_c(v.off) and v.off == 0:
            return (8 * nb, 0)
        raise Unsupported('split of %s in %s' % (v, ' < '.join(x.split('(')[0][-60:] for x in reversed(self.callstack[-6:]))))

    def retype(self, v, frm, to, st):
        if v is UNDEF or frm == to:
            return v
        if frm[0] == to[0] and frm[0] in ('ptr', 'f'):
            return v
        if to[0] == 'i' and frm[0] == 'i':
            return v
        if frm[0] == 'ptr' and to == ('i', 64):
            return self.ptr2int(v)
        if frm == ('i', 64) and to[0] == 'ptr':
            return self.int2ptr(v)
        if frm[0] == 'i' and is_c(v) and v == 0:
            return self.zero_val(to)
        # float <-> int punning: opaque
        if to[0] == 'f' and is_val(v):
            f = z3.Function('i2fbits', z3.IntSort(), FPS)
            return f(Z(v))
        if frm[0] == 'f' and to[0] == 'i':
            f = z3.Function('fbits%d' % to[1], FPS, z3.IntSort())
            return f(v)
        raise Unsupported('retype %s -> %s (%s)' % (frm, to, v))

    def load_symoff(self, st, o, off, n, rt, ins):
        if o.backing and not o.cells and o.sym is None and rt[0] in ('i', 'f') and rt != I1:
            self.make_sym(st, o, n, rt)
            return self.sym_load(st, st.mem[o.id], off, n, rt)
        if o.sym is None and o.kind in ('lazy', 'heap') and (o.size is None or not is_c(o.size) or o.size > 128):
            self.make_sym(st, o, n, rt)
            return self.sym_load(st, st.mem[o.id], off, n, rt)
        if o.size is None or not is_c(o.size) or o.size > 512:
            self.make_sym(st, o, n, rt)
            return self.sym_load(st, st.mem[o.id], off, n, rt)
        # ite chain over aligned slots
        res = None
        for i in range(0, o.size - n + 1, n):
            v = self.load_cell(st, st.mem[o.id], i, n, rt, ins)
            if v is UNDEF:
                continue
            if isinstance(v, (Ptr, Packed, Fn)):
                raise Unsupported('symbolic offset load of pointer')
            if res is None:
                res = v
            else:
                res = self.ite(Z(off) == i, v, res, rt)
        if res is None:
            return UNDEF
        return res

    def sort_of(self, rt):
        if rt[0] == 'i':
            return z3.IntSort()
        if rt[0] == 'f':
            return FPS
        raise Unsupported('sort %s' % (rt,))

    def make_sym(self, st, o, n, rt):
        base = z3.Function(self.uniq('mem:' + str(o.name)), z3.IntSort(), self.sort_of(rt))
        o2 = o.clone()
        log = ('zero', None) if o.zero else None
        for off, (s, t, v) in sorted(o.cells.items()):
            if s != n or t[0] != rt[0]:
                raise Unsupported('symbolic access to heterogeneous object %s' % o.name)
            log = ('w', log, off, v)
        o2.cells = {}
        o2.sym = SymMem(base, n, rt, log)
        st.mem[o.id] = o2
        return o2

    def sym_load(self, st, o, off, n, rt):
        sm = o.sym
        if sm.esize != n or sm.ty[0] != rt[0]:
            raise Unsupported('sym access size mismatch on %s (%s vs %s)' % (o.name, sm.ty, rt))
        return self.sym_read(st, o, sm, sm.log, off, rt)

    def sym_read(self, st, o, sm, log, off, rt):
        # collect chain
        conds = []
        v = None
        while True:
            if log is None:
                v = sm.base(Z(off))
                key = ('rng', v.get_id())
                if rt[0] == 'i' and not (key in self.cnt):
                    self.cnt[key] = 1
                    self.keep.append(v)
                if rt[0] == 'i':
                    b = rt[1]
                    self.assume(st, z3.And(v >= -(1 << (b - 1)), v <= (1 << (b - 1)) - 1))
                break
            if log[0] == 'zero':
                v = self.zero_val(rt)
                break
            if log[0] == 'w':
                _, nxt, woff, wv = log
                if is_c(woff) and is_c(off):
                    if woff == off:
                        v = wv
                        break
                    log = nxt
                    continue
                if not is_c(woff) and not is_c(off) and woff.eq(off):
                    v = wv
                    break
                c = z3.simplify(Z(woff) == Z(off))
                if z3.is_true(c):
                    v = wv
                    break
                if z3.is_false(c):
                    log = nxt
                    continue
                if self.valid(st, c, 200):
                    v = wv
                    break
                if self.valid(st, bnot(c), 200):
                    log = nxt
                    continue
                conds.append((c, wv))
                log = nxt
                continue
            if log[0] == 'copy':
                # ('copy', nxt, dlo, len, srcobj, src_sm, src_lo)
                _, nxt, dlo, ln, so, ssm, slo = log
                c = z3.And(Z(dlo) <= Z(off), Z(off) < Z(dlo) + Z(ln))
                inside = None
                if self.valid(st, c, 300):
                    inside = True
                elif self.valid(st, bnot(c), 300):
                    inside = False
                if inside is False:
                    log = nxt
                    continue
                sv = self.sym_read(st, so, ssm, ssm.log, sub(add(off, slo), dlo), rt)
                if inside:
                    v = sv
                    break
                conds.append((c, sv))
                log = nxt
                continue
            if log[0] in ('set', 'hvc'):
                _, nxt, dlo, ln = log[:4]
                c = z3.And(Z(dlo) <= Z(off), Z(off) < Z(dlo) + Z(ln))
                if log[0] == 'set':
                    x = self.zero_val(rt)
                else:
                    x = log[4](Z(off))
                    if rt[0] == 'i':
                        self.assume(st, z3.And(x >= -(1 << (rt[1] - 1)), x <= (1 << (rt[1] - 1)) - 1))
                if self.valid(st, c, 300):
                    v = x
                    break
                if not self.valid(st, bnot(c), 300):
                    conds.append((c, x))
                log = nxt
                continue
            if log[0] == 'havoc':
                # ('havoc', fun, facts) : contents = fun(off), with facts instantiated
                v = log[1](Z(off))
                if rt[0] == 'i':
                    b = rt[1]
                    self.assume(st, z3.And(v >= -(1 << (b - 1)), v <= (1 << (b - 1)) - 1))
                for fact in log[2]:
                    f = fact(st, off, v)
                    if f is not None and not (isinstance(f, bool) and f):
                        self.assume(st, f)
                break
            raise Unsupported('log ' + str(log[0]))
        for c, wv in reversed(conds):
            v = self.ite(c, wv, v, rt)
        return v

    def store(self, st, p, ty, v, ins):
        rt = self.mod.rtype(ty)
        if rt[0] in ('struct', 'arr', 'vec'):
            if rt[0] == 'struct':
                for t, o, x in zip(rt[1], self.mod.offsets(rt), v):
                    self.store(st, Ptr(p.obj, add(p.off, o)), t, x, ins)
            else:
                es = self.mod.size(rt[2])
                for i in range(rt[1]):
                    self.store(st, Ptr(p.obj, add(p.off, i * es)), rt[2], v[i], ins)
            return
        n = self.mod.size(rt)
        o = self.access(st, p, n, ins, 'store')
        if o.kind == 'global' and self.mod.globals.get(o.name) and self.mod.globals[o.name][1] and self.mod.globals[o.name][1]['const']:
            raise Unsupported('store to constant')
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            if rt != I1:
                v = self.b2i(v)
        if o.sym is not None or (not is_c(p.off) and (o.size is None or not is_c(o.size) or o.size > 512 or (o.kind in ('heap', 'lazy') and o.size > 128))):
            if o.sym is None:
                o = self.make_sym(st, o, n, rt)
            if o.sym.esize != n:
                raise Unsupported('sym store size mismatch')
            o2 = o.clone()
            o2.sym = SymMem(o.sym.base, n, o.sym.ty, ('w', o.sym.log, p.off, v))
            st.mem[o.id] = o2
            return
        o2 = o.clone()
        if not is_c(p.off):
            for i in range(0, o.size - n + 1, n):
                old = self.load_cell(st, o2, i, n, rt, ins)
                o2 = st.mem[o.id].clone() if st.mem[o.id] is not o else o2
                if old is UNDEF:
                    old = self.fresh_of(rt, 'undef')
                o2.cells[i] = (n, rt, self.ite(Z(p.off) == i, v, old, rt))
            st.mem[o.id] = o2
            return
        off = p.off
        self.clear(o2, off, n)
        if isinstance(v, Packed):
            cur = off
            for b, x in v.parts:
                if x is not UNDEF:
                    t = ('ptr',) if isinstance(x, (Ptr, Fn)) else ('i', b)
                    o2.cells[cur] = (b // 8, t, x)
                cur += b // 8
        elif v is not UNDEF:
            o2.cells[off] = (n, rt, v)
        st.mem[o.id] = o2

    def clear(self, o2, off, n):
        """remove bytes [off,off+n) from cells (splitting as needed)"""
        c = o2.cells.get(off)
        if c is not None and c[0] == n:
            del o2.cells[off]
        else:
            for x in [x for x in o2.cells if x < off + n and off < x + o2.cells[x][0]]:
                c = o2.cells.pop(x)
                if x < off:
                    b, v = self.split_cell(c, 0, off - x)
                    o2.cells[x] = (b // 8, ('i', b), v)
                e = x + c[0]
                if e > off + n:
                    b, v = self.split_cell(c, off + n - x, e - off - n)
                    o2.cells[off + n] = (b // 8, ('i', b), v)
        if o2.backing:
            nb = []
            for lo, hi, prov, sh in o2.backing:
                if (hi is not None and hi <= off) or lo >= off + n:
                    nb.append((lo, hi, prov, sh))
                    continue
                if lo < off:
                    nb.append((lo, off, prov, sh))
                if hi is None or hi > off + n:
                    nb.append((off + n, hi, prov, sh))
            o2.backing = nb

    def memcpy(self, st, d, s, n, ins):
        if is_c(n) and n == 0:
            return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            raise Unsupported('memcpy non ptr')
        if not is_c(n):
            if self.valid(st, Z(n) == 0, 200):
                return
        so = self.access(st, s, n if is_c(n) else Z(n), ins, 'memcpy source')
        do = self.access(st, d, n if is_c(n) else Z(n), ins, 'memcpy destination')
        if so.sym is not None or do.sym is not None or not is_c(n) or not is_c(s.off) or not is_c(d.off):
            if so.sym is None:
                if do.sym is not None:
                    so = self.make_sym(st, so, do.sym.esize, do.sym.ty)
                else:
                    ty = None
                    for c in so.cells.values():
                        ty = c[1]
                        break
                    ty = ty or ('i', 64)
                    so = self.make_sym(st, so, self.mod.size(ty), ty)
            if do.sym is None:
                do = self.make_sym(st, st.mem[do.id], so.sym.esize, so.sym.ty)
            so = st.mem[so.id]
            d2 = do.clone()
            d2.sym = SymMem(do.sym.base, do.sym.esize, do.sym.ty, ('copy', do.sym.log, d.off, n, so, so.sym, s.off))
            st.mem[do.id] = d2
            return
        cells = []
        for x, c in so.cells.items():
            if s.off <= x and x + c[0] <= s.off + n:
                cells.append((x, c))
            elif x < s.off + n and s.off < x + c[0]:
                lo = max(x, s.off)
                hi = min(x + c[0], s.off + n)
                b, v = self.split_cell(c, lo - x, hi - lo)
                cells.append((lo, (b // 8, ('i', b), v)))
        backs = []
        covered_zero = so.zero
        for lo, hi, prov, sh in so.backing:
            l2 = max(lo, s.off)
            h2 = s.off + n if hi is None else min(hi, s.off + n)
            if l2 < h2:
                backs.append((l2 + d.off - s.off, h2 + d.off - s.off, prov, sh + d.off - s.off))
        d2 = st.mem[d.obj].clone()
        self.clear(d2, d.off, n)
        if covered_zero:
            occ = set()
            for x, c in cells:
                occ.update(range(x, x + c[0]))
            i = s.off
            while i < s.off + n:
                if i not in occ:
                    w = 8 if i % 8 == 0 and all((i + t) not in occ and i + t < s.off + n for t in range(8)) else 1
                    cells.append((i, (w, ('i', 8 * w), 0)))
                    i += w
                else:
                    i += 1
        for x, c in cells:
            d2.cells[x + d.off - s.off] = c
        d2.backing = backs + d2.backing
        st.mem[d.obj] = d2

    def memset(self, st, d, v, n, ins):
        if is_c(n) and n == 0:
            return
        if not is_c(v):
            raise Unsupported('memset of symbolic value')
        if not is_c(n) and self.valid(st, Z(n) == 0, 200):
            return
        o = self.access(st, d, n if is_c(n) else Z(n), ins, 'memset')
        if o.sym is not None or not (is_c(n) and is_c(d.off)):
            if v != 0:
                raise Unsupported('symbolic memset of a non zero value')
            o2 = o.clone()
            if o.sym is None and o.size is not None and self.valid(st, band(Z(d.off) == 0, Z(n) == Z(o.size)), 300):
                o2.cells = {}
                o2.backing = []
                o2.zero = True
                st.mem[o.id] = o2
                return
            if o.sym is None:
                ty = next((c[1] for c in o.cells.values()), ('i', 64))
                o = self.make_sym(st, o, self.mod.size(ty), ty)
                o2 = o.clone()
            o2.sym = SymMem(o.sym.base, o.sym.esize, o.sym.ty, ('set', o.sym.log, d.off, n))
            st.mem[o.id] = o2
            return
        o2 = o.clone()
        self.clear(o2, d.off, n)
        i = 0
        while i < n:
            w = 8 if n - i >= 8 and (d.off + i) % 8 == 0 else (4 if n - i >= 4 and (d.off + i) % 4 == 0 else 1)
            x = int.from_bytes(bytes([v & 255]) * w, 'little', signed=True)
            o2.cells[d.off + i] = (w, ('i', 8 * w), x)
            i += w
        st.mem[o.id] = o2

    def fresh_of(self, rt, name):
        rt = self.mod.rtype(rt)
        if rt == I1:
            return self.fresh_bool(name)
        if rt[0] == 'i':
            return self.fresh_int(name, rt[1])
        if rt[0] == 'f':
            return self.fresh_fp(name)
        if rt[0] == 'ptr':
            oid = self.new_obj_id('lazy:' + name)
            self.lazy_objs[oid] = self.uniq(name)
            return Ptr(oid, 0)
        if rt[0] == 'struct':
            return [self.fresh_of(t, '%s.%d' % (name, i)) for i, t in enumerate(rt[1])]
        if rt[0] in ('arr', 'vec'):
            return [self.fresh_of(rt[2], '%s.%d' % (name, i)) for i in range(rt[1])]
        raise Unsupported('fresh %s' % (rt,))

    # ---------- arithmetic ----------
    def b2i(self, b):
        if isinstance(b, bool):
            return 1 if b else 0
        return z3.If(b, z3.IntVal(1), z3.IntVal(0))

    def ite(self, c, a, b, rt=None):
        if isinstance(c, bool):
            return a if c else b
        if a is b:
            return a
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            if isinstance(a, bool) and isinstance(b, bool):
                if a == b:
                    return a
                return c if a else bnot(c)
            if isinstance(a, bool):
                return bor(c, b) if a else band(bnot(c), b)
            if isinstance(b, bool):
                return bor(bnot(c), a) if b else band(c, a)
            return z3.If(c, a, b)
        if is_val(a) and is_val(b):
            if is_c(a) and is_c(b) and a == b:
                return a
            if not is_c(a) and not is_c(b) and a.eq(b):
                return a
            return z3.If(c, Z(a), Z(b))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return Ptr(a.obj, self.ite(c, a.off, b.off))
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return z3.If(c, a, b)
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        raise Unsupported('ite of %s / %s' % (a, b))

    def asint(self, v, bits, st):
        """value -> int term in signed canonical range"""
        if isinstance(v, (bool, z3.BoolRef)):
            return self.b2i(v)
        if is_val(v):
            return v
        if isinstance(v, Packed):
            x = 0
            sh = 0
            for i, (b, p) in enumerate(v.parts):
                if p is UNDEF:
                    p = self.fresh_int('undef', b)
                if not is_val(p):
                    raise Unsupported('packed arithmetic')
                last = i == len(v.parts) - 1
                x = add(x, mul(p if last else self.unsigned(st, p, b), 1 << sh))
                sh += b
            return x
        if v is UNDEF:
            return self.fresh_int('undef', bits)
        if isinstance(v, (Ptr, Fn)):
            return self.ptr2int(v)
        raise Unsupported('int of %s' % (v,))

    def unsigned(self, st, x, bits):
        if is_c(x):
            return x & ((1 << bits) - 1)
        lo, hi = self.iv(x)
        if lo is not None and lo >= 0:
            return x
        if st is not None and self.valid(st, x >= 0, 300):
            return x
        if st is not None and self.valid(st, x < 0, 300):
            return x + (1 << bits)
        return z3.If(x < 0, x + (1 << bits), x)

    def inrange(self, r, bits):
        lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        if is_c(r):
            return lo <= r <= hi
        a, b = self.iv(r)
        if a is not None and b is not None and a >= lo and b <= hi:
            return True
        gs = []
        if a is None or a < lo:
            gs.append(r >= lo)
        if b is None or b > hi:
            gs.append(r <= hi)
        return z3.And(gs) if len(gs) > 1 else gs[0]

    def wrap(self, st, r, bits):
        """canonical signed representative of r modulo 2^bits"""
        if is_c(r):
            x = r & ((1 << bits) - 1)
            return x - (1 << bits) if x >= 1 << (bits - 1) else x
        g = self.inrange(r, bits)
        if g is True:
            return r
        if st is not None and self.valid(st, g, 400):
            return r
        k = self.fresh_int('wrapk')
        w = self.fresh_int('wrap', bits)
        self.defs[w.decl().name()].append(r == w + k * (1 << bits))
        return w

    def divmod(self, st, a, b, ins, bits, signed, spec):
        if is_c(a) and is_c(b) and b != 0:
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            return q, a - q * b
        if is_c(b) and b == 1:
            return a, 0
        g = (b != 0) if is_c(b) else (Z(b) != 0)
        self.oblige(st, 'division by zero', g, self.where(ins), 'divzero')
        # cancel exact constant multiples
        if is_c(b) and not is_c(a):
            s = self.cancel(a, b)
            if s is not None:
                return s, 0
        if not is_c(a) and not is_c(b):
            s = self.polydiv(st, a, b)
            if s is not None:
                return s
        key = (Z(a).get_id(), Z(b).get_id(), signed)
        r = self.divs.get(key)
        if r is None:
            n = len(self.divlist)
            q = self.fresh_int('q!%d' % n)
            m = self.fresh_int('r!%d' % n)
            A, Bz = Z(a), Z(b)
            self.keep += [A, Bz]
            alo = self.iv(a)[0]
            blo = self.iv(b)[0]
            f = [z3.Implies(Bz != 0, A == q * Bz + m)]
            f.append(z3.Implies(z3.And(Bz > 0, A >= 0), z3.And(m >= 0, m < Bz, q >= 0, q <= A)))
            if not (alo is not None and alo >= 0):
                f.append(z3.Implies(z3.And(Bz > 0, A <= 0), z3.And(m <= 0, m > -Bz, q <= 0, q >= A)))
            if not (blo is not None and blo >= 0):
                f.append(z3.Implies(z3.And(Bz < 0, A >= 0), z3.And(m >= 0, m < -Bz, q <= 0)))
                f.append(z3.Implies(z3.And(Bz < 0, A <= 0), z3.And(m <= 0, m > Bz, q >= 0)))
            self.defs[q.decl().name()] += f
            self.defs[m.decl().name()] += f
            r = (q, m, A, Bz)
            self.divs[key] = r
            self.divlist.append(r)
            bhi = self.iv(b)[1]
            if alo is not None and alo >= 0:
                self.intervals[q.get_id()] = (0, self.iv(a)[1]) if blo is not None and blo > 0 else (None, None)
                if blo is not None and blo > 0:
                    self.intervals[m.get_id()] = (0, bhi - 1 if bhi is not None else None)
        return r[0], r[1]

    def monomials(self, t):
        """sum-of-monomials form: list of (coef, sorted factor list)"""
        t = z3.simplify(t, som=True, flat=True)
        self.keep.append(t)
        out = []
        for x in (t.children() if z3.is_add(t) else [t]):
            coef, fs = 1, []
            work = [x]
            while work:
                y = work.pop()
                if z3.is_int_value(y):
                    coef *= y.as_long()
                elif z3.is_mul(y):
                    work += y.children()
                elif z3.is_app_of(y, z3.Z3_OP_UMINUS):
                    coef = -coef
                    work.append(y.arg(0))
                elif z3.is_app_of(y, z3.Z3_OP_POWER) and z3.is_int_value(y.arg(1)) and 0 < y.arg(1).as_long() < 5:
                    work += [y.arg(0)] * y.arg(1).as_long()
                elif z3.is_add(y):
                    return None
                else:
                    fs.append(y)
            out.append((coef, fs))
        return out

    def polydiv(self, st, a, b):
        """exact quotient and remainder when a is, as a polynomial, q*b + r with 0 <= r < b and q >= 0"""
        mb = self.monomials(b)
        if not mb or len(mb) != 1 or mb[0][0] <= 0 or not mb[0][1]:
            return None
        cb, fb = mb[0]
        ma = self.monomials(a)
        if not ma:
            return None
        q, r, hit = 0, 0, False
        for c, fs in ma:
            ids = [f.get_id() for f in fs]
            rest, ok = list(fs), c % cb == 0
            if ok:
                for f in fb:
                    for k, g in enumerate(rest):
                        if g.get_id() == f.get_id():
                            del rest[k]
                            break
                    else:
                        ok = False
                        break
            t = c // cb if ok else c
            for f in (rest if ok else fs):
                t = mul(t, f)
            if ok and c != 0:
                hit = True
                q = add(q, t)
            else:
                r = add(r, t)
        Bz, Q, R = Z(b), Z(q), Z(r)
        if not hit:
            # quotient 0, tried only when both are made of products
            if max(len(fb), max(len(fs) for c, fs in ma)) > 1 and self.valid(st, z3.And(Bz > 0, R >= 0, R < Bz), 300):
                return 0, a
            return None
        if is_c(r) and r == 0:
            return q, 0
        if self.valid(st, z3.And(Bz > 0, R >= 0, R < Bz, Q >= 0), 300):
            return q, r
        if self.valid(st, z3.And(Bz > 0, R < 0, R >= -Bz, Q >= 1), 300):
            return add(q, -1), add(r, Bz)
        if self.valid(st, z3.And(Bz > 0, R == Bz, Q >= 0), 300):
            return add(q, 1), 0
        return None

    def known(self, st, c):
        """truth of c when it is literally part of the path condition"""
        if not isinstance(c, z3.ExprRef):
            return c
        neg = c.arg(0) if z3.is_not(c) else None
        k = c.get_id()
        for p in st.pc:
            if p.get_id() == k:
                return True
            if neg is not None and p.get_id() == neg.get_id():
                return False
            if z3.is_not(p) and p.arg(0).get_id() == k:
                return False
        return c

    def cancel(self, a, b):
        """a / b if a is syntactically a multiple of constant b"""
        a = z3.simplify(a)
        terms = a.children() if z3.is_add(a) else [a]
        out = 0
        for t in terms:
            if z3.is_int_value(t):
                v = t.as_long()
                if v % b:
                    return None
                out = add(out, v // b)
            elif z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % b == 0:
                c = t.arg(0).as_long() // b
                rest = t.children()[1:]
                x = rest[0]
                for y in rest[1:]:
                    x = x * y
                out = add(out, mul(x, c))
            else:
                return None
        return out

    def binop(self, st, op, ty, a, b, flags, ins, spec):
        rt = self.mod.rtype(ty)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            if rt[0] == 'vec':
                return [self.fpop(op, x, y) for x, y in zip(a, b)]
            return self.fpop(op, a, b)
        if rt[0] == 'vec':
            return [self.binop(st, op, rt[2], x, y, flags, ins, spec) for x, y in zip(a, b)]
        bits = rt[1]
        if bits == 1:
            if a is UNDEF or b is UNDEF:
                a = self.fresh_bool('undef') if a is UNDEF else a
                b = self.fresh_bool('undef') if b is UNDEF else b
            if op == 'and':
                return band(a, b)
            if op == 'or':
                return bor(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, bool) and isinstance(b, bool):
                    return a != b
                if isinstance(b, bool):
                    return bnot(a) if b else a
                if isinstance(a, bool):
                    return bnot(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported('i1 op ' + op)
        # packed handling
        if isinstance(a, Packed) or isinstance(b, Packed):
            r = self.packed_op(op, bits, a, b)
            if r is not None:
                return r
        if op == 'or' and is_val(a) and is_val(b):
            r = self.or_pack(a, b, bits)
            if r is not None:
                return r
        if op == 'shl' and is_c(b) and not is_c(a) and is_val(a):
            z = self.zext_src.get(a.get_id())
            if z and z[0] == b and bits == 2 * b:
                return Packed([(b, 0), (z[0], z[1])])
        if op == 'lshr' and is_c(b) and isinstance(a, (Ptr,)):
            raise Unsupported('shift of pointer')
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return sub(a.off, b.off)
        # a pointer-as-integer
        a = self.asint(a, bits, st)
        b = self.asint(b, bits, st)
        if op in ('add', 'sub', 'mul'):
            r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b)
            if spec:
                return r
            if 'nsw' in flags:
                g = self.inrange(r, bits)
                if g is not True:
                    self.oblige(st, 'no signed overflow in %s' % op, g, self.where(ins), 'overflow')
                return r
            # unsigned / wrapping arithmetic.  canonical signed representation
            g = self.inrange(r, bits)
            if g is True:
                return r
            return self.wrap(st, r, bits)
        if op in ('sdiv', 'srem'):
            q, m = self.divmod(st, a, b, ins, bits, True, spec)
            if is_c(b):
                if b == -1:
                    self.oblige(st, 'no overflow in division', Z(a) != -(1 << (bits - 1)), self.where(ins), 'overflow')
            elif not (self.iv(b)[0] is not None and self.iv(b)[0] >= 0) and not spec and op == 'sdiv' and not self.valid(st, b > 0, 300):
                self.oblige(st, 'no overflow in division', z3.Or(Z(a) != -(1 << (bits - 1)), Z(b) != -1), self.where(ins), 'overflow')
            return q if op == 'sdiv' else m
        if op in ('udiv', 'urem'):
            ua, ub = self.unsigned(st, a, bits), self.unsigned(st, b, bits)
            q, m = self.divmod(st, ua, ub, ins, bits, False, spec)
            r = q if op == 'udiv' else m
            return self.wrap(st, r, bits) if not is_c(r) else r
        if op == 'shl' and is_c(b):
            r = mul(a, 1 << b)
            if 'nsw' in flags and not spec:
                g = self.inrange(r, bits)
                if g is not True:
                    self.oblige(st, 'no signed overflow in shl', g, self.where(ins), 'overflow')
                return r
            return r if spec else self.wrap(st, r, bits)
        if op == 'lshr' and is_c(b):
            ua = self.unsigned(st, a, bits)
            if is_c(ua):
                return ua >> b
            q, m = self.divmod(st, ua, 1 << b, ins, bits, False, True)
            return q
        if op == 'ashr' and is_c(b):
            if is_c(a):
                return a >> b
            if self.iv(a)[0] is not None and self.iv(a)[0] >= 0 or self.valid(st, a >= 0, 200):
                return self.divmod(st, a, 1 << b, ins, bits, False, True)[0]
            q = self.fresh_int('ashr')
            d = 1 << b
            self.defs[q.decl().name()] += [q * d <= Z(a), Z(a) < q * d + d]
            return q
        if op == 'and':
            if is_c(a) and is_c(b):
                return self.wrap(None, (a & b), bits)
            if is_c(a):
                a, b = b, a
            if is_c(b):
                if b == -1:
                    return a
                if b == 0:
                    return 0
                if b > 0 and (b & (b + 1)) == 0:
                    k = b.bit_length()
                    ua = self.unsigned(st, a, bits)
                    return self.divmod(st, ua, 1 << k, ins, bits, False, True)[1]
                if b < 0 and ((-b) & (-b - 1)) == 0:   # clears low bits
                    d = -b
                    ua = self.unsigned(st, a, bits)
                    q, m = self.divmod(st, ua, d, ins, bits, False, True)
                    return sub(a, m)
        if op in ('and', 'or', 'xor'):
            if is_c(a) and is_c(b):
                r = {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
                return self.wrap(None, r, bits)
            if op == 'or' and is_c(b) and b == 0:
                return a
            if op == 'or' and is_c(a) and a == 0:
                return b
            if op == 'xor' and is_c(b) and b == -1:
                return sub(-1, a)
            if op == 'xor' and is_c(b) and b == 0:
                return a
            # boolean-valued operands
            x, y = self.asbool01(a), self.asbool01(b)
            if x is not None and y is not None:
                if op == 'and':
                    return self.b2i(band(x, y))
                if op == 'or':
                    return self.b2i(bor(x, y))
                return self.b2i(z3.Xor(B(x), B(y)))
            f = z3.Function('bv_%s_%d' % (op, bits), z3.IntSort(), z3.IntSort(), z3.IntSort())
            r = f(Z(a), Z(b))
            self.assume(st, z3.And(r >= -(1 << (bits - 1)), r < (1 << (bits - 1))))
            return r
        raise Unsupported('binop %s %s %s' % (op, a, b))

    def asbool01(self, a):
        if is_c(a):
            return None if a not in (0, 1) else bool(a)
        if z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_int_value(a.arg(1)) and z3.is_int_value(a.arg(2)):
            x, y = a.arg(1).as_long(), a.arg(2).as_long()
            if (x, y) == (1, 0):
                return a.arg(0)
            if (x, y) == (0, 1):
                return bnot(a.arg(0))
        if self.iv(a) == (0, 1):
            return a == 1
        return None

    def packed_op(self, op, bits, a, b):
        def parts(v):
            if isinstance(v, Packed):
                return v.parts
            if is_c(v):
                return None
            z = self.zext_src.get(v.get_id()) if is_val(v) else None
            if z and z[0] < bits:
                return [(z[0], z[1]), (bits - z[0], 0)]
            return None
        if op == 'or':
            pa, pb = parts(a), parts(b)
            if is_c(b) and pa:
                pb = [(bb, (b >> sum(x[0] for x in pa[:i])) & ((1 << bb) - 1)) for i, (bb, _) in enumerate(pa)]
            if pa and pb:
                # align
                out = []
                if [x[0] for x in pa] == [x[0] for x in pb]:
                    for (w, x), (_, y) in zip(pa, pb):
                        if is_c(x) and x == 0:
                            out.append((w, y))
                        elif is_c(y) and y == 0:
                            out.append((w, x))
                        elif x is UNDEF or y is UNDEF:
                            out.append((w, UNDEF))
                        else:
                            return None
                    return Packed(out)
            return None
        if op == 'lshr' and is_c(b) and isinstance(a, Packed):
            sh = b
            ps = list(a.parts)
            while ps and sh >= ps[0][0]:
                sh -= ps[0][0]
                ps.pop(0)
            if sh == 0 and ps:
                return Packed(ps + [(b, 0)])
            return None
        if op == 'and' and is_c(b) and isinstance(a, Packed):
            out = []
            sh = 0
            for w, x in a.parts:
                m = (b >> sh) & ((1 << w) - 1)
                if m == 0:
                    out.append((w, 0))
                elif m == (1 << w) - 1:
                    out.append((w, x))
                else:
                    return None
                sh += w
            return Packed(out)
        return None

    def or_pack(self, a, b, bits):
        return None

    def fpop(self, op, a, b):
        a = self.fresh_fp('undef') if a is UNDEF else a
        b = self.fresh_fp('undef') if b is UNDEF else b
        f = z3.Function(op, FPS, FPS, FPS)
        return f(a, b)

    def ptrbase(self, oid):
        b = self.base_syms.get(oid)
        if b is None:
            b = self.fresh_int('addr:%s' % self.objnames.get(oid, oid), None, 4096, 1 << 47)
            self.base_syms[oid] = b
        return b

    def ptr2int(self, v):
        if isinstance(v, Fn):
            b = self.base_syms.get(v.name)
            if b is None:
                b = self.fresh_int('addr:' + v.name, None, 4096, 1 << 47)
                self.base_syms[v.name] = b
            return b
        if isinstance(v, Ptr):
            if v.obj == 0:
                return v.off
            b = self.ptrbase(v.obj)
            r = add(b, v.off)
            if not hasattr(self, '_p2i'):
                self._p2i = {}
            self._p2i[Z(r).get_id()] = v
            self.keep.append(r)
            return r
        return v

    def int2ptr(self, v):
        if isinstance(v, (Ptr, Fn)):
            return v
        if is_c(v):
            return Ptr(0, v)
        p = getattr(self, '_p2i', {}).get(v.get_id())
        if p is not None:
            return p
        raise Unsupported('inttoptr %s' % v)

    def icmp(self, st, pred, ty, a, b, ins):
        rt = self.mod.rtype(ty)
        if a is UNDEF or b is UNDEF:
            return self.fresh_bool('undefcmp')
        if isinstance(a, Packed) and isinstance(b, Packed) and pred in ('eq', 'ne') and \
           [x[0] for x in a.parts] == [x[0] for x in b.parts]:
            r = True
            for (w, x), (_, y) in zip(a.parts, b.parts):
                r = band(r, self.icmp(st, 'eq', ('i', w), x, y, ins))
            return r if pred == 'eq' else bnot(r)
        if rt[0] == 'ptr' or isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if isinstance(a, Fn) or isinstance(b, Fn):
                eq = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
                if pred in ('eq', 'ne'):
                    return eq if pred == 'eq' else not eq
                raise Unsupported('fn compare')
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj != b.obj:
                    if pred in ('eq', 'ne'):
                        return pred == 'ne'
                    a = self.ptr2int(a)
                    b = self.ptr2int(b)
                    return self.icmp(st, pred, ('i', 64), a, b, ins)
                x, y = a.off, b.off
                p = pred.replace('u', 's') if pred[0] == 'u' else pred
                return self.cmp(p, x, y)
            a = self.ptr2int(a)
            b = self.ptr2int(b)
            return self.icmp(st, pred, ('i', 64), a, b, ins)
        bits = rt[1]
        if bits == 1:
            if pred == 'eq' or pred == 'ne':
                r = bnot(self.binop(st, 'xor', rt, a, b, frozenset(), ins, True))
                return r if pred == 'eq' else bnot(r)
            a, b = self.b2i(a), self.b2i(b)
        a = self.asint(a, bits, st)
        b = self.asint(b, bits, st)
        if pred[0] == 'u':
            if is_c(b) and b == 0 and pred in ('ult', 'uge'):
                return pred == 'uge'
            a = self.unsigned(st, a, bits)
            b = self.unsigned(st, b, bits)
            pred = 's' + pred[1:]
        # bool01 compare with constants
        if is_c(b) and b in (0, 1) and pred in ('eq', 'ne'):
            x = self.asbool01(a)
            if x is not None:
                r = x if b == 1 else bnot(x)
                return r if pred == 'eq' else bnot(r)
        return self.cmp(pred, a, b)

    def cmp(self, pred, a, b):
        if is_c(a) and is_c(b):
            return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred]
        A, Bz = Z(a), Z(b)
        if A.eq(Bz):
            return pred in ('eq', 'sle', 'sge')
        if pred == 'eq':
            return A == Bz
        if pred == 'ne':
            return A != Bz
        if pred == 'slt':
            return A < Bz
        if pred == 'sle':
            return A <= Bz
        if pred == 'sgt':
            return A > Bz
        return A >= Bz

    def cast(self, st, op, st_ty, v, dt, ins, spec):
        s, d = self.mod.rtype(st_ty), self.mod.rtype(dt)
        if op == 'bitcast' or op == 'addrspacecast':
            return self.retype(v, s, d, st)
        if op == 'ptrtoint':
            return v if isinstance(v, (Ptr, Fn)) and False else self.ptr2int(v)
        if op == 'inttoptr':
            return self.int2ptr(v)
        if v is UNDEF:
            return UNDEF
        if op in ('zext', 'sext'):
            if s == I1:
                x = self.b2i(v)
                return x if op == 'zext' else sub(0, x)
            if isinstance(v, Packed):
                return Packed(v.parts + [(d[1] - s[1], 0)]) if op == 'zext' else self.asint(v, s[1], st)
            if op == 'sext':
                return self.asint(v, s[1], st)
            x = self.asint(v, s[1], st)
            r = self.unsigned(st, x, s[1])
            if not is_c(r):
                self.zext_src[r.get_id()] = (s[1], v)
                self.keep.append(r)
            return r
        if op == 'trunc':
            if isinstance(v, Packed):
                bo = 0
                out = []
                for b, x in v.parts:
                    if bo + b <= d[1]:
                        out.append((b, x))
                        bo += b
                        if bo == d[1]:
                            break
                    else:
                        raise Unsupported('trunc packed')
                return out[0][1] if len(out) == 1 else Packed(out)
            if d == I1:
                if is_c(v):
                    return bool(v & 1)
                if isinstance(v, (bool, z3.BoolRef)):
                    return v
                b = self.asbool01(v)
                if b is not None:
                    return b
                v = self.asint(v, s[1], st)
                lo, hi = self.iv(v)
                if (lo, hi) == (0, 1) or (self.valid(st, z3.And(v >= 0, v <= 1), 200)):
                    return v == 1
                return self.divmod(st, self.unsigned(st, v, s[1]), 2, ins, 8, False, True)[1] == 1
            if isinstance(v, (Ptr, Fn)):
                v = self.ptr2int(v)
            z = self.zext_src.get(v.get_id()) if is_val(v) and not is_c(v) else None
            if z and z[0] == d[1]:
                return z[1]
            return self.wrap(st, self.asint(v, s[1], st), d[1])
        if op in ('sitofp', 'uitofp'):
            x = self.asint(v, s[1], st) if s != I1 else self.b2i(v)
            return z3.Function('int2fp_' + d[1], z3.IntSort(), FPS)(Z(x))
        if op in ('fptosi', 'fptoui'):
            r = z3.Function('fp2int_%s_%d' % (op, d[1]), FPS, z3.IntSort())(v)
            self.assume(st, z3.And(r >= -(1 << (d[1] - 1)), r < 1 << (d[1] - 1)))
            return r
        if op in ('fpext', 'fptrunc'):
            return z3.Function(op + d[1], FPS, FPS)(v)
        raise Unsupported('cast ' + op)

    def gep(self, ty, ops, st):
        base = ops[0][1]
        if base is UNDEF:
            raise Unsupported('gep on undef')
        if isinstance(base, Fn):
            raise Unsupported('gep on fn')
        if not isinstance(base, Ptr):
            raise Unsupported('gep base %s' % (base,))
        off = base.off
        cur = ty
        first = True
        for t, i in ops[1:]:
            i = self.asint(i, 64, st)
            if first:
                off = add(off, mul(i, self.mod.size(cur)))
                first = False
                continue
            r = self.mod.rtype(cur)
            if r[0] == 'struct':
                off = add(off, self.mod.offsets(r)[i])
                cur = r[1][i]
            else:
                off = add(off, mul(i, self.mod.size(r[2])))
                cur = r[2]
        return Ptr(base.obj, off)
