"""discharging obligations: in-process z3, linear abstraction with product lemmas, external portfolio"""
import subprocess, tempfile, os, time, itertools, re
import z3

EXT = [('z3-4.8.12', ['/usr/bin/z3', '-T:%d']), ('cvc5', ['cvc5', '--tlimit=%d000', '--nl-ext-tplanes']), ('z3-new', ['z3-new', '-T:%d'])]

def monos(t, tbl, keep):
    """replace non-linear monomials of a simplified (som) term by fresh ints"""
    pass

class Abstraction:
    def __init__(self):
        self.tab = {}        # tuple(sorted factor ids) -> var
        self.fac = {}        # var name -> tuple of factor terms
        self.cache = {}
        self.keep = []
    def mono(self, factors):
        key = tuple(sorted(f.get_id() for f in factors))
        v = self.tab.get(key)
        if v is None:
            v = z3.Int('mono!%d' % len(self.tab))
            self.tab[key] = v
            self.fac[v.decl().name()] = sorted(factors, key=lambda f: f.get_id())
            self.keep += list(factors)
        return v
    def term(self, t):
        """t: Int/Bool term -> abstraction (linear)"""
        k = t.get_id()
        r = self.cache.get(k)
        if r is not None:
            return r
        if z3.is_mul(t):
            coef = 1
            fs = []
            for c in self.flat(t):
                if z3.is_int_value(c):
                    coef *= c.as_long()
                elif z3.is_app_of(c, z3.Z3_OP_UMINUS):
                    coef *= -1
                    fs.append(self.term(c.arg(0)))
                else:
                    fs.append(self.term(c))
            if len(fs) == 0:
                r = z3.IntVal(coef)
            elif len(fs) == 1:
                r = fs[0] * coef if coef != 1 else fs[0]
            else:
                # distribute sums
                r = self.prod(fs)
                if coef != 1:
                    r = r * coef
        elif z3.is_app_of(t, z3.Z3_OP_POWER) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 2:
            b = self.term(t.arg(0))
            r = self.prod([b, b])
        elif t.num_args() == 0:
            r = t
        else:
            ch = [self.term(c) for c in t.children()]
            if all(a.eq(b) for a, b in zip(ch, t.children())):
                r = t
            elif z3.is_and(t):
                r = z3.And(ch)
            elif z3.is_or(t):
                r = z3.Or(ch)
            else:
                r = t.decl()(*ch)
        self.cache[k] = r
        self.keep += [t, r]
        return r
    def flat(self, t):
        out = []
        for c in t.children():
            if z3.is_mul(c):
                out += self.flat(c)
            else:
                out.append(c)
        return out
    def poly(self, t):
        """linear term -> list of (coef, factors) with factors atomic terms"""
        if z3.is_int_value(t):
            return [(t.as_long(), ())]
        if z3.is_add(t):
            return [m for c in t.children() for m in self.poly(c)]
        if z3.is_sub(t):
            r = self.poly(t.arg(0))
            for c in t.children()[1:]:
                r = r + [(-a, f) for a, f in self.poly(c)]
            return r
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            return [(-a, f) for a, f in self.poly(t.arg(0))]
        if z3.is_mul(t):
            acc = [(1, ())]
            for c in t.children():
                p = self.poly(c)
                acc = [(a * b, f + g) for a, f in acc for b, g in p]
                if len(acc) > 60:
                    raise z3.Z3Exception('poly blowup')
            return acc
        if z3.is_const(t) and t.decl().name() in self.fac:
            return [(1, tuple(self.fac[t.decl().name()]))]
        return [(1, (t,))]
    def prod(self, ts):
        acc = [(1, ())]
        for t in ts:
            p = self.poly(t)
            acc = [(a * b, f + g) for a, f in acc for b, g in p]
            if len(acc) > 60:
                raise z3.Z3Exception('poly blowup')
        col = {}
        for a, f in acc:
            k = tuple(sorted(x.get_id() for x in f))
            if k in col:
                col[k][0] += a
            else:
                col[k] = [a, f]
        out = []
        for k, (a, f) in col.items():
            if a == 0:
                continue
            if len(f) == 0:
                out.append(z3.IntVal(a))
            elif len(f) == 1:
                out.append(f[0] * a if a != 1 else f[0])
            else:
                m = self.mono(f)
                out.append(m * a if a != 1 else m)
        if not out:
            return z3.IntVal(0)
        return z3.Sum(out) if len(out) > 1 else out[0]

def feas_abstract(eng, forms, timeout, goal=None):
    ab = eng._fab
    if ab is None:
        ab = eng._fab = Abstraction()
    fs = [ab.term(f) for f in forms]
    used = set()
    for f in fs:
        eng.syms(f, used)
    prio = eng.syms(fs[goal], set()) if goal is not None else ()
    byfac = {}
    lem = []
    cache = ab.__dict__.setdefault('lemcache', {})
    for name in used:
        fac = ab.fac.get(name)
        if fac is None:
            continue
        for idx in range(len(fac)):
            ent = cache.get((name, idx))
            if ent is None:
                f, rest = fac[idx], fac[:idx] + fac[idx + 1:]
                if len(rest) > 1:
                    r = ab.tab.get(tuple(sorted(x.get_id() for x in rest)))
                    if r is None:
                        continue
                else:
                    r = rest[0]
                v = z3.Int(name)
                ent = cache[(name, idx)] = (f.get_id(), f, v, r, name, z3.And(
                    z3.Implies(z3.And(f >= 0, r >= 0), v >= 0), z3.Implies(z3.And(f >= 1, r >= 1), z3.And(v >= f, v >= r)),
                    z3.Implies(f == 0, v == 0), z3.Implies(f == 1, v == r)))
            lem.append(ent[5])
            byfac.setdefault(ent[0], (ent[1], []))[1].append(ent[2:5])
    for fid, (f, lst) in byfac.items():
        if 2 <= len(lst):
            if len(lst) > 8:
                pairs = [(x, y) for x, y in itertools.combinations(lst, 2) if x[2] in prio or y[2] in prio][:60]
            else:
                pairs = itertools.combinations(lst, 2)
            for (v1, r1, n1), (v2, r2, n2) in pairs:
                key = (fid, n1, n2)
                l = cache.get(key)
                if l is None:
                    l = cache[key] = z3.Implies(f >= 0, z3.And(z3.Implies(r1 == r2, v1 == v2), z3.Implies(r1 < r2, v1 + f <= v2), z3.Implies(r2 < r1, v2 + f <= v1)))
                lem.append(l)
    from sym import fast_add
    allf = fs + lem
    if eng.abs_models.sat(([fs[goal]] if goal is not None else []) + allf):
        return z3.sat
    s = z3.Solver()
    # the resource limit decides, not the clock
    s.set('timeout', timeout * 6 * eng.scale)
    s.set('rlimit', timeout * 4000 * eng.scale)
    fast_add(s, allf)
    r = s.check()
    if r == z3.sat:
        eng.abs_models.add(s)
    return r

def abstract_check(forms, divs, timeout, rounds=2):
    ab = Abstraction()
    fs = [ab.term(f) for f in forms]
    lem = []
    seenl = set()
    def addl(l):
        if l.get_id() not in seenl:
            seenl.add(l.get_id())
            lem.append(l)
            ab.keep.append(l)
    divt = [(ab.term(q), ab.term(m), ab.term(a), ab.term(b)) for q, m, a, b in divs]
    nonc = [d for d in divt if not z3.is_int_value(d[3])]
    # products of division equations by other divisors
    bs = {}
    for q, m, a, b in nonc:
        bs[b.get_id()] = b
    for q, m, a, b in divt:
        for t in bs.values():
            if t.eq(b):
                continue
            if len(bs) * len(divt) > 150:
                break
            addl(z3.Implies(b != 0, ab.prod([a, t]) == ab.prod([q, b, t]) + ab.prod([m, t])))
    for i in range(len(nonc)):
        for j in range(i + 1, len(nonc)):
            q1, m1, a1, b1 = nonc[i]
            q2, m2, a2, b2 = nonc[j]
            if b1.eq(b2):
                x, y = ab.prod([q1, b1]), ab.prod([q2, b1])
                addl(z3.Implies(b1 >= 1, z3.And(z3.Implies(q1 < q2, x + b1 <= y), z3.Implies(q2 < q1, y + b1 <= x), z3.Implies(q1 == q2, x == y))))
    # polynomial quotients: dividend = b*X + Y
    cand = {}
    def polyterm(ms):
        ts = []
        for c, f in ms:
            if len(f) == 0:
                ts.append(z3.IntVal(c))
            else:
                m = ab.mono(f) if len(f) > 1 else f[0]
                ts.append(m * c if c != 1 else m)
        return z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.IntVal(0))
    def collect(ms):
        col = {}
        for c, f in ms:
            k = tuple(sorted(x.get_id() for x in f))
            if k in col:
                col[k][0] += c
            else:
                col[k] = [c, f]
        return [(c, f) for c, f in col.values() if c]
    nb = 0
    for q, m, a, b in divt:
        if z3.is_int_value(b) or not (z3.is_const(b)):
            continue
        exps = [collect(ab.poly(a))]
        # replace quotient atoms by their candidate polynomials
        for c, f in exps[0]:
            for x in f:
                if x.get_id() in cand:
                    for X in cand[x.get_id()]:
                        new = []
                        for c2, f2 in exps[0]:
                            idx = [i for i, y in enumerate(f2) if y.eq(x)]
                            if len(idx) == 1:
                                rest = f2[:idx[0]] + f2[idx[0] + 1:]
                                new += [(c2 * c3, rest + f3) for c3, f3 in X]
                            else:
                                new.append((c2, f2))
                        if len(exps) < 6 and len(new) < 30:
                            exps.append(collect(new))
        for e in exps:
            X = []
            for c, f in e:
                idx = [i for i, y in enumerate(f) if y.eq(b)]
                if idx:
                    X.append((c, f[:idx[0]] + f[idx[0] + 1:]))
            if not X or nb > 40:
                continue
            nb += 1
            cand.setdefault(q.get_id(), []).append(X)
            ab.keep.append(q)
            Xt = polyterm(X)
            Xb = polyterm([(c, f + (b,)) for c, f in X])
            qb = ab.prod([q, b])
            for d in (0, 1, -1):
                Y, Yb = Xt + d, Xb + d * b
                addl(z3.Implies(b >= 1, z3.And(z3.Implies(q < Y, qb + b <= Yb), z3.Implies(Y < q, Yb + b <= qb), z3.Implies(q == Y, qb == Yb))))
    # same-divisor groups: q compared with q_j +- q_k + d
    groups = {}
    for q, m, a, b in nonc:
        groups.setdefault(b.get_id(), (b, []))[1].append(q)
    for b, qs in groups.values():
        if 2 <= len(qs) <= 5:
            for q in qs:
                for q2, q3 in itertools.combinations(qs, 2):
                    if q.eq(q2) or q.eq(q3):
                        alts = [q2 - q3, q3 - q2] if False else []
                    else:
                        alts = [q2 + q3, q2 - q3, q3 - q2]
                    for X in alts:
                        Xb = ab.prod([X, b])
                        qb = ab.prod([q, b])
                        for d in (0, 1, -1):
                            Y, Yb = X + d, Xb + d * b
                            addl(z3.Implies(b >= 1, z3.And(z3.Implies(q < Y, qb + b <= Yb), z3.Implies(Y < q, Yb + b <= qb), z3.Implies(q == Y, qb == Yb))))
    # monomial lemmas: shared factor
    for rnd in range(rounds):
        ms = list(ab.fac.items())
        if len(ms) > 60:
            ms = ms[:60]
        byfac = {}
        for name, fac in ms:
            for idx, f in enumerate(fac):
                rest = fac[:idx] + fac[idx + 1:]
                r = ab.mono(rest) if len(rest) > 1 else rest[0]
                byfac.setdefault(f.get_id(), (f, []))[1].append((z3.Int(name), r))
        for f, lst in byfac.values():
            ab.keep.append(f)
            seen = set()
            for v, r in lst:
                # sign and unit lemmas
                addl(z3.Implies(z3.And(f >= 0, r >= 0), v >= 0))
                addl(z3.Implies(z3.And(f >= 1, r >= 1), z3.And(v >= f, v >= r)))
                addl(z3.Implies(f == 0, v == 0))
                addl(z3.Implies(f == 1, v == r))
                addl(z3.Implies(z3.And(f >= 0, r < 0), v <= -f))
                addl(z3.Implies(r == 0, v == 0))
                addl(z3.Implies(r == 1, v == f))
                addl(z3.Implies(r == -1, v == -f))
            if len(lst) <= 12:
                for (v1, r1), (v2, r2) in itertools.combinations(lst, 2):
                    addl(z3.Implies(f >= 0, z3.And(z3.Implies(r1 == r2, v1 == v2),
                                                   z3.Implies(r1 < r2, v1 + f <= v2), z3.Implies(r2 < r1, v2 + f <= v1))))
            # against the factor with unit multiples:  r vs r' +/- 1 handled by strict lemmas
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in fs:
        s.add(f)
    for l in lem:
        s.add(l)
    return s.check(), len(lem)

def external(forms, secs, only=None):
    s = z3.Solver()
    for f in forms:
        s.add(f)
    txt = s.to_smt2()
    txt = '(set-logic ALL)\n' + txt
    fd, path = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, txt.encode())
    os.close(fd)
    procs = []
    try:
        for nm, cmd in EXT:
            if only and nm not in only:
                continue
            c = [x % secs if '%d' in x else x for x in cmd] + [path]
            procs.append((nm, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        t0 = time.time()
        pend = list(procs)
        while pend and time.time() - t0 < secs + 3:
            for nm, p in list(pend):
                if p.poll() is not None:
                    pend.remove((nm, p))
                    o = p.stdout.read().strip().split('\n')[0] if p.stdout else ''
                    if o in ('unsat', 'sat'):
                        return o, nm
            time.sleep(0.01)
        return 'unknown', None
    finally:
        for nm, p in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
            p.stdout.close()
        os.unlink(path)

class Discharger:
    def __init__(self, eng, tier='quick'):
        self.eng = eng
        self.scale = (1 if tier == 'quick' else 3) * eng.scale
        self.stats = {}
        self.time = 0.0
    def discharge(self, ob):
        """-> (status, backend, model-solver or None)"""
        t0 = time.time()
        try:
            return self._d(ob)
        finally:
            self.time += time.time() - t0
    def quick(self, pc, goal):
        eng = self.eng
        rel = eng.relevant(pc, goal)
        forms = self._forms(rel, goal)
        if any(eng.nonlinear(f) for f in forms):
            if not hasattr(eng, '_fab'):
                eng._fab = None
            try:
                if feas_abstract(eng, forms, 600, len(rel)) == z3.unsat:
                    return True
            except z3.Z3Exception:
                pass
        s = z3.Solver()
        s.set('timeout', 1000)
        for f in forms:
            s.add(f)
        r = s.check()
        if r == z3.unsat:
            return True
        if r == z3.sat:
            if len(rel) == len(pc):
                return False
            forms = self._forms(pc, goal)
        used = set()
        for f in forms:
            eng.syms(f, used)
        divs = [d for d in eng.divlist if d[0].decl().name() in used or d[1].decl().name() in used]
        try:
            r, nl = abstract_check(forms, divs, 5000)
            if r == z3.unsat:
                return True
        except z3.Z3Exception:
            pass
        r, nm = external(forms, 10)
        return r == 'unsat'
    def _forms(self, pc, goal):
        neg = z3.Not(goal)
        fs = list(pc) + [neg]
        return fs + self.eng.close_defs(fs)
    def by_cases(self, forms, end, depth=0):
        # unsatisfiable in every case of the conditions inside the formulas?
        fs, stack = [], [z3.simplify(f) for f in forms]
        while stack:
            f = stack.pop(0)
            if z3.is_false(f):
                return True
            if z3.is_true(f):
                continue
            if z3.is_and(f):
                stack = f.children() + stack
            else:
                fs.append(f)
        ids, uniq = set(), []
        for f in fs:
            if f.get_id() not in ids:
                ids.add(f.get_id())
                uniq.append(f)
        fs = uniq
        if depth:
            eng = self.eng
            if any(eng.nonlinear(f) for f in fs):
                if feas_abstract(eng, fs, 500) == z3.unsat:
                    return True
            s = z3.Solver()
            s.set('timeout', 500)
            for f in fs:
                s.add(f)
            r = s.check()
            if r == z3.unsat:
                return True
            if r == z3.sat:
                return False
            used = set()
            for f in fs:
                eng.syms(f, used)
            divs = [d for d in eng.divlist if d[0].decl().name() in used or d[1].decl().name() in used]
            if abstract_check(fs, divs, 1500)[0] == z3.unsat:
                return True
        if depth > 10 or time.time() > end:
            return False
        # the last formulas come from the goal: its cases first, then the condition that occurs most
        for f in reversed(fs):
            if z3.is_or(f) and f.num_args() <= 6 and depth < 8:
                rest = [g for g in fs if g.get_id() != f.get_id()]
                done = []
                for c in f.children():
                    if not self.by_cases(rest + done + [c], end, depth + 1):
                        return False
                    done.append(z3.Not(c))
                return True
        cnt, seen = {}, set()
        todo = list(fs)
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_ITE and not z3.is_var(x.arg(0)):
                    c = x.arg(0)
                    cnt.setdefault(c.get_id(), [0, c])[0] += 1
                todo += x.children()
        if not cnt:
            return False
        c = max(cnt.values(), key=lambda t: t[0])[1]
        for v in (True, False):
            if not self.by_cases([z3.substitute(f, (c, z3.BoolVal(v))) for f in fs] + [c if v else z3.Not(c)], end, depth + 1):
                return False
        return True
    def _d(self, ob):
        if z3.is_true(ob.goal):
            return ('proved', 'trivial', None)
        eng = self.eng
        rel = eng.relevant(ob.pc, ob.goal)
        forms = self._forms(rel, ob.goal)
        if any(eng.nonlinear(f) for f in forms):
            if not hasattr(eng, '_fab'):
                eng._fab = None
            try:
                if feas_abstract(eng, forms, 800, len(rel)) == z3.unsat:
                    return ('proved', 'z3+linear-abstraction', None)
            except z3.Z3Exception:
                pass
        s = z3.Solver()
        s.set('timeout', 1200 * self.scale)
        for f in forms:
            s.add(f)
        r = s.check()
        if r == z3.unsat:
            return ('proved', 'z3', None)
        sat_seen = r == z3.sat
        if r == z3.sat:
            # is the complete path condition satisfiable together?
            full = self._forms(ob.pc, ob.goal)
            s2 = z3.Solver()
            s2.set('timeout', 3000 * self.scale)
            for f in full:
                s2.add(f)
            r2 = s2.check()
            if r2 == z3.unsat:
                return ('proved', 'z3', None)
            if r2 == z3.sat:
                return ('failed', 'z3', s2)
            forms = full
        # product lemmas
        used = set()
        for f in forms:
            eng.syms(f, used)
        divs = [d for d in eng.divlist if d[0].decl().name() in used or d[1].decl().name() in used]
        try:
            r, nl = abstract_check(forms, divs, 4000 * self.scale)
            if r == z3.unsat:
                return ('proved', 'z3+product-lemmas(%d)' % nl, None)
        except z3.Z3Exception:
            pass
        r, nm = external(forms, 15 * self.scale)
        if r == 'unsat':
            return ('proved', nm, None)
        full = self._forms(ob.pc, ob.goal)
        if len(full) != len(forms):
            used = set()
            for f in full:
                eng.syms(f, used)
            divs = [d for d in eng.divlist if d[0].decl().name() in used or d[1].decl().name() in used]
            try:
                r2, nl = abstract_check(full, divs, 6000 * self.scale)
                if r2 == z3.unsat:
                    return ('proved', 'z3+product-lemmas(%d)' % nl, None)
            except z3.Z3Exception:
                pass
        if r != 'sat' and not sat_seen:
            try:
                if self.by_cases(full, time.time() + 60 * self.scale):
                    return ('proved', 'z3+case-splits', None)
            except z3.Z3Exception:
                pass
        # try to find a small counterexample
        s = z3.Solver()
        s.set('timeout', 4000 * self.scale)
        for f in full:
            s.add(f)
        for nm2, v in eng.inputs:
            if z3.is_int(v):
                s.add(v >= -16, v <= 16)
        if s.check() == z3.sat:
            return ('failed', 'z3(bounded model)', s)
        return ('unknown' if r != 'sat' else 'failed', nm, None)
