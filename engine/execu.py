"""control flow, calls, loops, intrinsics on top of sym.Engine"""
import re, time, os
import z3
from sym import *

NOOPS = re.compile(r'^@(llvm\.(lifetime|dbg|assume|experimental\.noalias|donothing|stackrestore|prefetch|invariant|var\.annotation)|_ZNSt8ios_base4InitC1|__cxa_atexit|__cxa_guard_release|_ZNSt8ios_base4InitD1)')

OPAQUE = re.compile(r'^@(_ZNSt7__cxx119to_stringE|_ZNK?St7__cxx1112basic_string|_ZNSaIcE|_ZN?St(ls|plIc|18basic_string)|_ZNSt7__cxx11(18|19)basic_|_ZNSo|_ZNSolsE|_ZStls|_ZNK?St9basic_ios|_ZNSt8ios_base|_ZSt16__ostream_insert|_ZNK?St7__cxx1118basic_)')

class Back(Exception):
    pass

class Exec(Engine):
    # ---------- CFG ----------
    def cfg(self, f):
        if f._loops is not None:
            return f._loops
        order, blocks = self.mod.blocks(f)
        succ = {}
        for b in order:
            t = blocks[b][-1]
            if t.op == 'br':
                succ[b] = [t.args[1]] + ([t.args[2]] if t.args[2] else [])
            elif t.op == 'switch':
                succ[b] = [t.args[1]] + [x[1] for x in t.args[2]]
            elif t.op == 'invoke':
                succ[b] = [t.args[3]]
            else:
                succ[b] = []
        # reachable
        entry = order[0]
        reach = []
        seen = {entry}
        st = [(entry, iter(succ[entry]))]
        post = []
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = post[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        dom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in dom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while idx[x] > idx[y]:
                            x = dom[x]
                        while idx[y] > idx[x]:
                            y = dom[y]
                    n = x
                if dom.get(b) != n:
                    dom[b] = n
                    ch = True
        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = dom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dominates(s, b):
                    body = loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x not in body:
                            body.add(x)
                            stk.extend(pred[x])
        # post dominators (for short-circuit merging) : simple ipdom via reverse
        headers = sorted(loops, key=lambda h: idx[h])
        f._loops = dict(succ=succ, pred=pred, loops=loops, headers=headers, entry=entry, idx=idx, ipd={})
        return f._loops

    def short_circuit_join(self, f, b):
        """block J such that all paths from cond-branch block b reach J through blocks w/o side effects,
        and J has only i1 phis.  returns J or None"""
        c = self.cfg(f)
        if b in c['ipd']:
            return c['ipd'][b]
        blocks = self.mod.blocks(f)[1]
        res = None
        region = set()
        # forward exploration in rpo order, find a single join
        frontier = set(c['succ'][b])
        steps = 0
        while steps < 40:
            steps += 1
            if len(frontier) == 1:
                J = next(iter(frontier))
                if J not in c['loops'] and len([p for p in c['pred'][J] if p in region or p == b]) >= 2:
                    phis = [i for i in blocks[J] if i.op == 'phi']
                    spec = self.joins(f)
                    ok = all(i.args[0] == I1 or spec and i.args[0][0] == 'i' for i in phis) and phis
                    res = J if ok else None
                    break
            x = min(frontier, key=lambda q: c['idx'][q])
            frontier.discard(x)
            if x in c['loops'] or not self.pure_block(f, blocks[x]):
                break
            region.add(x)
            ns = c['succ'][x]
            if not ns:
                break
            frontier |= set(ns)
            if any(c['idx'][n] <= c['idx'][x] for n in ns):
                break
        c['ipd'][b] = res
        if os.environ.get('VC_DEBUG2'): print('SC', f.name, b, res, region, frontier, self.is_spec(f), f.subprogram)
        return res

    def pure_block(self, f, ins):
        for i in ins:
            if i.op in ('store', 'invoke', 'ret', 'unreachable', 'alloca', 'atomicrmw', 'cmpxchg', 'switch', 'resume', 'asm'):
                return False
            if i.op == 'call':
                cal = i.args[1]
                if cal[0] != 'g':
                    return False
                if NOOPS.match(cal[1]):
                    continue
                if not self.pure_fn(cal[1]):
                    return False
        return True

    def pure_fn(self, name, depth=0):
        nm = self.mod.resolve_fn(name)
        r = self._pure.get(nm)
        if r is not None:
            return r
        f = self.mod.funcs.get(nm)
        if f is None or f.is_decl or nm in self.contracts or nm.startswith('@vc_') or depth > 12:
            return False
        self._pure[nm] = False
        order, blocks = self.mod.blocks(f)
        allocas = set()
        ok = True
        for b in order:
            for i in blocks[b]:
                if i.op == 'alloca':
                    allocas.add(i.dst)
                elif i.op == 'store':
                    if not (i.args[1][1][0] == 'l' and i.args[1][1][1] in allocas):
                        ok = False
                elif i.op in ('invoke', 'atomicrmw', 'cmpxchg', 'asm', 'resume'):
                    ok = False
                elif i.op == 'call':
                    if i.args[1][0] != 'g':
                        ok = False
                    elif NOOPS.match(i.args[1][1]):
                        pass
                    elif not self.pure_fn(i.args[1][1], depth + 1):
                        ok = False
                if not ok:
                    break
            if not ok:
                break
        if ok and self.cfg(f)['loops']:
            ok = False
        self._pure[nm] = ok
        return ok
    _pure = {}

    # ---------- functions ----------
    def exec_fn(self, st, name, args, ins=None):
        """execute a defined function; -> list of (state, retval)"""
        f = self.mod.funcs[name]
        self.mod.blocks(f)
        if len(self.callstack) > 150:
            raise Unsupported('call depth')
        if not self.is_spec(f):
            self.fn_real.add(name)
        env = {}
        for (t, nm, at), a in zip(f.params, args):
            if at.get('byval') is not None:
                # copy
                oid = self.new_obj_id('byval')
                n = self.mod.size(at['byval'])
                st.mem[oid] = Obj(oid, n, 'byval:' + nm, 'alloca')
                self.memcpy(st, Ptr(oid, 0), a, n, ins)
                a = Ptr(oid, 0)
            env[nm] = a
        self.callstack.append(name)
        self.frames.append({})
        st0 = st
        if f.rettype == I1 and self.is_spec(f):
            st0 = st.fork()
        try:
            outs = self.run(st, f, env, self.cfg(f)['entry'], None, frozenset())
        finally:
            self.callstack.pop()
            self.frames.pop()
        res = []
        for o in outs:
            assert o[0] == 'ret', o
            res.append((o[1], o[2]))
        if len(res) > 1 and self.is_spec(f) and f.rettype == I1:
            m = self.merge(st0, res)
            if m is not None:
                return [m]
        return res

    def merge(self, st0, outs):
        """merge several outcomes with i1 values whose memory did not change"""
        n = len(st0.pc)
        base = outs[0][0].mem
        for s, v in outs:
            for k, o in s.mem.items():
                if st0.mem.get(k) is not o and k in st0.mem:
                    a, b = st0.mem[k], o
                    if a.cells != b.cells and not (all(b.cells.get(x) is c or b.cells.get(x) == c for x, c in a.cells.items()) and a.kind in ('lazy', 'heap', 'alloca', 'global') and a.backing):
                        return None
        conds = []
        val = None
        # path conditions suffixes
        m = outs[0][0].fork()
        for s, v in outs[1:]:
            for k, o in s.mem.items():
                if k not in m.mem:
                    m.mem[k] = o
        sfx = []
        for s, v in outs:
            # first suffix entries are branch conds; keep all
            sfx.append((s.pc[n:], v))
        m.pc = list(st0.pc)
        alts = []
        for pcs, v in sfx:
            alts.append(z3.And([B(x) for x in pcs] + [B(v)]) if pcs else B(v))
        r = z3.simplify(z3.Or(alts)) if len(alts) > 1 else alts[0]
        dom = [z3.And(pcs) if len(pcs) > 1 else pcs[0] for pcs, v in sfx if pcs]
        if len(dom) == len(sfx):
            d = z3.simplify(z3.Or(dom))
            if not z3.is_true(d):
                m.pc.append(d)
        self.keep.append(r)
        if z3.is_true(r):
            r = True
        elif z3.is_false(r):
            r = False
        return (m, r)

    def run(self, st, f, env, blk, prev, stops, start=0, loopctx=()):
        """-> outcomes: ('ret', st, val) | ('stop', st, env, blk, prev)"""
        c = self.cfg(f)
        blocks = self.mod.blocks(f)[1]
        outs = []
        work = [(st, env, blk, prev, start)]
        while work:
            st, env, blk, prev, start = work.pop()
            self.stat['steps'] = self.stat.get('steps', 0) + 1
            if self.t_end and time.time() > self.t_end:
                raise Unsupported('exploration time limit in ' + ' < '.join(x.split('(')[0][-60:] for x in reversed(self.callstack[-12:])))
            try:
                while True:
                    if start == 0:
                        if blk in stops:
                            outs.append(('stop', st, env, blk, prev))
                            break
                        if blk in c['loops'] and blk not in loopctx:
                            for o in self.loop(st, f, env, blk, prev, stops, loopctx):
                                if o[0] == 'ret':
                                    outs.append(o)
                                elif o[3] in stops:
                                    outs.append(o)
                                else:
                                    work.append((o[1], o[2], o[3], o[4], 0))
                            break
                    ins = blocks[blk]
                    n = len(ins)
                    k = start
                    start = 0
                    if k == 0:
                        # phis in parallel
                        ph = []
                        while ins[k].op == 'phi':
                            for v, b in ins[k].args[1]:
                                if b == prev or prev == b + '$first':
                                    ph.append((ins[k].dst, self.const(ins[k].args[0], v, st, env)))
                                    break
                            else:
                                raise Unsupported('phi without edge %s from %s in %s %s' % (ins[k], prev, f.name, blk))
                            k += 1
                        for d, v in ph:
                            env[d] = v
                    nxt = None
                    while k < n:
                        i = ins[k]
                        op = i.op
                        if op in ('call', 'invoke'):
                            rs = self.call(st, f, env, i)
                            if not rs:
                                raise PathEnd('no return')
                            if len(rs) > 1:
                                for s2, v in rs[1:]:
                                    e2 = dict(env)
                                    if i.dst:
                                        e2[i.dst] = v
                                    if op == 'invoke':
                                        work.append((s2, e2, i.args[3], blk, 0))
                                    else:
                                        work.append((s2, e2, blk, prev, k + 1))
                                if len(work) > self.max_paths:
                                    raise Unsupported('too many paths')
                            st, v = rs[0]
                            if i.dst:
                                env[i.dst] = v
                            if op == 'invoke':
                                nxt = i.args[3]
                                break
                        elif op == 'br':
                            if i.args[0] is None:
                                nxt = i.args[1]
                                break
                            cv = self.const(I1, i.args[0][1], st, env)
                            if cv is UNDEF:
                                self.oblige(st, 'branch on uninitialised value', False, self.where(i), 'uninit')
                            if isinstance(cv, bool):
                                nxt = i.args[1] if cv else i.args[2]
                                break
                            sv = z3.simplify(cv)
                            if z3.is_true(sv) or z3.is_false(sv):
                                nxt = i.args[1] if z3.is_true(sv) else i.args[2]
                                break
                            J = self.short_circuit_join(f, blk)
                            if J is not None and J not in stops:
                                kid, nid = cv.get_id(), bnot(cv).get_id()
                                known = next((x for x in reversed(st.pc[-64:]) if x.get_id() in (kid, nid)), None)
                                if known is not None:
                                    nxt = i.args[1] if known.get_id() == kid else i.args[2]
                                    break
                                ok = self.sc_merge(st, f, env, blk, cv, i, J, loopctx)
                                if ok is not None:
                                    if ok == 'dead':
                                        raise PathEnd('dead')
                                    # ok = (st, phi values)
                                    st = ok[0]
                                    env.update(ok[1])
                                    blk, prev = J, None
                                    kk = 0
                                    while blocks[J][kk].op == 'phi':
                                        kk += 1
                                    start = kk
                                    nxt = 'MERGED'
                                    break
                            t_ok = not self.valid(st, bnot(cv))
                            e_ok = True if not t_ok else not self.valid(st, cv)
                            if t_ok and e_ok:
                                s2 = st.fork()
                                self.assume(s2, bnot(cv))
                                work.append((s2, dict(env), i.args[2], blk, 0))
                                self.assume(st, cv)
                                nxt = i.args[1]
                            elif t_ok:
                                self.solver_decided.add((f.name, blk))
                                self.assume(st, cv)
                                nxt = i.args[1]
                            else:
                                self.solver_decided.add((f.name, blk))
                                self.assume(st, bnot(cv))
                                nxt = i.args[2]
                            break
                        elif op == 'switch':
                            v = self.const(i.args[0][0], i.args[0][1], st, env)
                            bits = self.mod.rtype(i.args[0][0])[1]
                            v = self.asint(v, bits, st)
                            cases = [(self.const(t[0], t[1], st, env), b) for t, b in i.args[2]]
                            if is_c(v):
                                nxt = i.args[1]
                                for cv, b in cases:
                                    if cv == v:
                                        nxt = b
                                break
                            alts = []
                            for cv, b in cases:
                                if self.feasible(st, Z(v) == cv):
                                    s2 = st.fork()
                                    self.assume(s2, Z(v) == cv)
                                    alts.append((s2, b))
                            d = z3.And([Z(v) != cv for cv, b in cases]) if cases else True
                            if self.feasible(st, d):
                                self.assume(st, d)
                                alts.append((st, i.args[1]))
                            if not alts:
                                raise PathEnd('switch')
                            for s2, b in alts[1:]:
                                work.append((s2, dict(env), b, blk, 0))
                            st, nxt = alts[0]
                            break
                        elif op == 'ret':
                            v = None if i.args is None else self.const(i.args[0], i.args[1], st, env)
                            self.stat['paths'] += 1
                            outs.append(('ret', st, v))
                            nxt = 'DONE'
                            break
                        elif op == 'unreachable':
                            self.oblige(st, 'unreachable code reached', False, self.where(i), 'unreachable')
                        else:
                            if op == 'select':
                                c_, a_, b_ = [self.const(x[0] if q else I1, x[1], st, env) for q, x in enumerate(i.args)]
                                if isinstance(c_, z3.ExprRef) and isinstance(a_, (Ptr, Fn)) and isinstance(b_, (Ptr, Fn)) and not (isinstance(a_, Ptr) and isinstance(b_, Ptr) and a_.obj == b_.obj):
                                    # a choice between different objects: explore both
                                    if self.feasible(st, bnot(c_)):
                                        s2 = st.fork()
                                        self.assume(s2, bnot(c_))
                                        e2 = dict(env)
                                        e2[i.dst] = b_
                                        work.append((s2, e2, blk, prev, k + 1))
                                    if not self.feasible(st, c_):
                                        raise PathEnd('select')
                                    self.assume(st, c_)
                                    env[i.dst] = a_
                                    k += 1
                                    continue
                            r = self.instr(st, f, env, i)
                            if i.dst:
                                env[i.dst] = r
                        k += 1
                    if nxt == 'DONE':
                        break
                    if nxt == 'MERGED':
                        continue
                    if nxt is None:
                        raise Unsupported('fell off block')
                    prev, blk = blk, nxt
            except PathEnd:
                continue
        return outs

    def sc_merge(self, st, f, env, blk, cv, ins, J, loopctx):
        """explore both sides of a short-circuit up to J and merge; returns None if not mergeable"""
        mark = len(self.obls)
        outs = []
        for cond, tgt in ((cv, ins.args[1]), (bnot(cv), ins.args[2])):
            if self.valid(st, bnot(cond), 150):
                continue
            s2 = st.fork()
            s2.pc.append(cond)
            self.keep.append(cond)
            try:
                outs += self.run(s2, f, dict(env), tgt, blk, frozenset([J]), 0, loopctx)
            except PathEnd:
                pass
        if any(o[0] != 'stop' for o in outs):
            del self.obls[mark:]
            return None
        if not outs:
            return 'dead'
        blocks = self.mod.blocks(f)[1]
        phis = []
        for i in blocks[J]:
            if i.op != 'phi':
                break
            phis.append(i)
        n = len(st.pc)
        vals = {}
        rows = []
        for o in outs:
            s, e, b, p = o[1], o[2], o[3], o[4]
            row = {}
            for i in phis:
                for v, bb in i.args[1]:
                    if bb == p:
                        row[i.dst] = self.const(i.args[0], v, s, e)
            if any(v is UNDEF for v in row.values()):
                del self.obls[mark:]
                return None
            rows.append((s.pc[n:], row, s))
        if len(rows) == 1:
            return (rows[0][2], rows[0][1])
        m = st
        # memory: lazily materialised cells only; take union
        for pcs, row, s in rows:
            for k, o in s.mem.items():
                if k not in m.mem:
                    m.mem[k] = o
        dom = [z3.And(pcs) if len(pcs) > 1 else pcs[0] for pcs, row, s in rows]
        res = {}
        for i in phis:
            r = None
            if i.args[0] != I1:
                r = rows[-1][1][i.dst]
                for d, (pcs, row, s) in list(zip(dom, rows))[:-1]:
                    r = self.ite(d, row[i.dst], r, i.args[0])
                res[i.dst] = r
                continue
            for d, (pcs, row, s) in zip(dom, rows):
                t = band(d, row[i.dst]) if row[i.dst] is not True else d
                r = t if r is None else bor(r, t)
            if not isinstance(r, bool):
                r = z3.simplify(r)
                if z3.is_true(r):
                    r = True
                elif z3.is_false(r):
                    r = False
                else:
                    self.keep.append(r)
            res[i.dst] = r
        d = z3.simplify(z3.Or(dom))
        if not z3.is_true(d):
            m.pc.append(d)
            self.keep.append(d)
        return (m, res)

    # ---------- plain instructions ----------
    def instr(self, st, f, env, i):
        op, A = i.op, i.args
        if op == 'alloca':
            oid = self.new_obj_id('%s%s' % (f.name, i.dst))
            n = self.mod.size(A[0])
            if A[1] is not None:
                cnt = self.const(A[1][0], A[1][1], st, env)
                n = mul(n, cnt)
            st.mem[oid] = Obj(oid, n, i.dst, 'alloca')
            return Ptr(oid, 0)
        if op == 'load':
            p = self.const(A[1][0], A[1][1], st, env)
            v = self.load(st, p, A[0], i)
            if v is UNDEF and self.mod.rtype(A[0])[0] in ('i', 'ptr') and self.mod.rtype(A[0]) != ('i', 8):
                pass
            if '!range' in i.text and is_val(v) and not is_c(v) and A[0] == ('i', 8):
                self.assume(st, z3.And(v >= 0, v <= 1))
            return v
        if op == 'store':
            v = self.const(A[0][0], A[0][1], st, env)
            p = self.const(A[1][0], A[1][1], st, env)
            self.store(st, p, A[0][0], v, i)
            return None
        if op == 'getelementptr':
            return self.gep(A[0], [(t, self.const(t, x, st, env)) for t, x in A[1]], st)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a = self.const(A[0], A[1], st, env)
            b = self.const(A[0], A[2], st, env)
            return self.binop(st, op, A[0], a, b, A[3], i, self.is_spec(f))
        if op == 'icmp':
            return self.icmp(st, A[0], A[1], self.const(A[1], A[2], st, env), self.const(A[1], A[3], st, env), i)
        if op == 'fcmp':
            a = self.const(A[1], A[2], st, env)
            b = self.const(A[1], A[3], st, env)
            a = self.fresh_fp('u') if a is UNDEF else a
            b = self.fresh_fp('u') if b is UNDEF else b
            return z3.Function('fcmp_' + A[0], FPS, FPS, z3.BoolSort())(a, b)
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
                  'inttoptr', 'bitcast', 'addrspacecast'):
            return self.cast(st, op, A[0], self.const(A[0], A[1], st, env), A[2], i, self.is_spec(f))
        if op == 'select':
            c = self.const(I1, A[0][1], st, env)
            a = self.const(A[1][0], A[1][1], st, env)
            b = self.const(A[2][0], A[2][1], st, env)
            if c is UNDEF:
                c = self.fresh_bool('undef')
            return self.ite(self.known(st, c), a, b, A[1][0])
        if op == 'extractvalue':
            v = self.const(A[0][0], A[0][1], st, env)
            for x in A[1]:
                v = v[x]
            return v
        if op == 'insertvalue':
            v = self.const(A[0][0], A[0][1], st, env)
            x = self.const(A[1][0], A[1][1], st, env)
            def ins(v, idx):
                v = list(v)
                if len(idx) == 1:
                    v[idx[0]] = x
                else:
                    v[idx[0]] = ins(v[idx[0]], idx[1:])
                return v
            return ins(v, A[2])
        if op == 'freeze':
            v = self.const(A[0], A[1], st, env)
            return self.fresh_of(A[0], 'freeze') if v is UNDEF else v
        if op == 'fneg':
            v = self.const(A[0], A[1], st, env)
            return z3.Function('fneg', FPS, FPS)(self.fresh_fp('u') if v is UNDEF else v)
        if op == 'fence':
            return None
        if op == 'atomicrmw':
            p = self.const(A[1][0], A[1][1], st, env)
            v = self.const(A[2][0], A[2][1], st, env)
            old = self.load(st, p, A[2][0], i)
            t = A[2][0]
            if A[0] == 'xchg':
                new = v
            else:
                new = self.binop(st, A[0], t, old, v, frozenset(), i, False)
            self.store(st, p, t, new, i)
            return old
        if op == 'cmpxchg':
            p = self.const(A[0][0], A[0][1], st, env)
            c = self.const(A[1][0], A[1][1], st, env)
            n = self.const(A[2][0], A[2][1], st, env)
            old = self.load(st, p, A[1][0], i)
            eq = self.icmp(st, 'eq', A[1][0], old, c, i)
            if eq is True:
                self.store(st, p, A[2][0], n, i)
            elif eq is not False:
                self.store(st, p, A[2][0], self.ite(eq, n, old), i)
            return [old, eq]
        if op == 'asm':
            return None
        if op == 'extractelement':
            v = self.const(A[0][0], A[0][1], st, env)
            k = self.const(A[1][0], A[1][1], st, env)
            return v[k]
        if op == 'insertelement':
            v = list(self.const(A[0][0], A[0][1], st, env))
            v[self.const(A[2][0], A[2][1], st, env)] = self.const(A[1][0], A[1][1], st, env)
            return v
        if op in ('landingpad', 'resume'):
            raise PathEnd('exception path')
        raise Unsupported('instr %s' % i)

    # ---------- calls ----------
    def call(self, st, f, env, i):
        rt, cal, args, _, _ = i.args
        vals = [self.const(t, v, st, env) if v[0] != 'md' else None for t, v, a in args]
        if cal[0] == 'g':
            name = self.mod.resolve_fn(cal[1])
        else:
            cv = self.const(('ptr',), cal, st, env)
            if isinstance(cv, Ptr) and cv.obj == 0:
                self.oblige(st, 'call through null pointer', False, self.where(i), 'bounds')
            if not isinstance(cv, Fn):
                raise Unsupported('indirect call at %s (%s)' % (self.where(i), cv))
            name = self.mod.resolve_fn(cv.name)
        # assertion macro of the code base
        if name.startswith('@_ZN4dlaf8internal9do_assertI'):
            g = vals[0]
            if g is UNDEF:
                g = False
            expr = self.cstring(vals[2], st)
            if self.getflag(st, 'allow_abort'):
                # the contract allows the call to be rejected: the failing case ends here
                self.stat['aborts'] = self.stat.get('aborts', 0) + 1
                self.assume(st, g)
                return [(st, None)]
            self.oblige(st, 'DLAF_ASSERT(%s)' % expr, g, self.where(i), 'assert')
            return [(st, None)]
        if name.startswith('@_ZN4dlaf8internal20invalid_option_valueI') or name in ('@_ZSt9terminatev', '@abort', '@__assert_fail', '@_ZSt10unexpectedv', '@exit'):
            if self.getflag(st, 'allow_abort'):
                return []
            self.oblige(st, 'abort reached: %s' % self.demangle.get(name, name)[:90], False, self.where(i), 'assert')
            return []
        if name in ('@__cxa_throw', '@__cxa_rethrow') or re.match(r'@_ZSt\d+__throw_', name):
            self.stat['throws'] += 1
            if self.opts.get('nothrow'):
                self.oblige(st, 'exception thrown', False, self.where(i), 'throw')
            return []
        if NOOPS.match(name):
            return [(st, None)]
        if OPAQUE.match(name):
            return self.opaque(st, name, rt, args, vals, i)
        if name.startswith('@vc_'):
            r = self.intrinsic(st, name[4:], vals, i, f, env)
            if r is not NotImplemented:
                return r
        con = self.contracts.get(name)
        caller_spec = self.is_spec(f)
        if con is not None:
            is_target = name in self.targets and caller_spec and self.mode[-1] == 'proof'
            if not is_target and name not in self.inline_only:
                if caller_spec:
                    self.check_arg_range(st, args, vals, i)
                self.contract_used.add(name)
                self.mode.append('call')
                self.callsite = self.where(i)
                try:
                    rs = self.exec_fn(st, con, vals, i)
                finally:
                    self.mode.pop()
                return rs
        fn = self.mod.funcs.get(name)
        b = self.builtin(st, name, vals, i, fn, f)
        if b is not NotImplemented:
            return b
        if fn is None or fn.is_decl:
            raise Unsupported('external function %s at %s' % (name, self.where(i)))
        if caller_spec and not self.is_spec(fn):
            self.check_arg_range(st, args, vals, i)
        return self.exec_fn(st, name, vals, i)

    def getflag(self, st, nm):
        o = st.mem.get(('flag', nm))
        return bool(o and o.cells.get(0))

    def opaque(self, st, name, rt, args, vals, i):
        """std::string / iostream formatting: no effect on anything but its own result"""
        self.model_used.add('std::string / iostream formatting treated as opaque')
        for (t, _, at), v in zip(args, vals):
            if at.get('sret') is not None and isinstance(v, Ptr):
                n = self.mod.size(at['sret'])
                o = self.getobj(st, v.obj).clone()
                self.clear(o, v.off, n)
                o.backing = [(v.off, v.off + n, Provider(self.uniq('opaque'), self), v.off)] + o.backing
                st.mem[v.obj] = o
        r = self.mod.rtype(rt)
        if r[0] == 'void':
            return [(st, None)]
        if r[0] == 'ptr':
            return [(st, vals[0] if vals and isinstance(vals[0], Ptr) else NULL)]
        if r == ('i', 1):
            return [(st, self.fresh_bool('opaque'))]
        if r[0] == 'i':
            return [(st, self.fresh_int('opaque', r[1]))]
        raise Unsupported('opaque %s' % name)

    def check_arg_range(self, st, args, vals, i):
        for (t, _, _), v in zip(args, vals):
            rt = self.mod.rtype(t)
            if rt[0] == 'i' and rt[1] > 1 and is_val(v):
                g = self.inrange(v, rt[1])
                if g is not True:
                    self.oblige(st, 'spec argument representable', g, self.where(i), 'overflow')

    def builtin(self, st, name, vals, i, fn, f):
        n = name[1:]
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
            self.memcpy(st, vals[0], vals[1], vals[2], i)
            return [(st, vals[0])]
        if n.startswith('llvm.memset') or n == 'memset':
            self.memset(st, vals[0], vals[1], vals[2], i)
            return [(st, vals[0])]
        if n.startswith('llvm.smax') or n.startswith('llvm.smin') or n.startswith('llvm.umax') or n.startswith('llvm.umin'):
            a, b = vals[:2]
            ty = i.args[0]
            c = self.icmp(st, n[5] + ('gt' if 'max' in n[:9] else 'lt'), ty, a, b, i)
            return [(st, self.ite(c, a, b, ty))]
        if n.startswith('llvm.abs'):
            c = self.cmp('slt', vals[0], 0)
            return [(st, self.ite(c, sub(0, vals[0]), vals[0]))]
        if n.startswith('llvm.') and n.split('.')[1] in ('smul', 'sadd', 'ssub', 'umul', 'uadd', 'usub') and 'with.overflow' in n:
            k = n.split('.')[1]
            bits = self.mod.rtype(i.args[0])[1][0][1] if self.mod.rtype(i.args[0])[0] == 'struct' else 64
            a, b = vals
            if k[0] == 'u':
                a, b = self.unsigned(st, a, bits), self.unsigned(st, b, bits)
            r = {'mul': mul, 'add': add, 'sub': sub}[k[1:]](a, b)
            if k[0] == 's':
                g = self.inrange(r, bits)
            else:
                g = (0 <= r < (1 << bits)) if is_c(r) else z3.And(Z(r) >= 0, Z(r) < (1 << bits))
            return [(st, [self.wrap(st, r, bits), bnot(g)])]
        if n.startswith('llvm.expect') or n.startswith('llvm.launder') or n.startswith('llvm.strip'):
            return [(st, vals[0])]
        if n.startswith('llvm.umul') or n.startswith('llvm.trap'):
            self.oblige(st, 'trap', False, self.where(i), 'assert')
            return []
        if n.startswith('llvm.ctlz') or n.startswith('llvm.ctpop') or n.startswith('llvm.cttz'):
            raise Unsupported(n)
        if n.startswith('llvm.is.constant'):
            return [(st, False)]
        if n.startswith('llvm.objectsize'):
            return [(st, -1)]
        if n.startswith('llvm.fabs') or n.startswith('llvm.fmuladd') or n.startswith('llvm.sqrt') or n.startswith('llvm.f') or n.startswith('llvm.lround') or n.startswith('llvm.llround') or n in (
                'sqrt', 'lround', 'lroundf', 'log2', 'pow', 'hypot', 'fabs', 'sqrtf', 'llround', 'round', 'ceil', 'floor', 'fma'):
            args = [z3.Const('fpu', FPS) if v is UNDEF else (Z(v) if is_val(v) else v) for v in vals]
            srt = FPS if i.args[0][0] == 'f' else z3.IntSort()
            fun = z3.Function('ext_' + n, *([a.sort() for a in args] + [srt]))
            r = fun(*args)
            if srt != FPS:
                self.assume(st, z3.And(r >= -(1 << 63), r < (1 << 63)))
            return [(st, r)]
        if re.match(r'_Znwm|_Znam|malloc$|aligned_alloc$|_ZnwmSt11align_val_t|_ZnamSt11align_val_t', n):
            sz = vals[1] if n == 'aligned_alloc' else vals[0]
            oid = self.new_obj_id('heap')
            o = Obj(oid, sz if not isinstance(sz, Undef) else None, 'heap', 'heap')
            st.mem[oid] = o
            return [(st, Ptr(oid, 0))]
        if re.match(r'_ZdlPv|_ZdaPv|free$', n):
            p = vals[0]
            if isinstance(p, Ptr) and p.obj:
                o = self.getobj(st, p.obj).clone()
                if not o.alive:
                    self.oblige(st, 'double free', False, self.where(i), 'bounds')
                o.alive = False
                st.mem[p.obj] = o
            return [(st, None)]
        if n == '__cxa_guard_acquire':
            o = vals[0]
            v = self.load(st, o, ('i', 8), i)
            if is_c(v) and v != 0:
                return [(st, 0)]
            self.store(st, o, ('i', 8), 1, i)
            return [(st, 1)]
        if n in ('__cxa_guard_release', '__cxa_atexit', '__gxx_personality_v0', '__cxa_begin_catch', '__cxa_end_catch', '__cxa_free_exception'):
            return [(st, 0)]
        if n == '__cxa_allocate_exception':
            oid = self.new_obj_id('exc')
            st.mem[oid] = Obj(oid, None, 'exc', 'heap')
            return [(st, Ptr(oid, 0))]
        if re.match(r'_ZNSt12length_errorC|_ZNSt13runtime_errorC|_ZNSt11logic_errorC|_ZNSt16invalid_argumentC|_ZNSt12out_of_rangeC', n):
            return [(st, None)]
        if n == 'strlen':
            s = self.cstring(vals[0], st)
            return [(st, len(s))]
        if n.startswith('__clang_call_terminate'):
            return []
        return NotImplemented

    def name_of(self, st, p):
        return self.cstring(p, st) if isinstance(p, Ptr) else '?'

    def intrinsic(self, st, n, vals, i, f, env):
        if n in ('any_i64', 'any_i32', 'any_u64', 'any_u32', 'any_i8'):
            nm = self.name_of(st, vals[0])
            bits = {'any_i64': 64, 'any_i32': 32, 'any_u64': 64, 'any_u32': 32, 'any_i8': 8}[n]
            s = self.fresh_int(nm, bits)
            if self.mode[-1] == 'proof' and not self.suppress:
                self.inputs.append((nm, s))
            return [(st, s)]
        if n == 'range':
            nm = self.name_of(st, vals[0])
            bits = self.mod.rtype(i.args[0])[1]
            lo, hi = vals[1], vals[2]
            if is_c(lo) and is_c(hi):
                s = self.fresh_int(nm, None, lo, hi)
            else:
                s = self.fresh_int(nm, bits)
                self.assume(st, z3.And(s >= Z(lo), s <= Z(hi)))
            if self.mode[-1] == 'proof' and not self.suppress:
                self.inputs.append((nm, s))
            return [(st, s)]
        if n == 'any_bool':
            nm = self.name_of(st, vals[0])
            s = self.fresh_bool(nm)
            if self.mode[-1] == 'proof' and not self.suppress:
                self.inputs.append((nm, s))
            return [(st, s)]
        if n == 'any_f64':
            return [(st, self.fresh_fp(self.name_of(st, vals[0])))]
        if n == 'assume':
            self.assume(st, vals[0])
            return [(st, None)]
        if n == 'assert':
            self.oblige(st, self.name_of(st, vals[1]), vals[0], self.where(i), 'post')
            return [(st, None)]
        if n == 'requires':
            nm = self.name_of(st, vals[1])
            if self.mode[-1] == 'call':
                self.oblige(st, 'precondition %s' % nm, vals[0], self.callsite, 'pre')
            else:
                self.assume(st, vals[0])
            return [(st, None)]
        if n == 'ensures':
            nm = self.name_of(st, vals[1])
            if self.mode[-1] == 'call':
                self.assume(st, vals[0])
            else:
                self.oblige(st, nm, vals[0], self.where(i), 'post')
            return [(st, None)]
        if n == 'call_mode':
            return [(st, self.mode[-1] == 'call')]
        if n == 'fold':
            # ghost: the cell holds a value proved equal to a given closed form; from here on it is represented by that form
            p, g, nb = vals[0], vals[1], vals[2]
            ty = ('i', 8 * nb)
            cur = self.load(st, p, ty, i)
            if cur is UNDEF or not is_val(cur):
                return [(st, None)]
            if not (is_c(cur) and is_c(g) and cur == g):
                gl = self.inrange(g, 8 * nb)
                if self.name_of(st, vals[3]).startswith('?'):
                    # only where it can be proved here
                    eq = z3.simplify(z3.And(Z(cur) == Z(g), B(gl)))
                    from solve import Discharger
                    if not hasattr(self, '_dis'):
                        self._dis = Discharger(self)
                    if not z3.is_false(eq) and self._dis.quick(list(st.pc), eq):
                        self.store(st, p, ty, g, i)
                    return [(st, None)]
                if gl is not True:
                    self.oblige(st, 'closed form representable', gl, self.where(i), 'post')
                self.oblige(st, self.name_of(st, vals[3]), z3.simplify(Z(cur) == Z(g)), self.where(i), 'post')
                self.store(st, p, ty, g, i)
            return [(st, None)]
        if n == 'entry':
            # value of a cell when the loop whose invariant is being evaluated was entered
            s0 = self.cur_entry
            if s0 is None:
                raise Unsupported('vc_entry outside a loop invariant')
            return [(st, self.load(s0.fork(), vals[0], ('i', 8 * vals[1]), i))]
        if n == 'forget':
            # ghost weakening: the integer at p becomes arbitrary (x is an otherwise unused arbitrary value)
            self.store(st, vals[0], ('i', 8 * vals[1]), vals[2], i)
            return [(st, None)]
        if n == 'mark':
            fr = self.frames[-1]
            fr['mark'] = None if 'mark' in fr else (list(st.pc), set(st.mem))
            return [(st, None)]
        if n == 'merge':
            return self.merge_point(st, f, env, i)
        if n == 'verifying':
            return [(st, True)]
        if n == 'cover':
            nm = self.name_of(st, vals[0])
            if not self.suppress:
                self.covers.setdefault(nm, []).append(list(st.pc))
            return [(st, None)]
        if n == 'unreachable':
            self.oblige(st, self.name_of(st, vals[0]), False, self.where(i), 'post')
            return []
        if n == 'havoc':
            p, sz = vals[0], vals[1]
            nm = self.name_of(st, vals[2])
            if is_c(sz) and sz == 0:
                return [(st, None)]
            o = self.getobj(st, p.obj).clone()
            if is_c(sz) and is_c(p.off) and o.sym is None:
                self.clear(o, p.off, sz)
                o.backing = [(p.off, p.off + sz, Provider(self.uniq(nm), self), 0 if p.off == 0 else p.off)] + o.backing
                o.alive = True
            else:
                if self.valid(st, Z(sz) == 0, 200):
                    return [(st, None)]
                o = self.access(st, p, sz if is_c(sz) else Z(sz), i, 'havoc')
                if o.sym is None:
                    ty = next((c[1] for c in o.cells.values()), ('i', 64))
                    o = self.make_sym(st, o, self.mod.size(ty), ty)
                o = o.clone()
                fn = z3.Function(self.uniq('hvc:' + nm), z3.IntSort(), self.sort_of(o.sym.ty))
                o.sym = SymMem(o.sym.base, o.sym.esize, o.sym.ty, ('hvc', o.sym.log, p.off, sz, fn))
            st.mem[p.obj] = o
            return [(st, None)]
        if n == 'alloc':
            # fresh object with symbolic contents and given (possibly symbolic) byte size
            nm = self.name_of(st, vals[1])
            oid = self.new_obj_id(nm)
            o = Obj(oid, vals[0], nm, 'heap')
            o.backing = [(0, None, Provider(self.uniq(nm), self), 0)]
            st.mem[oid] = o
            return [(st, Ptr(oid, 0))]
        if n == 'loop_inv':
            self.loop_hints.append((self.name_of(st, vals[0]), vals[1], vals[2].name))
            return [(st, None)]
        if n == 'loop_try':
            self.loop_hints.append((self.name_of(st, vals[0]), -2, vals[1].name))
            return [(st, None)]
        if n == 'join':
            self.join_hints.append(self.name_of(st, vals[0]))
            return [(st, None)]
        if n == 'unroll':
            self.unroll_hints.append((self.name_of(st, vals[0]), vals[1]))
            return [(st, None)]
        if n == 'split':
            # case split hint (no logical effect)
            c = vals[0]
            if isinstance(c, bool):
                return [(st, None)]
            outs = []
            for x in (c, bnot(c)):
                if self.feasible(st, x):
                    s2 = st.fork()
                    self.assume(s2, x)
                    outs.append((s2, None))
            return outs
        if n == 'lemma':
            # proof hint: used only if it can be proved here
            g = vals[0]
            if isinstance(g, bool) or self.suppress:
                return [(st, None)]
            from solve import Discharger
            if not hasattr(self, '_dis'):
                self._dis = Discharger(self)
            key = ('lem', g.get_id(), frozenset(p.get_id() for p in st.pc))
            r = self.validcache.get(key)
            if r is None:
                r = self._dis.quick(list(st.pc), g)
                self.validcache[key] = r
            self.stat['lemmas'] = self.stat.get('lemmas', 0) + 1
            if r:
                self.stat['lemmas_proved'] = self.stat.get('lemmas_proved', 0) + 1
                self.assume(st, g)
            elif os.environ.get('VC_DEBUG'):
                print('LEMMA FAILED', self.where(i), g)
            return [(st, None)]
        if n == 'allow_abort':
            o = Obj(('flag', 'allow_abort'), None, 'flag', 'map')
            v = vals[0]
            if not isinstance(v, bool):
                raise Unsupported('allow_abort flag must be concrete')
            o.cells[0] = v
            st.mem[('flag', 'allow_abort')] = o
            return [(st, None)]
        if n == 'same':
            # pointer identity test
            return [(st, self.icmp(st, 'eq', ('ptr',), vals[0], vals[1], i))]
        if n == 'alive':
            o = self.getobj(st, vals[0].obj)
            return [(st, o.alive)]
        if n == 'live_heap':
            return [(st, sum(1 for o in st.mem.values() if o.kind == 'heap' and o.alive))]
        if n == 'obj_size':
            o = self.getobj(st, vals[0].obj)
            return [(st, o.size)]
        if n == 'ptr_off':
            return [(st, vals[0].off)]
        if n.startswith('mem_i64') or n.startswith('mem_i32'):
            # read memory without side conditions
            pass
        if n in ('map_get', 'map_set', 'map_havoc'):
            return self.map_op(st, n, vals, i)
        return NotImplemented

    def merge_point(self, st, f, env, i):
        """join point: paths that reach it with the same live values and memory continue as one, with the path condition of
        the enclosing vc_mark() (a weakening: the continuation is verified for a superset of the states)"""
        fr = self.frames[-1]
        mk = fr.get('mark')
        if mk is None or self.suppress:
            return [(st, None)]
        pc0, keys = mk
        def vk(v):
            if isinstance(v, z3.ExprRef):
                self.keep.append(v)
                return ('e', v.get_id())
            if isinstance(v, Ptr):
                if v.obj not in keys and v.obj != 0 and getattr(st.mem.get(v.obj), 'kind', 'global') != 'global':
                    raise Unsupported('new object')
                return ('p', v.obj, vk(v.off))
            if isinstance(v, Fn):
                return ('f', v.name)
            if isinstance(v, (list, tuple)):
                return tuple(vk(x) for x in v)
            if isinstance(v, Packed):
                return ('k', tuple(vk(x) for x in v.parts))
            if v is UNDEF or v is None or isinstance(v, (int, bool, str, bytes)):
                return ('c', type(v).__name__, v if v is not UNDEF else 'undef')
            raise Unsupported('value %r' % (v,))
        live = set()
        blocks = self.mod.blocks(f)[1]
        def ops(x):
            if isinstance(x, str):
                if x in env:
                    live.add(x)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    ops(y)
        todo, seen = [], set()
        for b, ins in blocks.items():
            for k, j in enumerate(ins):
                if j is i:
                    for t in ins[k + 1:]:
                        ops(t.args)
                    todo += self.cfg(f)['succ'][b]
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            for t in blocks[b]:
                ops(t.args)
            todo += self.cfg(f)['succ'][b]
        try:
            sig = [tuple((x, vk(env[x])) for x in sorted(live))]
            for k in sorted(st.mem, key=str):
                o = st.mem[k]
                if k not in keys and o.kind not in ('global', 'map', 'flag'):
                    if o.kind == 'heap' and o.alive:
                        raise Unsupported('new object')
                    continue
                if k not in keys and o.kind == 'global' and self.mod.global_info(o.name)['const']:
                    continue
                cells = tuple(sorted((off, c[0], str(c[1]), vk(c[2])) for off, c in o.cells.items()))
                sig.append((str(k), vk(o.size), o.alive, o.zero, id(o.sym) if o.sym else None, tuple((vk(b[0]), vk(b[1]), id(b[2]), vk(b[3])) for b in o.backing), cells))
                if o.sym:
                    self.keep.append(o.sym)
            sig = (id(i), tuple(sig))
        except Unsupported as e:
            if os.environ.get('VC_DEBUG'):
                print('NO MERGE', e)
            return [(st, None)]
        tab = fr.setdefault('merged', set())
        self.stat['merges'] = self.stat.get('merges', 0) + 1
        if sig in tab:
            return []
        if os.environ.get('VC_DEBUG') and tab:
            def diff(a, b, path):
                if a == b:
                    return
                if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and not (len(a) == 2 and a[0] == 'e'):
                    for n, (x, y) in enumerate(zip(a, b)):
                        diff(x, y, path + (n,))
                else:
                    print('   ', path, a if not isinstance(a, tuple) or len(str(a)) < 80 else str(a)[:80], b if len(str(b)) < 80 else str(b)[:80])
                    for x in (a, b):
                        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'e':
                            e = next((y for y in self.keep if isinstance(y, z3.ExprRef) and y.get_id() == x[1]), None)
                            print('        ', str(e)[:300].replace(chr(10), ' '))
            print('MERGE: new state', self.where(i))
            diff(next(iter(tab)), sig, ())
        tab.add(sig)
        st.pc = list(pc0)
        return [(st, None)]

    # ghost maps keyed by an id; stored as SymMem-like logs in st.mem under ('map', id)
    def map_op(self, st, n, vals, i):
        mid = ('map', vals[0])
        m = st.mem.get(mid)
        if m is None:
            base = z3.Function(self.uniq('map%d' % vals[0]), *([z3.IntSort()] * 4))
            m = Obj(mid, None, 'map', 'map')
            m.sym = SymMem(base, 0, None, ('init', vals[0]))
            st.mem[mid] = m
        key = [Z(v) for v in vals[1:4]]
        if n == 'map_set':
            m2 = m.clone()
            m2.sym = SymMem(m.sym.base, 0, None, ('w', m.sym.log, key, vals[4]))
            st.mem[mid] = m2
            return [(st, None)]
        return [(st, self.map_read(st, m, key))]

    def map_read(self, st, m, key):
        log = m.sym.log
        conds = []
        while True:
            if log[0] == 'w':
                eqs = [z3.simplify(a == b) for a, b in zip(key, log[2])]
                if any(z3.is_false(e) for e in eqs):
                    log = log[1]
                    continue
                eqs = [e for e in eqs if not z3.is_true(e)]
                if not eqs:
                    v = log[3]
                    break
                c = z3.And(eqs) if len(eqs) > 1 else eqs[0]
                if self.valid(st, c, 200):
                    v = log[3]
                    break
                if self.valid(st, bnot(c), 200):
                    log = log[1]
                    continue
                conds.append((c, log[3]))
                log = log[1]
                continue
            if log[0] == 'init':
                v = self.map_init(st, log[1], m.sym.base, key)
                break
            if log[0] == 'havoc':
                v = log[1](*key)
                for fact in log[2]:
                    fact(st, key, v)
                break
            raise Unsupported('map log')
        for c, wv in reversed(conds):
            v = self.ite(c, wv, v)
        return v

    def map_init(self, st, mid, base, key):
        # ids from 100: arbitrary; otherwise 0
        return base(*key) if isinstance(mid, int) and mid >= 100 else 0

    # ---------- loops ----------
    def loop(self, st, f, env, h, prev, stops, loopctx):
        L = self.cfg(f)['loops'][h]
        fname = self.demangle.get(f.name, f.name)
        maxun = 64
        force_unroll = None
        for rx, n in self.unroll_hints:
            if re.search(rx, fname):
                force_unroll = n
        snap = st.fork()
        snap_env = dict(env)
        mark = len(self.obls)
        ninp = len(self.inputs)
        # 1. unroll while the continuation is decided
        outside = frozenset(b for b in self.cfg(f)['succ'] if b not in L)
        cur = [(st, env, prev)]
        exits = []
        seeded = (fname, h) in self.loop_seed
        it = 0
        need_inv = False
        while cur:
            nxt = []
            for s, e, p in cur:
                if it < 2 and force_unroll is None and self.undecided(s, f, e, h, p, L, outside, loopctx):
                    need_inv = True
                    break
                self.solver_decided.discard((f.name, h))
                outs = self.run_loop_body(s, f, e, h, p, L, outside, loopctx)
                if seeded and it >= 2 and force_unroll is None and (f.name, h) in self.solver_decided:
                    # a loop that needed an invariant before: do not follow it iteration by iteration
                    need_inv = True
                    break
                backs = [o for o in outs if o[0] == 'stop' and o[3] == h]
                exs = [o for o in outs if not (o[0] == 'stop' and o[3] == h)]
                if backs and exs and force_unroll is None:
                    # undecided iff the exit depends on a symbolic condition
                    need_inv = True
                exits += exs
                nxt += [(o[1], o[2], o[4]) for o in backs]
            if need_inv:
                break
            cur = nxt
            it += 1
            if os.environ.get('VC_DEBUG') and it > 2: print('unrolled', it, fname[:60], self.cfg(f)['headers'].index(h), len(cur))
            if cur and it >= (force_unroll or maxun):
                if force_unroll is not None:
                    # bounded stand-in
                    self.bounded_notes.append('%s loop cut after %d iterations (bounded)' % (fname, it))
                    break
                need_inv = True
                break
        if not need_inv:
            return exits
        del self.obls[mark:]
        del self.inputs[ninp:]
        return self.loop_inv(snap, f, snap_env, h, prev, L, outside, stops, loopctx, fname)

    def undecided(self, st, f, env, h, prev, L, outside, loopctx):
        """does the loop header leave open whether there is another iteration"""
        succ = self.cfg(f)['succ'][h]
        inside = [b for b in succ if b in L]
        if len(inside) != 1 or len(succ) != 2 or inside[0] == h:
            return False
        self.suppress += 1
        try:
            outs = self.run_loop_body(st.fork(), f, dict(env), h, prev, L, outside | set(inside), loopctx)
        except PathEnd:
            return False
        finally:
            self.suppress -= 1
        t = {o[3] for o in outs if o[0] == 'stop'}
        return inside[0] in t and bool(t - set(inside))

    def run_loop_body(self, st, f, env, h, prev, L, outside, loopctx):
        """one iteration from header: stops at header (back edge) or outside blocks"""
        c = self.cfg(f)
        blocks = self.mod.blocks(f)[1]
        # execute header block's phis here, then continue with stop at h
        ins = blocks[h]
        k = 0
        ph = []
        while ins[k].op == 'phi':
            for v, b in ins[k].args[1]:
                if b == prev or prev == b + '$first':
                    ph.append((ins[k].dst, self.const(ins[k].args[0], v, st, env)))
                    break
            k += 1
        for d, v in ph:
            env[d] = v
        if k == 0:
            k = -1
        return self.run_from(st, f, env, h, prev, outside | {h}, k, loopctx + (h,))

    def run_from(self, st, f, env, h, prev, stops, k, loopctx):
        # start index k within header; use start=k (k==-1 means index 0 without stop check)
        if k == -1:
            k = 0
            return self.run_nostop_first(st, f, env, h, prev, stops, loopctx)
        return self.run(st, f, env, h, prev, stops, k, loopctx)

    def run_nostop_first(self, st, f, env, h, prev, stops, loopctx):
        # insert a virtual phi-free start: execute first instruction manually then continue
        blocks = self.mod.blocks(f)[1]
        i = blocks[h][0]
        if i.op in ('br', 'switch', 'ret', 'invoke', 'call', 'unreachable'):
            # run with stop check disabled by using start=0 on a copy of the block name
            alias = h + '$first'
            if alias not in blocks:
                blocks[alias] = blocks[h]
                c = self.cfg(f)
                c['succ'][alias] = c['succ'][h]
                c['idx'][alias] = c['idx'][h]
                c['pred'][alias] = []
            return self.run_alias(st, f, env, h, alias, prev, stops, loopctx)
        r = self.instr(st, f, env, i)
        if i.dst:
            env[i.dst] = r
        return self.run(st, f, env, h, prev, stops, 1, loopctx)

    def run_alias(self, st, f, env, h, alias, prev, stops, loopctx):
        outs = self.run(st, f, env, alias, prev, stops, 0, loopctx)
        # the predecessor recorded may be the alias; phis refer to h
        res = []
        for o in outs:
            if o[0] == 'stop' and o[4] == alias:
                o = (o[0], o[1], o[2], o[3], h)
            res.append(o)
        return res

    def changed(self, a, b):
        """do two values differ (syntactically)"""
        if a is b:
            return False
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.eq(b):
                return False
            try:
                return not z3.is_true(z3.simplify(a == b))
            except z3.Z3Exception:
                return True
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.obj != b.obj or self.changed(a.off, b.off)
        if isinstance(a, Fn) and isinstance(b, Fn):
            return a.name != b.name
        if isinstance(a, Packed) and isinstance(b, Packed):
            return len(a.parts) != len(b.parts) or any(x[0] != y[0] or self.changed(x[1], y[1]) for x, y in zip(a.parts, b.parts))
        if is_c(a) and isinstance(b, z3.ArithRef) or is_c(b) and isinstance(a, z3.ArithRef):
            return not z3.is_true(z3.simplify(Z(a) == Z(b)))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) != len(b) or any(self.changed(x, y) for x, y in zip(a, b))
        return a != b

    def loop_inv(self, st, f, env, h, prev, L, outside, stops, loopctx, fname):
        blocks = self.mod.blocks(f)[1]
        hidx = self.cfg(f)['headers'].index(h)
        hints = [fn for rx, ix, fn in self.loop_hints if re.search(rx, fname) and (ix == -1 or ix == hidx)]
        tries = [fn for rx, ix, fn in self.loop_hints if ix == -2 and re.search(rx, fname)]
        phis = []
        for i in blocks[h]:
            if i.op != 'phi':
                break
            for v, b in i.args[1]:
                if b == prev or prev == b + '$first':
                    phis.append((i.dst, i.args[0], self.const(i.args[0], v, st, env)))
                    break
        born0 = dict(self.cnt)
        vars = {}      # key -> (type, initial value)
        for d, t, v0 in phis:
            vars[('phi', d)] = (self.mod.rtype(t), v0)
        forms = {}     # key -> coefficient term c : value = v0 + c*k
        symobjs = {}   # objects havoced wholesale (sym memory)
        mods = {}
        tag = self.uniq('L')
        base_syms = set(self.defs) 
        objs0 = set(st.mem)
        self.suppress += 1
        ok = False
        failed_forms = set()
        preds_ok = None
        # start from what an earlier analysis of this loop found (only a guess: everything is checked below)
        seed = self.loop_seed.get((fname, h))
        if seed:
            for key, t in seed[0]:
                if key in vars or key[0] != 'cell':
                    continue
                o = st.mem.get(key[1])
                if o is None or o.sym is not None or isinstance(key[1], tuple):
                    continue
                c = o.cells.get(key[2])
                if c is not None:
                    if c[0] == key[3]:
                        vars[key] = (t, c[2])
                elif not o.backing and not any(x < key[2] + key[3] and key[2] < x + cx[0] for x, cx in o.cells.items()):
                    vars[key] = (t, self.zero_val(t) if o.zero else UNDEF)
            for oid, info in seed[2].items():
                o = st.mem.get(oid)
                if o is not None and (info is not True or o.sym is not None):
                    symobjs[oid] = info
            for key, c in seed[1].items():
                if key in vars and vars[key][1] is not UNDEF and is_c(c):
                    forms[key] = c
        try:
            for rnd in range(25):
                hs, henv, k, fresh = self.havoc_state(st, env, vars, forms, symobjs, tag)
                self.assume(hs, k >= 0)
                npc = len(hs.pc)
                self.inv_facts(hs, k, hints, vars, forms, st, None)
                outs = self.run_loop_body_at(hs, f, henv, h, L, outside, loopctx)
                backs = [o for o in outs if o[0] == 'stop' and o[3] == h]
                if os.environ.get('VC_DEBUG'): print('round', rnd, fname[:60], hidx, 'outs', len(outs), 'back', len(backs), '%.1f' % time.time(), 'vars', len(vars), 'forms', len(forms))
                if os.environ.get('VC_PATHS') and rnd == 0:
                    al = [set(x.get_id() for x in o[1].pc) for o in backs]
                    for o in backs:
                        print('PATH', [str(x)[:100] for x in o[1].pc[npc:] if not all(x.get_id() in a for a in al)])
                chg = False
                cand = {}
                for o in backs:
                    s2, e2, p2 = o[1], o[2], o[4]
                    # phis
                    newphi = {}
                    for i in blocks[h]:
                        if i.op != 'phi':
                            break
                        for v, b in i.args[1]:
                            if b == p2:
                                newphi[i.dst] = self.const(i.args[0], v, s2, e2)
                    for key, (t, v0) in vars.items():
                        if key not in fresh:
                            continue
                        if key[0] == 'phi':
                            cand.setdefault(key, []).append((fresh[key], newphi[key[1]]))
                        else:
                            o2 = s2.mem.get(key[1])
                            c2 = o2.cells.get(key[2]) if o2 else None
                            cand.setdefault(key, []).append((fresh[key], c2[2] if c2 and c2[0] == key[3] else None))
                    for oid, ob in s2.mem.items():
                        if oid not in objs0 or hs.mem.get(oid) is ob:
                            continue
                        oa = hs.mem[oid]
                        if oa.alive != ob.alive:
                            raise Unsupported('object freed in loop')
                        if isinstance(oid, tuple):
                            if oa.sym is not ob.sym and oid not in symobjs:
                                symobjs[oid] = True
                                chg = True
                            continue
                        if (oa.sym is None) != (ob.sym is None) or (oa.sym is not None and oa.sym.log is not ob.sym.log):
                            if oid not in symobjs:
                                symobjs[oid] = (ob.sym.esize, ob.sym.ty) if ob.sym is not None else True
                                chg = True
                            continue
                        if oid in symobjs:
                            continue
                        for off in set(oa.cells) | set(ob.cells):
                            ca, cb = oa.cells.get(off), ob.cells.get(off)
                            if ca is cb:
                                continue
                            if cb is None:
                                # erased: treat as modified
                                key = ('cell', oid, off, ca[0])
                                if key not in vars:
                                    vars[key] = (ca[1], ca[2])
                                    chg = True
                                continue
                            if ca is None:
                                # lazily materialised or newly written
                                bk = [x for x in oa.backing if x[0] <= off and (x[1] is None or off + cb[0] <= x[1])]
                                if bk:
                                    v = bk[0][2].get(off - bk[0][3], cb[1])
                                    if not self.changed(v, cb[2]):
                                        continue
                                    init = v
                                else:
                                    init = UNDEF
                                    if oa.zero:
                                        init = self.zero_val(cb[1])
                                key = ('cell', oid, off, cb[0])
                                if key not in vars:
                                    vars[key] = (cb[1], init)
                                    chg = True
                                continue
                            if self.changed(ca[2], cb[2]) or ca[0] != cb[0]:
                                key = ('cell', oid, off, cb[0])
                                if key not in vars:
                                    vars[key] = (cb[1], ca[2])
                                    chg = True
                if chg:
                    continue
                # closed forms
                for key, prs in cand.items():
                    if key in failed_forms or key in forms and not (seed and key in seed[1]):
                        continue
                    t, v0 = vars[key]
                    if v0 is UNDEF:
                        continue
                    delta = None
                    good = True
                    for old, new in prs:
                        if isinstance(old, Ptr) and isinstance(new, Ptr) and old.obj == new.obj:
                            d = z3.simplify(Z(new.off) - Z(old.off))
                        elif is_val(old) and is_val(new):
                            d = z3.simplify(Z(new) - Z(old))
                        elif isinstance(old, (Ptr, Fn)) or isinstance(new, (Ptr, Fn)) or old is None or new is None:
                            good = not self.changed(old, new) and old is not None
                            d = z3.IntVal(0)
                        else:
                            good = False
                            break
                        if delta is None:
                            delta = d
                        elif not delta.eq(d):
                            good = False
                    if good and delta is not None:
                        ss = self.syms(delta, set())
                        if any(s.startswith(tag + '.') for s in ss) or any(s not in base_syms for s in ss if s in self.defs):
                            good = False
                    if good and delta is not None:
                        nf = delta.as_long() if z3.is_int_value(delta) else delta
                        if key in forms and not self.changed(forms[key], nf):
                            continue
                        if key in forms:
                            # a guess from an earlier analysis was wrong
                            del forms[key]
                            failed_forms.add(key)
                        else:
                            forms[key] = nf
                        chg = True
                    elif key in forms:
                        del forms[key]
                        failed_forms.add(key)
                        chg = True
                if chg:
                    continue
                ok = True
                break
            if not ok:
                raise Unsupported('loop analysis did not converge in %s' % fname)
            self.loop_seed[(fname, h)] = ([(key, t) for key, (t, v0) in vars.items()], dict(forms), dict(symobjs))
            # guard facts, from the last round
            kname = k.decl().name()
            def eligible(p):
                ss = self.syms(p, set())
                return kname in ss and all(s in base_syms or s == kname for s in ss if s in self.defs or s.startswith(tag)) \
                    and not any(s.startswith(tag + '.') and s != kname for s in ss)
            alts = []
            for o in backs:
                el = [p for p in o[1].pc[npc:] if eligible(p)]
                alts.append(el)
            guards = []
            if alts and all(alts):
                common = [p for p in alts[0] if all(any(p.eq(q) for q in a) for a in alts[1:])]
                guards = common
            # candidate order facts from != guards: Houdini
            cands = []
            for p in guards:
                q = p.arg(0) if z3.is_not(p) else p
                if z3.is_not(p) and z3.is_eq(q) or z3.is_distinct(p):
                    a, b = q.arg(0), q.arg(1)
                    if z3.is_int(a):
                        cands += [a <= b, b <= a]
            for key, (t, v0) in vars.items():
                if key in forms or not is_val(v0):
                    continue
                cands.append((key, '>='))
                cands.append((key, '<='))
                if t[0] == 'i' and is_c(v0) is False:
                    pass
                cands.append((key, 'nonneg'))
        finally:
            self.suppress -= 1
        # Houdini on candidates
        def cand_formula(cnd, fresh_, k_):
            if isinstance(cnd, tuple):
                key, o = cnd
                v0 = vars[key][1]
                x = fresh_[key] if not callable(fresh_) else fresh_(key)
                if not is_val(x):
                    return None
                if o == '>=':
                    return Z(x) >= Z(v0)
                if o == '<=':
                    return Z(x) <= Z(v0)
                return Z(x) >= 0
            return z3.substitute(cnd, (k, Z(k_)))
        live = []
        tried = []
        for fn in tries:
            s0 = st.fork()
            self.suppress += 1
            try:
                if self.valid(s0, self.eval_pred(s0, fn, 0, st), 500):
                    tried.append(fn)
            except PathEnd:
                pass
            finally:
                self.suppress -= 1
        for cnd in cands:
            fm = cand_formula(cnd, {kk: vars[kk][1] for kk in vars}, 0)
            if fm is not None and self.valid(st, fm, 500):
                live.append(cnd)
        self.suppress += 1
        try:
            while live or tried:
                hs, henv, k2, fresh = self.havoc_state(st, env, vars, forms, symobjs, tag)
                self.assume(hs, k2 >= 0)
                for g in guards:
                    self.assume(hs, z3.Implies(k2 >= 1, z3.substitute(g, (k, k2 - 1))))
                for cnd in live:
                    self.assume(hs, cand_formula(cnd, fresh, k2))
                self.inv_facts(hs, k2, hints + tried, vars, forms, st, None)
                outs = self.run_loop_body_at(hs, f, henv, h, L, outside, loopctx)
                backs = [o for o in outs if o[0] == 'stop' and o[3] == h]
                bad = []
                for o in backs:
                    nv = self.new_values(o, blocks, h, vars)
                    for cnd in live:
                        if cnd in bad if not isinstance(cnd, z3.ExprRef) else any(cnd is b for b in bad):
                            continue
                        fm = cand_formula(cnd, nv, k2 + 1)
                        if fm is None or not self.valid(o[1], fm, 500):
                            bad.append(cnd)
                    for fn in list(tried):
                        s2 = o[1].fork()
                        if not self.valid(s2, self.eval_pred(s2, fn, k2 + 1, st), 1000):
                            if os.environ.get('VC_DEBUG'): print('dropped candidate invariant', fn, fname.split('(')[0], hidx)
                            tried.remove(fn)
                            bad.append(None)
                if not bad:
                    if self.suppress > 1:
                        # nothing is checked here: this was the last pass
                        return [o for o in outs if not (o[0] == 'stop' and o[3] == h)]
                    break
                live = [c for c in live if not any(c is b for b in bad)]
        finally:
            self.suppress -= 1
        # initial check of user invariants
        for fn in hints:
            s0 = st.fork()
            for key, (t, v0) in vars.items():
                pass
            g = self.eval_pred(s0, fn, 0, st)
            self.oblige(s0, 'loop invariant %s holds on entry' % fn[1:], g, fname.split('(')[0], 'inv')
        # final pass with obligations
        hs, henv, k3, fresh = self.havoc_state(st, env, vars, forms, symobjs, tag)
        self.assume(hs, k3 >= 0)
        for g in guards:
            self.assume(hs, z3.Implies(k3 >= 1, z3.substitute(g, (k, k3 - 1))))
        for cnd in live:
            self.assume(hs, cand_formula(cnd, fresh, k3))
        self.inv_facts(hs, k3, hints + tried, vars, forms, st, True)
        self.loop_log.append('%s#%d: closed forms %s; guards %d; order facts %d; user invariants %d, found %d' % (
            fname.split('(')[0], hidx, sum(1 for q in forms), len(guards), len(live), len(hints), len(tried)))
        outs = self.run_loop_body_at(hs, f, henv, h, L, outside, loopctx)
        res = []
        for o in outs:
            if o[0] == 'stop' and o[3] == h:
                nv = self.new_values(o, blocks, h, vars)
                for key, (t, v0) in vars.items():
                    if isinstance(v0, Ptr) and key not in forms and not (isinstance(nv[key], Ptr) and nv[key].obj == v0.obj):
                        raise Unsupported('pointer to another object in a loop of ' + fname.split('(')[0])
                for fn in hints:
                    s2 = o[1].fork()
                    g = self.eval_pred(s2, fn, k3 + 1, st)
                    self.oblige(s2, 'loop invariant %s preserved' % fn[1:], g, fname.split('(')[0], 'inv')
                self.check_map_inv(o[1], symobjs, k3 + 1, hints)
            else:
                res.append(o)
        return res

    def check_map_inv(self, st, symobjs, k, hints):
        pass

    def eval_pred(self, st, fn, k, entry=None):
        old, self.cur_entry = self.cur_entry, entry
        try:
            rs = self.exec_fn(st, fn, [k])
        finally:
            self.cur_entry = old
        if not rs:
            raise Unsupported('invariant predicate without a value')
        if len(rs) != 1:
            # several paths through the predicate: it holds if it does on the path that is taken
            n, g = len(st.pc), []
            for s, v in rs:
                for k2, o in s.mem.items():
                    if k2 not in st.mem:
                        st.mem[k2] = o
                c = s.pc[n:]
                v = z3.BoolVal(v) if isinstance(v, bool) else v
                g.append(z3.Implies(z3.And(c), v) if c else v)
            g = z3.And(g)
            self.keep.append(g)
            return g
        s, v = rs[0]
        st.pc[:] = s.pc
        st.mem = s.mem
        return v

    def new_values(self, o, blocks, h, vars):
        s2, e2, p2 = o[1], o[2], o[4]
        nv = {}
        for i in blocks[h]:
            if i.op != 'phi':
                break
            for v, b in i.args[1]:
                if b == p2:
                    nv[('phi', i.dst)] = self.const(i.args[0], v, s2, e2)
        for key in vars:
            if key[0] == 'cell':
                ob = s2.mem.get(key[1])
                c = ob.cells.get(key[2]) if ob else None
                nv[key] = c[2] if c else None
        return nv

    def havoc_state(self, st, env, vars, forms, symobjs, tag):
        hs = st.fork()
        henv = dict(env)
        k = self.fresh_int(tag + '.k', None, 0, None)
        fresh = {}
        for oid, info in symobjs.items():
            o = hs.mem[oid]
            if isinstance(oid, tuple):
                o2 = o.clone()
                fun = z3.Function(self.uniq(tag + '.map'), *([z3.IntSort()] * 4))
                o2.sym = SymMem(fun, 0, None, ('havoc', fun, []))
                hs.mem[oid] = o2
                continue
            if o.sym is None:
                if info is True:
                    raise Unsupported('loop memory')
                o = self.make_sym(hs, o, info[0], info[1])
            o2 = o.clone()
            fun = z3.Function(self.uniq(tag + '.mem'), z3.IntSort(), self.sort_of(o.sym.ty))
            o2.sym = SymMem(o.sym.base, o.sym.esize, o.sym.ty, ('havoc', fun, []))
            hs.mem[oid] = o2
        for key, (t, v0) in vars.items():
            if key in forms:
                c = forms[key]
                if isinstance(v0, Ptr):
                    v = Ptr(v0.obj, add(v0.off, mul(c, k)))
                elif is_val(v0):
                    v = add(v0, mul(c, k)) if not (is_c(c) and c == 0) else v0
                else:
                    v = v0
            elif isinstance(v0, Ptr):
                v = Ptr(v0.obj, self.fresh_int(tag + '.off', 64))
            elif v0 is UNDEF and t[0] == 'ptr':
                v = UNDEF  # a temporary of the loop body
            elif isinstance(v0, (bool, z3.BoolRef)):
                v = self.fresh_bool(tag + '.b')
            elif t[0] == 'i':
                v = self.fresh_int(tag + '.v', t[1]) if t != I1 else self.fresh_bool(tag + '.b')
            elif t[0] == 'f':
                v = self.fresh_fp(tag + '.f')
            else:
                raise Unsupported('havoc of %s in loop' % (t,))
            fresh[key] = v
            if key[0] == 'phi':
                henv[key[1]] = v
            else:
                o = hs.mem[key[1]].clone()
                self.clear(o, key[2], key[3])
                o.cells[key[2]] = (key[3], t, v)
                hs.mem[key[1]] = o
        return hs, henv, k, fresh

    def inv_facts(self, hs, k, hints, vars, forms, st0, final):
        for fn in hints:
            g = self.eval_pred(hs, fn, k, st0)
            self.assume(hs, g)

    def run_loop_body_at(self, st, f, env, h, L, outside, loopctx):
        blocks = self.mod.blocks(f)[1]
        k = 0
        while blocks[h][k].op == 'phi':
            k += 1
        if k == 0:
            return self.run_nostop_first(st, f, env, h, None, outside | {h}, loopctx + (h,))
        return self.run(st, f, env, h, None, outside | {h}, k, loopctx + (h,))
