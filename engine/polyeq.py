"""Equality of two real-mode terms under path conditions, by polynomial normal form.

Every term is rewritten to a polynomial over the inputs; a conditional ite(c,x,y) becomes an opaque variable
keyed by the normal forms of c, x and y, and 1/p one keyed by the normal form of p.  If the difference
normalises to zero the equality is proved for all inputs.  Otherwise the conditions of the conditionals left in the
difference are split case by case (infeasible cases pruned by z3) and leaves that do not vanish are handed back
as conditional-free queries for the solver portfolio.
"""
from fractions import Fraction
import time
import z3

MAXTERMS = 60000
DEBUG = False
class TooBig(Exception): pass

ONE = ()
def p_const(c): return {ONE: Fraction(c)} if c else {}
def p_var(v): return {((v, 1),): Fraction(1)}
def p_add(a, b, s=1):
    if len(a) < len(b) and s == 1: a, b = b, a
    r = dict(a)
    for m, c in b.items():
        x = r.get(m)
        if x is None: r[m] = c * s
        else:
            x = x + c * s
            if x: r[m] = x
            else: del r[m]
    return r
def m_mul(a, b):
    if not a: return b
    if not b: return a
    i = j = 0; out = []
    while i < len(a) and j < len(b):
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e: out.append((x[0], e))
            i += 1; j += 1
        elif x[0] < y[0]: out.append(x); i += 1
        else: out.append(y); j += 1
    return tuple(out) + a[i:] + b[j:]
def p_mul(a, b):
    r = {}
    if len(a) * len(b) > MAXTERMS * 20: raise TooBig()
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2); c = c1 * c2
            x = r.get(m)
            if x is None: r[m] = c
            else:
                x += c
                if x: r[m] = x
                else: del r[m]
    if len(r) > MAXTERMS: raise TooBig()
    return r
def p_scale(a, k): return {m: c * k for m, c in a.items()} if k else {}
def p_key(a): return tuple(sorted(a.items()))

class NF:
    """normaliser; ids of variables are small ints, interned by key"""
    def __init__(self):
        self.mons = {}; self.keep = []; self.ids = {}; self.info = []      # id -> (kind, data, depth)
        self.rules = {}; self.atoms = {}                    # atom key -> z3 expression
        self.cn = [None, None]; self.cids = {}; self.cmemo = {}; self.lmemo = {}; self.zmemo = {}   # conditions are interned: id -> node, -id is the negation
        self.assign = {}                   # poly key -> set of allowed signs ; or ('b', astid) -> bool
    def vid(self, key, kind, data, depth):
        i = self.ids.get(key)
        if i is None:
            i = len(self.info); self.ids[key] = i; self.info.append((kind, data, depth))
        return i
    def depth(self, p):
        return max([self.info[v][2] for m in p for v, _ in m], default=0)
    def start(self, assign):
        self.assign = assign; self.memo = {}; self.bmemo = {}
    # ---- terms
    def t(self, e):
        st = [(e, False)]
        while st:
            x, done = st.pop()
            i = x.get_id()
            if i in self.memo: continue
            if not done:
                k = x.decl().kind()
                if k == z3.Z3_OP_ITE:
                    c = self.c(x.arg(0))
                    if c is True or c is False:
                        y = x.arg(1) if c else x.arg(2)
                        if y.get_id() in self.memo: self.memo[i] = self.memo[y.get_id()]
                        else: st.append((x, False)); st.append((y, False))
                        continue
                    st.append((x, True)); st.append((x.arg(1), False)); st.append((x.arg(2), False)); continue
                if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS):
                    st.append((x, True))
                    for a in x.children(): st.append((a, False))
                    continue
                self.memo[i] = self.leaf(x); continue
            self.memo[i] = self.node(x)
        return self.memo[e.get_id()]
    def leaf(self, x):
        if z3.is_rational_value(x): return p_const(Fraction(x.as_fraction()))
        if z3.is_int_value(x): return p_const(x.as_long())
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and all(z3.is_real(a) for a in x.children()):
            ps = [self.t(a) for a in x.children()]
            return p_var(self.vid(('uf', d.name()) + tuple(p_key(p) for p in ps), 'uf', x, 1 + max(self.depth(p) for p in ps)))
        return p_var(self.vid(('v', x.get_id()), 'v', x, 0))
    def node(self, x):
        k = x.decl().kind(); ch = [self.memo[a.get_id()] for a in x.children()] if k != z3.Z3_OP_ITE else None
        if k == z3.Z3_OP_ADD:
            r = ch[0]
            for y in ch[1:]: r = p_add(r, y)
            if len(r) > MAXTERMS: raise TooBig()
            return r
        if k == z3.Z3_OP_SUB:
            r = ch[0]
            for y in ch[1:]: r = p_add(r, y, -1)
            return r
        if k == z3.Z3_OP_UMINUS: return p_scale(ch[0], -1)
        if k == z3.Z3_OP_MUL:
            r = ch[0]
            for y in ch[1:]: r = p_mul(r, y)
            return r
        if k == z3.Z3_OP_DIV: return p_mul(ch[0], self.inv(ch[1]))
        c = self.c(x.arg(0))
        a, b = self.memo[x.arg(1).get_id()], self.memo[x.arg(2).get_id()]
        if p_key(a) == p_key(b): return a
        if c < 0: c = -c; a, b = b, a
        # ite(c,a,b) = b + k*m*ite(c,q,0) with q the monic primitive part of a-b
        p = p_add(a, b, -1)
        mins = {}; n = 0
        for m in p:
            n += 1
            dm = dict(m)
            for v in list(mins):
                mins[v] = min(mins[v], dm.get(v, 0))
            for v, e in m:
                if v not in mins: mins[v] = e if n == 1 else min(e, 0)
        mm = tuple(sorted((v, e) for v, e in mins.items() if e))
        im = tuple((v, -e) for v, e in mm)
        q = {m_mul(m, im): x for m, x in p.items()}
        lead = q[max(q)]
        q = p_scale(q, 1 / lead)
        key = ('ite', c, p_key(q))
        v = self.vid(key, 'ite', (c, key[2], ()), 1 + max(self.depth(q), self.cdepth(c)))
        r = self.rules.get(v)
        if r is not None: return p_add(b, p_mul({mm: lead}, r))
        return p_add(b, {m_mul(mm, ((v, 1),)): lead})
    def inv(self, p):
        if not p: return p_var(self.vid(('divzero',), 'v', None, 0))
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((v, -e) for v, e in m): 1 / c}
        lead = p[max(p)]
        q = p_scale(p, 1 / lead)
        v = self.vid(('inv', p_key(q)), 'inv', q, 1 + self.depth(q))
        return {((v, 1),): 1 / lead}
    # ---- conditions: True/False or the id of an interned node (negative: negated)
    def cmk(self, node):
        i = self.cids.get(node)
        if i is None:
            i = len(self.cn); self.cids[node] = i; self.cn.append(node)
        return i
    def cdepth(self, c):
        c = abs(c)
        r = self.cmemo.get(c)
        if r is None:
            n = self.cn[c]
            if n[0] == 'and': r = max(self.cdepth(x) for x in n[1:])
            elif n[0] == 'b': r = 0
            else: r = max([self.info[v][2] for m, _ in n[1] for v, _ in m], default=0)
            self.cmemo[c] = r
        return r
    def neg(self, c):
        if c is True: return False
        if c is False: return True
        return -c
    def atom(self, op, p):
        """p op 0 with op in gt, ge, eq"""
        if not p: return op != 'gt'
        if len(p) == 1 and ONE in p:
            v = p[ONE]; return {'gt': v > 0, 'ge': v >= 0, 'eq': v == 0}[op]
        lead = p[max(p)]
        q = p_scale(p, 1 / abs(lead)); flip = lead < 0
        if flip: q = p_scale(q, -1)
        key = p_key(q)
        s = self.assign.get(key)
        if s is not None:
            sg = {-x for x in s} if flip else s
            tr = {'gt': {1}, 'ge': {0, 1}, 'eq': {0}}[op]
            if sg <= tr: return True
            if not (sg & tr): return False
        if op == 'eq': return self.cmk(('eq', key))
        if not flip: return self.cmk((op, key))
        # -q > 0  <=> not (q >= 0)
        return -self.cmk(('ge' if op == 'gt' else 'gt', key))
    def c(self, e):
        i = e.get_id()
        if i in self.bmemo: return self.bmemo[i]
        self.bmemo[i] = r = self._c(e)
        return r
    def _c(self, e):
        k = e.decl().kind()
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        if k == z3.Z3_OP_NOT: return self.neg(self.c(e.arg(0)))
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            stop = k == z3.Z3_OP_OR; out = []
            for a in e.children():
                x = self.c(a)
                if x is stop: return stop
                if x is (not stop): continue
                out.append(x)
            return self.mk_or(*out) if stop else self.mk_and(*out)
        if k == z3.Z3_OP_ITE:
            c = self.c(e.arg(0))
            if c is True: return self.c(e.arg(1))
            if c is False: return self.c(e.arg(2))
            a, b = self.c(e.arg(1)), self.c(e.arg(2))
            return self.mk_or(self.mk_and(c, a), self.mk_and(self.neg(c), b))
        if k == z3.Z3_OP_IMPLIES: return self.mk_or(self.neg(self.c(e.arg(0))), self.c(e.arg(1)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_DISTINCT, z3.Z3_OP_XOR) and z3.is_bool(e.arg(0)):
            a, b = self.c(e.arg(0)), self.c(e.arg(1))
            r = self.mk_or(self.mk_and(a, b), self.mk_and(self.neg(a), self.neg(b)))
            return self.neg(r) if k in (z3.Z3_OP_DISTINCT, z3.Z3_OP_XOR) else r
        if e.num_args() == 2 and z3.is_real(e.arg(0)) and k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            p = p_add(self.t(e.arg(0)), self.t(e.arg(1)), -1)
            if k == z3.Z3_OP_GT: return self.atom('gt', p)
            if k == z3.Z3_OP_GE: return self.atom('ge', p)
            if k == z3.Z3_OP_LT: return self.neg(self.atom('ge', p))
            if k == z3.Z3_OP_LE: return self.neg(self.atom('gt', p))
            r = self.atom('eq', p)
            return self.neg(r) if k == z3.Z3_OP_DISTINCT else r
        e2 = z3.simplify(e, bv_ite2id=True, elim_ite=True) if e.num_args() else e
        if not e2.eq(e): self.keep.append(e2); return self.c(e2)
        key = ('b', e.get_id())
        if key in self.assign: return self.assign[key]
        self.atoms[key] = e
        return self.cmk(key)
    def mk_and(self, *xs):
        out = set()
        for x in xs:
            if x is False: return False
            if x is True: continue
            if x > 0 and self.cn[x][0] == 'and': out.update(self.cn[x][1:])
            else: out.add(x)
        if not out: return True
        if any(-x in out for x in out): return False
        # (a or b) and (a or not b) = a, absorption of implied disjunctions
        ch = True
        while ch:
            ch = False
            for x in sorted(out):
                if x < 0 and self.cn[-x][0] == 'and':
                    ks = self.cn[-x][1:]                 # not (k1 and k2 ...)
                    if any(-k in out for k in ks): out.discard(x); ch = True; break
                    left = [k for k in ks if k not in out]
                    if len(left) < len(ks):
                        out.discard(x); y = self.neg(self.mk_and(*left))
                        if y is False: return False
                        if y is not True:
                            if -y in out: return False
                            if y > 0 and self.cn[y][0] == 'and': out.update(self.cn[y][1:])
                            else: out.add(y)
                            if any(-z in out for z in out): return False
                        ch = True; break
        # not(A and k) and not(A and not k) = not A
            if not ch:
                ds = {}
                for x in out:
                    if x < 0 and self.cn[-x][0] == 'and': ds[frozenset(self.cn[-x][1:])] = x
                for f, x in sorted(ds.items(), key=lambda q: q[1]):
                    for k in sorted(f):
                        g = (f - {k}) | {-k}
                        if g in ds:
                            out.discard(x); out.discard(ds[g])
                            y = self.neg(self.mk_and(*(f - {k})))
                            if y is False or (y is not True and -y in out): return False
                            if y is not True: 
                                if y > 0 and self.cn[y][0] == 'and': out.update(self.cn[y][1:])
                                else: out.add(y)
                                if any(-z in out for z in out): return False
                            ch = True; break
                    if ch: break
        if not out: return True
        if len(out) == 1: return next(iter(out))
        return self.cmk(('and',) + tuple(sorted(out)))
    def mk_or(self, *xs): return self.neg(self.mk_and(*[self.neg(x) for x in xs]))
    # ---- linear abstraction: every monomial is a fresh real
    def lin_cond(self, c):
        if c is True or c is False: return z3.BoolVal(c)
        if c < 0: return z3.Not(self.lin_cond(-c))
        r = self.lmemo.get(c)
        if r is not None: return r
        n = self.cn[c]
        if n[0] == 'and': r = z3.And(*[self.lin_cond(x) for x in n[1:]])
        elif n[0] == 'b': r = z3.Bool('lb!%d' % n[1])
        else:
            e = z3.RealVal(0)
            for m, k in n[1]:
                if m == ONE: e = e + z3.RealVal(str(k)); continue
                i = self.mons.get(m)
                if i is None: i = self.mons[m] = len(self.mons)
                e = e + z3.RealVal(str(k)) * z3.Real('lm!%d' % i)
            r = {'gt': e > 0, 'ge': e >= 0, 'eq': e == 0}[n[0]]
        self.lmemo[c] = r
        return r
    # ---- back to z3
    def poly_z3(self, key):
        r = None
        for m, c in key:
            t = z3.RealVal(str(c))
            for v, e in m:
                x = self.var_z3(v)
                for _ in range(abs(e)): t = t * x if e > 0 else t / x
            r = t if r is None else r + t
        return r if r is not None else z3.RealVal(0)
    def var_z3(self, v):
        kind, data, _ = self.info[v]
        if kind in ('v', 'uf') and data is not None: return data
        if kind == 'inv': return z3.RealVal(1) / self.poly_z3(p_key(data))
        if kind == 'ite': return z3.If(self.cond_z3(data[0]), self.poly_z3(data[1]), z3.RealVal(0))
        return z3.Real('divzero!')
    def cond_z3(self, c):
        if c is True or c is False: return z3.BoolVal(c)
        if c < 0: return z3.Not(self.cond_z3(-c))
        r = self.zmemo.get(c)
        if r is not None: return r
        n = self.cn[c]
        if n[0] == 'and': r = z3.And(*[self.cond_z3(x) for x in n[1:]])
        elif n[0] == 'b': r = self.atoms[n]
        else:
            e = self.poly_z3(n[1]); r = {'gt': e > 0, 'ge': e >= 0, 'eq': e == 0}[n[0]]
        self.zmemo[c] = r
        return r
    def clear_inv(self, p):
        """multiply by the opaque denominators; zero iff p is zero where they do not vanish"""
        for _ in range(8):
            iv = {v for m in p for v, e in m if self.info[v][0] == 'inv'}
            if not iv: return p
            v = max(iv, key=lambda x: self.info[x][2])
            q = self.info[v][1]; k = max(e for m in p for w, e in m if w == v)
            r = {}
            pw = [p_const(1)]
            for _i in range(k): pw.append(p_mul(pw[-1], q))
            for m, c in p.items():
                e = dict(m).get(v, 0)
                rest = tuple(x for x in m if x[0] != v)
                r = p_add(r, p_mul({rest: c}, pw[k - e]))
            p = r
        return p

def atoms_of(nf, c):
    """ids of the atomic conditions below c"""
    seen, out, st = set(), [], [abs(c)]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if nf.cn[x][0] == 'and': st += [abs(y) for y in nf.cn[x][1:]]
        else: out.append(x)
    return out

def early_atoms(nf, e):
    """undecided atomic conditions of the conditionals of a term, innermost first"""
    seen, order, st = set(), [], [(e, False)]
    while st:
        x, done = st.pop()
        if done: order.append(x); continue
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st.append((x, True))
        st += [(y, False) for y in x.children()]
    out = []
    for x in order:
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            try: c = nf.c(x.arg(0))
            except TooBig: continue
            if c is True or c is False: continue
            for at in atoms_of(nf, c):
                if at not in out: out.append(at)
    return out

def reach_ites(nf, p):
    seen, st = set(), [v for m in p for v, _ in m]
    pv = lambda key: [v for m, _ in key for v, _ in m]
    while st:
        v = st.pop()
        if v in seen: continue
        seen.add(v)
        kind, data, _ = nf.info[v]
        if kind == 'ite':
            for at in atoms_of(nf, data[0]):
                if nf.cn[at][0] != 'b': st += pv(nf.cn[at][1])
            st += pv(data[1])
        elif kind == 'inv': st += [w for m in data for w, _ in m]
    return {v for v in seen if nf.info[v][0] == 'ite'}

def prove_eq(base, a, b, budget=60.0, maxcases=4000, feas_ms=150, nf=None, rules=None):
    """-> ('unsat', cases) | ('leaves', [extra assertions]) | ('unknown', why)
    nf: normaliser shared by the obligations of one harness; rules: equalities proved before (list of (pc ids, var, poly)),
    extended when this equality is proved by case split"""
    t0 = time.time()
    nf = nf or NF()
    pcs = {x.get_id() for x in base}
    nf.rules = {}
    for (ids, v, p) in rules or []:
        if ids <= pcs: nf.rules[v] = p
    slv = z3.Solver(); slv.set('timeout', 4 * feas_ms); slv.set('rlimit', 10000 * feas_ms); slv.add(*base)
    d = a - b
    nf.keep.append((d, base))
    leaves = []; cases = [0]; splits = [0]; topa = {}
    ls = z3.Solver(); ls.set('timeout', 4000); ls.set('rlimit', 10000000)
    nf.start({})
    try:
        for f in base: ls.add(nf.lin_cond(nf.c(f)))
    except TooBig: pass
    simple_at = lambda at: nf.cn[at][0] == 'b' or not any(nf.info[w][0] == 'ite' for m, _ in nf.cn[at][1] for w, _ in m)
    def rec(assign, extra, tried, top=False):
        if time.time() - t0 > budget or cases[0] > maxcases: raise TooBig()
        nf.start(assign)
        big = False
        try:
            p = nf.t(d)
            if p: p = nf.clear_inv(p)
            if not p: cases[0] += 1; return
            pa, pb = nf.t(a), nf.t(b)
            ra, rb = reach_ites(nf, pa), reach_ites(nf, pb)
            mis = (ra ^ rb) or {v for v in ra | rb if any(w == v for m in p for w, _ in m)}
        except TooBig:
            # too many terms before any split: decide conditions of the term itself first
            big = True; ra = rb = mis = set()
            early = [x for x in early_atoms(nf, d) if simple_at(x)]
            if not early: raise
        # conditions forced by the path condition are assigned without a case split
        ch = False
        simple = {x for x in early if x not in tried} if big else set()
        for v in ra | rb:
            for at in atoms_of(nf, nf.info[v][1][0]):
                if at not in tried and simple_at(at): simple.add(at)
        for at in sorted(simple):
            tried.add(at)
            ex = nf.cond_z3(at); aid = at; at = nf.cn[at]
            tr = {'gt': {1}, 'ge': {0, 1}, 'eq': {0}}.get(at[0])
            for val, q in ((True, z3.Not(ex)), (False, ex)):
                slv.push(); slv.add(q); r = slv.check(); slv.pop()
                if r == z3.unsat:
                    assign = dict(assign)
                    if at[0] == 'b': assign[at] = val
                    else:
                        cur = assign.get(at[1], {-1, 0, 1})
                        assign[at[1]] = (cur & tr) if val else (cur - tr)
                    ch = True; break
        if ch: return rec(assign, extra, tried, top)
        if top: topa.update(assign)
        if big: cand = early
        else:
            direct = {w for m in p for w, _ in m if nf.info[w][0] == 'ite'}
            if not direct: direct = mis
            cand = []
            for v in direct: cand += [(nf.info[v][2], at) for at in atoms_of(nf, nf.info[v][1][0])]
            cand = [x for _, x in sorted(set(cand), key=lambda x: (x[0], nf.cdepth(x[1]), x[1]))]
        if not cand:
            cases[0] += 1
            r = slv.check()
            if r == z3.unsat: return
            leaves.append(list(extra) + [nf.poly_z3(p_key(p)) != 0])
            if len(leaves) > 40: raise TooBig()
            return
        at = cand[0]; splits[0] += 1
        if DEBUG: print('split', len(extra), 'depth', nf.cdepth(at), len(cand), str(nf.cond_z3(at)).replace(chr(10),' ')[:300], '| mis', len(mis), len(ra), len(rb))
        ex = nf.cond_z3(at); aid = at; at = nf.cn[at]
        if at[0] == 'b': opts = [(at, True, ex), (at, False, z3.Not(ex))]
        else:
            cur = assign.get(at[1], {-1, 0, 1})
            tr = {'gt': {1}, 'ge': {0, 1}, 'eq': {0}}[at[0]]
            opts = [(at[1], cur & tr, ex), (at[1], cur - tr, z3.Not(ex))]
        lin = nf.lin_cond(aid)
        for n, (k, v, ex) in enumerate(opts):
            ls.push(); ls.add(lin if n == 0 else z3.Not(lin))
            if ls.check() != z3.unsat:
                slv.push(); slv.add(ex)
                if not simple_at(aid) or slv.check() != z3.unsat:
                    a2 = dict(assign); a2[k] = v
                    rec(a2, extra + [ex], set(tried))
                slv.pop()
            ls.pop()
    try:
        rec({}, [], set(), True)
    except (TooBig, RecursionError):
        return ('leaves', leaves) if leaves else ('unknown', cases[0])
    if leaves: return 'leaves', leaves
    if splits[0] and rules is not None: learn(nf, rules, pcs, a, b, topa)
    return 'unsat', cases[0]

def learn(nf, rules, pcs, a, b, topa):
    """remember a proved equality as a rewrite of its deepest conditional"""
    nf.start(topa)
    p = p_add(nf.t(a), nf.t(b), -1)
    best = None
    for m, c in p.items():
        iv = [v for v, e in m if e == 1 and nf.info[v][0] == 'ite']
        # the cofactor may only hold divisors (known non-zero where the division was executed)
        if len(iv) != 1 or any(e > 0 and v != iv[0] for v, e in m): continue
        v = iv[0]
        if sum(1 for mm in p for w, _ in mm if w == v) == 1 and v not in reach_rest(nf, p, m):
            if best is None or nf.info[v][2] > nf.info[best[0]][2]: best = (v, c, m)
    if best is None: return
    v, c, m0 = best
    inv = tuple((w, -e) for w, e in m0 if w != v)
    rest = {m: x for m, x in p.items() if m != m0}
    rules.append((frozenset(pcs), v, p_mul({inv: -1 / c}, rest)))

def reach_rest(nf, p, m0):
    return reach_ites(nf, {m: c for m, c in p.items() if m != m0})
