"""Solver portfolio: every obligation is written as SMT-LIB2 and raced on external solvers."""
import os, re, subprocess, tempfile, threading, time, math
from fractions import Fraction
import z3

Z3N = '/usr/local/bin/z3-new'
CVC5 = '/usr/bin/cvc5'
KISSAT = '/usr/local/bin/kissat'

def term_vars(exprs):
    seen, out, stack = set(), {}, list(exprs)
    uf = False
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[e.decl().name()] = e
        elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: uf = True
        stack += e.children()
    return out, uf, len(seen)

def to_smt2(assertions, getvals, logic=None):
    s = z3.Solver()
    s.add(*assertions)
    t = re.sub(r"\b(bv[su](?:div|rem|mod))_i\b", r"\1", s.sexpr())   # z3-only names for nonzero divisors
    head = '(set-logic %s)\n' % (logic or 'ALL')
    g = ''
    if getvals: g = '(get-value (%s))\n' % ' '.join(getvals)
    return '(set-option :produce-models true)\n' + head + t + '\n(check-sat)\n' + g

def parse_num(s):
    s = s.strip()
    if s.startswith('#x'): return int(s[2:], 16)
    if s.startswith('#b'): return int(s[2:], 2)
    if s == 'true': return True
    if s == 'false': return False
    m = re.match(r'^\(- (.*)\)$', s)
    if m:
        v = parse_num(m.group(1)); return -v if v is not None else None
    m = re.match(r'^\(/ (.*)\)$', s)
    if m:
        a, b = split_sexp(m.group(1)); a, b = parse_num(a), parse_num(b)
        return None if a is None or b is None else Fraction(a) / Fraction(b)
    m = re.match(r'^\(_ bv(\d+) \d+\)$', s)
    if m: return int(m.group(1))
    m = re.match(r'^\(let ', s)
    s = s.rstrip('?')
    try: return Fraction(s)
    except Exception: return None

def split_sexp(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c == '(': d += 1
        if c == ')': d -= 1
        if c.isspace() and d == 0:
            if cur: out.append(cur); cur = ''
        else: cur += c
    if cur: out.append(cur)
    return out

def parse_values(txt):
    """((name val) (name val) ...)"""
    txt = txt.strip()
    i = txt.find('(')
    if i < 0: return {}
    d = 0; end = None
    for j in range(i, len(txt)):
        if txt[j] == '(': d += 1
        elif txt[j] == ')':
            d -= 1
            if d == 0: end = j; break
    inner = txt[i+1:end]
    res = {}
    for p in split_sexp(inner):
        kv = split_sexp(p[1:-1])
        if len(kv) == 2: res[kv[0].strip('|')] = parse_num(kv[1])
    return res

class Race:
    def __init__(self, sem=None, workdir=None):
        self.sem = sem; self.wd = workdir

def run_cmds(cmds, timeout, sem=None):
    """race commands [(tag, argv)], first sat/unsat wins. returns (verdict, tag, stdout, time)"""
    t0 = time.time()
    if sem: sem.acquire()
    try:
        procs = []
        for tag, argv in cmds:
            p = subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
            procs.append((tag, p))
        res = {}
        lock = threading.Event()
        outs = {}
        def rd(tag, p):
            try: outs[tag] = p.communicate()[0]
            except Exception as e: outs[tag] = ''
            lock.set()
        ths = [threading.Thread(target=rd, args=x, daemon=True) for x in procs]
        for t in ths: t.start()
        verdict, who, out = 'unknown', None, ''
        done = set()
        while time.time() - t0 < timeout and len(done) < len(procs):
            lock.wait(0.05); lock.clear()
            for tag, p in procs:
                if tag in outs and tag not in done:
                    done.add(tag); o = outs[tag]
                    v = classify(o)
                    if v in ('sat', 'unsat'):
                        verdict, who, out = v, tag, o; break
            if who: break
        for tag, p in procs:
            if p.poll() is None:
                try: os.killpg(p.pid, 9)
                except Exception: pass
        for t in ths: t.join(5)
        if not who: out = ' | '.join('%s: %s' % (k, (v or '')[:120]) for k, v in outs.items())
        return verdict, who, out, time.time() - t0
    finally:
        if sem: sem.release()

def classify(o):
    o = o or ''
    if re.search(r'^s UNSATISFIABLE', o, re.M): return 'unsat'
    if re.search(r'^s SATISFIABLE', o, re.M): return 'sat'
    first = o.strip().split('\n')[0].strip() if o.strip() else ''
    if first == 'unsat': return 'unsat'     # a following (error about get-value) is expected
    if '(error' in first: return 'unknown'
    if first == 'sat': return 'sat'
    return 'unknown'

def bitblast(assertions, invars, path, tmo=120):
    """z3 tactics -> DIMACS; returns mapping var -> list of dimacs ids per bit, or verdict string"""
    subs = []; names = {}
    for n, e in invars.items():
        if z3.is_bv(e):
            bits = [z3.Bool('%s#%d' % (n, i)) for i in range(e.size())]
            t = z3.Concat(*[z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for b in reversed(bits)]) if e.size() > 1 else z3.If(bits[0], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            subs.append((e, t))
    g = z3.Goal()
    for a in assertions: g.add(z3.substitute(a, *subs) if subs else a)
    t = z3.Then(z3.With('simplify', elim_and=True), 'propagate-values', 'fpa2bv', z3.With('simplify', elim_and=True), 'propagate-values', 'bit-blast', 'simplify', 'tseitin-cnf')
    t = z3.TryFor(t, int(tmo * 1000))
    r = t(g)
    if len(r) != 1: return None
    sub = r[0]
    if sub.inconsistent(): return 'unsat'
    if len(sub) == 0: return 'sat'
    d = sub.dimacs(True)
    lines = []
    for l in d.split('\n'):
        if l.startswith('c '):
            p = l.split()
            if len(p) >= 3: names[p[2].strip('|')] = int(p[1])
        else: lines.append(l)
    with open(path, 'w') as f: f.write('\n'.join(lines))
    return names

def check(assertions, invars, solvers, timeout, sem=None, wd=None, tag='q'):
    """returns (verdict, model dict name->value, solver, seconds)"""
    t0 = time.time()
    simp = []
    for a in assertions:
        a = z3.simplify(a)
        if z3.is_false(a): return 'unsat', None, 'simplify', time.time() - t0
        if z3.is_true(a): continue
        simp.append(a)
    vs, uf, nn = term_vars(simp)
    ins = {n: e for n, e in vs.items() if n.startswith('in_')}
    gv = sorted(ins)
    fd, path = tempfile.mkstemp(suffix='.smt2', dir=wd); os.close(fd)
    with open(path, 'w') as f: f.write(to_smt2(simp, gv))
    cmds = []
    for s in solvers:
        if s == 'z3': cmds.append((s, [Z3N, '-T:%d' % (timeout + 2), 'pp.decimal=true', 'pp.decimal_precision=30', path]))
        elif s == 'z3old': cmds.append((s, ['/usr/bin/z3', '-T:%d' % (timeout + 2), 'pp.decimal=true', path]))
        elif s == 'cvc5': cmds.append((s, [CVC5, '--tlimit=%d' % (1000 * (timeout + 2)), '--fp-exp', path]))
        elif s == 'cvc5int': cmds.append((s, [CVC5, '--tlimit=%d' % (1000 * (timeout + 2)), '--solve-bv-as-int=sum', path]))
        elif s == 'cvc5cov': cmds.append((s, [CVC5, '--tlimit=%d' % (1000 * (timeout + 2)), '--nl-cov', path]))
    names = None
    if 'kissat' in solvers and not uf:
        try:
            names = bitblast(simp, {n: e for n, e in vs.items() if z3.is_bv(e)}, path + '.cnf')
        except z3.Z3Exception as e:
            names = None
        if names == 'unsat':
            os.unlink(path); return 'unsat', None, 'z3-preprocess', time.time() - t0
        if isinstance(names, dict): cmds.append(('kissat', [KISSAT, '-q', path + '.cnf']))
    v, who, out, dt = run_cmds(cmds, timeout, sem)
    for p in (path, path + '.cnf'):
        if os.path.exists(p): os.unlink(p)
    model = None
    if v == 'sat':
        if who == 'kissat':
            pos = set()
            for l in out.split('\n'):
                if l.startswith('v '): pos |= {int(x) for x in l.split()[1:] if int(x) > 0}
            model = {}
            for n, e in ins.items():
                if z3.is_bv(e):
                    model[n] = sum(1 << i for i in range(e.size()) if names.get('%s#%d' % (n, i)) in pos)
                else:
                    model[n] = names.get(n) in pos
        else:
            i = out.find('sat')
            model = parse_values(out[i + 3:]) if gv else {}
    return v, model, who or out[:200], time.time() - t0
