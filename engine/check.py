#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--harness NAME]  -- decide one property.

1. compile /repo/src/*.cpp and props/<id>/harness.cpp to LLVM IR (every run, from the working tree)
2. execute each harness symbolically (exec.py), collect obligations
3. discharge every obligation with the solver portfolio (solve.py)
4. replay each counterexample natively against the real code (g++ build); only what reproduces is reported
5. vacuity: each harness' reach() marks must be satisfiable, and concrete runs of the encoding must agree with native runs
"""
import os, sys, json, time, subprocess, glob, shutil, tempfile, random, re, struct, importlib.util, traceback
import multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import z3
import ir, symex as ex, solve, polyeq
import stubs as stublib

REPO = os.environ.get('VF_REPO', '/repo')
CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else '/usr/bin/clang++'
LLVMBIN = '/usr/lib/llvm-18/bin'
CFLAGS = ['-std=c++11', '-I' + REPO + '/src', '-I' + HERE, '-ffp-contract=off', '-fno-exceptions', '-w']

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return r

class BuildError(Exception):
    pass

def llvm(tool): return os.path.join(LLVMBIN, tool) if os.path.exists(os.path.join(LLVMBIN, tool)) else tool

def build_ir(pid, wd, harness_src, extra, tag):
    srcs = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True)) + [harness_src]
    def one(i_s):
        i, s = i_s
        o = os.path.join(wd, '%s_%d.bc' % (tag, i))
        r = sh([CLANG] + CFLAGS + extra + ['-O0', '-Xclang', '-disable-O0-optnone', '-emit-llvm', '-c', s, '-o', o])
        if r.returncode: raise BuildError('%s: %s' % (s, r.stderr[-2000:]))
        return o
    with ThreadPoolExecutor(8) as tp: bcs = list(tp.map(one, enumerate(srcs)))
    allbc = os.path.join(wd, tag + '_all.bc')
    r = sh([llvm('llvm-link')] + bcs + ['-o', allbc])
    if r.returncode: raise BuildError('llvm-link: ' + r.stderr[-2000:])
    src = open(harness_src).read()
    hs = re.findall(r'\bHARNESS\(\s*(\w+)\s*\)', src)
    out = os.path.join(wd, tag + '.ll')
    r = sh([llvm('opt'), '-S', '-passes=internalize,globaldce,function(sroa,early-cse,adce)', '--internalize-public-api-list=' + ','.join(hs), allbc, '-o', out])
    if r.returncode: raise BuildError('opt: ' + r.stderr[-2000:])
    for b in bcs: os.unlink(b)
    os.unlink(allbc)
    return out

def build_native(wd, harness_src, extra, tag, san):
    srcs = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
    def one(i_s):
        i, s = i_s
        o = os.path.join(wd, 'n_%s_%d.o' % (tag, i))
        fl = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'] if san else ['-O2']
        r = sh(['g++'] + CFLAGS + extra + fl + ['-c', s, '-o', o])
        if r.returncode: raise BuildError('%s: %s' % (s, r.stderr[-2000:]))
        return o
    with ThreadPoolExecutor(8) as tp: objs = list(tp.map(one, enumerate(srcs + [harness_src, os.path.join(HERE, 'vf_native.cpp')])))
    out = os.path.join(wd, 'native_' + tag)
    r = sh(['g++'] + (['-fsanitize=address,undefined'] if san else []) + ['-rdynamic'] + objs + ['-o', out, '-ldl'])
    if r.returncode: raise BuildError(r.stderr[-2000:])
    for o in objs: os.unlink(o)
    return out

def fval_txt(kind, v):
    if v is None: return '0'
    if kind in ('f32', 'f64'):
        if isinstance(v, int) and not isinstance(v, bool):   # bit pattern (fp mode)
            return '0b%x' % v
        f = ex.frac_to_f(Fraction(v), kind)
        return '0b%x' % ex.f2bits(f, kind)
    if kind == 'b': return '1' if v else '0'
    return str(int(v))

def write_vals(path, vals):
    with open(path, 'w') as f:
        for (n, i), (k, v) in sorted(vals.items()): f.write('%s %d %s\n' % (n, i, fval_txt(k, v)))

def native_run(binp, fn, path, cont=False, timeout=20):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0'
    if cont: env['VF_CONT'] = '1'
    try:
        r = subprocess.run([binp, fn, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return 124, 'TIMEOUT', ''
    return r.returncode, r.stdout, r.stderr

def demangle(names):
    r = sh(['c++filt'], input='\n'.join(names) + '\n')
    return dict(zip(names, r.stdout.split('\n')))

def run_harness(job, sem, q):
    try:
        q.put((job['id'], harness_main(job, sem)))
    except BaseException as e:
        q.put((job['id'], dict(fn=job['fn'], error=traceback.format_exc()[-3000:], status='error')))

def mk_engine(job, mod, concrete=None):
    h = job['h']
    cfg = dict(h.get('cfg', {}))
    en = ex.Engine(mod, h.get('mode', 'fp'), h.get('unwind', 40), cfg, concrete)
    fnames = list(mod.funcs)
    dm = demangle([n[1:].strip('"') for n in fnames])
    byd = {v.replace('(anonymous namespace)::', ''): '@' + k for k, v in dm.items()}
    for d, stub in h.get('stubs', {}).items():
        for k, v in byd.items():
            if k == d or k.split('(')[0] == d:
                en.stubs[v] = stublib.get(stub)
                en.stub_used = getattr(en, 'stub_used', []) + [k]
    return en

def sym_run(en, fn, budget):
    st = ex.State()
    en.curfn = fn
    en.deadline = time.time() + budget
    en.init_globals(st)
    try:
        en.run_ctors(st)
    except ir.Unsupported:
        if en.mode != 'real': raise
    en.obls = []
    try:
        en.call(st, en.m.funcs['@' + fn], [])
    except ex.Cut:
        pass
    return en

def harness_main(job, sem):
    t0 = time.time()
    h, fn, tier = job['h'], job['fn'], job['tier']
    mod = ir.Module(open(job['ll']).read())
    res = dict(fn=fn, mode=h.get('mode', 'fp'), bounds=h.get('bounds', ''), obligations=[], status='ok', violations=[], undecided=[], known=[])
    en = mk_engine(job, mod)
    try:
        sym_run(en, fn, h.get('exec_budget', 300))
    except ir.Unsupported as e:
        res['status'] = 'error'; res['error'] = 'not encodable: %s (in %s)' % (e, getattr(en, 'curfn', '?'))
        return res
    res['exec_s'] = round(time.time() - t0, 2)
    dm = demangle(sorted(n[1:].strip('"') for n in en.encoded))
    res['functions'] = sorted(v for v in dm.values() if not v.startswith('h_') and 'GLOBAL__sub' not in v)
    res['stats'] = en.stats
    res['stubs'] = sorted(set(getattr(en, 'stub_used', [])))
    solvers = h.get('solvers') or (['z3', 'cvc5'] if en.mode == 'real' else ['z3', 'kissat', 'cvc5'])
    tmo = h.get('timeout', 120)
    if tier == 'thorough': tmo = h.get('timeout_thorough', tmo * 3)
    side = list(en.side)
    # group obligations: 'reach' are vacuity witnesses, the rest must be unsat
    todo = []
    reach = {}
    for ob in en.obls:
        if ob.kind == 'reach': reach.setdefault(ob.label, []).append(ob); continue
        todo.append(ob)
    if not reach and not h.get('no_reach'):
        res['status'] = 'error'; res['error'] = 'vacuous: no reachability mark was encountered'; 
    lock = mp.RLock() if False else None
    z3lock = __import__('threading').Lock()
    def decide(ob):
        with z3lock:
            pass
        asrt = side + list(ob.pc) + [z3.Not(ob.cond)]
        if h.get('cfg', {}).get('mulsplit'):
            ab = solve.check(ex.mulabstract(asrt), None, solvers, tmo, sem, job['wd'])
            if ab[0] == 'unsat': return ('unsat', None, str(ab[2]) + ' (products by linear bounds)', ab[3])
        return solve.check(asrt, None, solvers, tmo, sem, job['wd'])
    qn = 0; qt = 0.0
    # cheap pass in-process for everything, hard ones go to the external portfolio
    hard = []
    nfst = (polyeq.NF(), [])
    inproc = h.get('inproc_ms', 2000)
    known = {k[1] for k in load_known() if k[0] == job['pid']}
    stop = False
    def sat_found(ob):
        """replay a candidate model; True when the harness is decided (a new violation)"""
        if not confirm(en, ob, job, h, res, side, solvers, tmo, sem): return False
        key = '%s:%s' % (job['fn'], res['violations'][-1]['label'].replace(' ', '_'))
        return key not in known and (tier == 'quick' or len(res['violations']) >= 3)
    for ob in todo:
        t = time.time()
        r = None
        c = z3.simplify(z3.Not(ob.cond))
        near = ob.kind == 'near' and en.mode == 'real'
        if z3.is_false(c): r = 'unsat'; ob.solver = 'simplify'
        elif any(z3.is_false(p) for p in ob.pc): r = 'unsat'; ob.solver = 'simplify'
        elif near and polyproof(ob, side, h, solvers, job, sem, nfst, min(5, h.get('poly_budget', 60)), False):
            r = 'unsat'; qn += ob.ncases
        elif near:
            v, model, n2 = guess(en, ob, side, h); qn += n2
            if v == 'sat':
                ob.model = model; ob.status = r = 'sat'; ob.solver = 'model search'
                if sat_found(ob): stop = True
                r = ob.status
            if r is None and polyproof(ob, side, h, solvers, job, sem, nfst, h.get('poly_budget', 60), True):
                r = 'unsat'; qn += ob.ncases
        elif inproc:
            s = z3.Solver(); s.set('timeout', inproc); s.add(*side); s.add(*ob.pc); s.add(c)
            rr = s.check(); qn += 1
            ob.solver = 'z3-api'
            if rr == z3.unsat: r = 'unsat'
            elif rr == z3.sat: r = 'sat'
            else:
                v, model, n2 = guess(en, ob, side, h); qn += n2
                if v == 'sat':
                    ob.model = model; ob.status = r = 'sat'; ob.solver = 'model search'
                    if sat_found(ob): stop = True
        ob.time = time.time() - t; qt += ob.time
        ob.status = r
        if stop: break
        if r != 'unsat': hard.append(ob)
    for ob in [] if stop else hard:
        # counterexample model / hard proof through the external portfolio
        if ob.model is not None: continue
        qn += 1
        if getattr(ob, 'leaf_model', None) is not None: v, model, who, dt = 'sat', ob.leaf_model, 'case split', 0.0
        else: v, model, who, dt = decide(ob)
        qt += dt; ob.time += dt; ob.solver = who; ob.status = v; ob.model = model
        if v == 'unsat': continue
        if v == 'unknown':
            # last resort for the search direction: concretise part of the inputs (seeded) and ask again
            v, model, dt, n2 = partial(en, ob, side, solvers, job, sem, h)
            qt += dt; qn += n2
            if v == 'sat': ob.status = 'sat'; ob.model = model
            else:
                res['undecided'].append('%s [%s] %s' % (ob.label, ob.kind, str(who)[:150])); continue
        if sat_found(ob): break
    if 'error' not in res:
        for lab, obs in reach.items():
            ok = False
            for ob in obs:
                s = z3.Solver(); s.set('timeout', 20000); s.add(*side); s.add(*ob.pc); qn += 1
                t = time.time(); r = s.check(); qt += time.time() - t
                if r == z3.unsat: continue
                if r == z3.sat: ok = True; break
                v, model, who, dt = solve.check(side + list(ob.pc), None, solvers, tmo, sem, job['wd']); qn += 1; qt += dt
                if v == 'sat': ok = True; break
                if v == 'unknown': ok = True; res.setdefault('notes', []).append('reach %s: solver unknown' % lab); break
            if not ok:
                # a violation that cuts every path also makes the end unreachable
                if not res['violations']:
                    res['status'] = 'error'; res['error'] = 'vacuous: mark %r is unreachable' % lab
    res['reach'] = sorted(reach)
    res['n_obl'] = len(todo); res['queries'] = qn; res['solver_s'] = round(qt, 2)
    res['obligations'] = summarize(todo)
    res['term_nodes'] = solve.term_vars([zz for ob in todo for zz in (ob.cond,)])[2] if todo else 0
    # conformance: encoding vs native on concrete vectors
    try:
        res['conf'], res['conf_bad'] = conformance(job, mod, h, en)
    except ir.Unsupported as e:
        res['conf'], res['conf_bad'] = 0, []
        res.setdefault('notes', []).append('conformance run not encodable: %s' % e)
    if res['conf_bad'] and not res['violations']:
        res['status'] = 'error'; res['error'] = 'encoding disagrees with native run: %s' % res['conf_bad'][:2]
    res['wall'] = round(time.time() - t0, 2)
    return res

def polyproof(ob, side, h, solvers, job, sem, nfst, budget, leaves):
    """equality in real mode: normal form + case split, remaining leaves to the solvers"""
    a, b, tol = ob.extra
    ob.ncases = 0
    v, x = polyeq.prove_eq(side + list(ob.pc), a, b, budget, nf=nfst[0], rules=nfst[1])
    if v == 'unsat': ob.solver = 'normal-form/z3'; ob.ncases = x; return True
    if v == 'leaves' and leaves and len(x) <= 200:
        base = side + list(ob.pc)
        for lf in x:
            ob.ncases += 1
            r, model, who, dt = solve.check(base + lf, None, solvers, h.get('leaf_timeout', 20), sem, job['wd'])
            if r != 'unsat':
                if r == 'sat' and model is not None: ob.leaf_model = model
                return False
        ob.solver = 'case split/' + '+'.join(solvers); return True
    return False

def summarize(obls):
    d = {}
    for o in obls:
        k = (o.kind, o.label); e = d.setdefault(k, dict(kind=o.kind, label=o.label, n=0, unsat=0, solver={}, time=0.0))
        e['n'] += 1; e['unsat'] += o.status == 'unsat'; e['time'] = round(e['time'] + o.time, 3)
        s = str(o.solver)[:20]; e['solver'][s] = e['solver'].get(s, 0) + 1
    return list(d.values())

def model_vals(en, model):
    vals = {}
    for (n, i), (k, t) in en.nondets.items():
        v = (model or {}).get('in_%s_%d' % (n, i))
        vals[(n, i)] = (k, v)
    return vals

def draw(rnd, key, k, gen, pg=.7):
    """a random value for one input: Fraction, bool or int"""
    g = gen.get(key[0])
    if k in ('f32', 'f64'):
        if g is not None and rnd.random() < pg:
            x = rnd.choice(g) if isinstance(g, list) else rnd.uniform(*g)
            if x != x or abs(x) == float('inf'): return Fraction(0)
            return Fraction(round(x * 16), 16) if abs(x) > 1 and rnd.random() < .5 else Fraction(ex.f32(float(x)))
        return Fraction(rnd.choice([0, 1, 2, -1, 3, 5, -2, 10, rnd.randint(-40, 40)]), rnd.choice([1, 1, 2, 4]))
    if k == 'b': return rnd.random() < .5
    w = int(k[1:])
    if g is not None and rnd.random() < pg: return (rnd.choice(g) if isinstance(g, list) else rnd.randint(*g)) & ((1 << w) - 1)
    return rnd.choice([0, 1, 2, 3, 7, rnd.getrandbits(16), rnd.getrandbits(32), rnd.getrandbits(64)]) & ((1 << w) - 1)

def guess(en, ob, side, h):
    """model search for the negated obligation by evaluating the encoding at seeded points (search direction only)"""
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')) * 104729 + len(ob.label))
    gen = h.get('gen', {})
    end = time.time() + h.get('guess_budget', 6); n = 0
    nd = [(key, k, t) for key, (k, t) in en.nondets.items() if z3.is_expr(t)]
    ss = {c.get_id() for c in getattr(en, 'stub_side', [])}
    f = z3.And(*[c for c in side if c.get_id() not in ss], *ob.pc, z3.Not(ob.cond))
    while time.time() < end and n < h.get('guess_max', 400):
        n += 1
        sub = []; model = {}
        for key, k, t in nd:
            v = draw(rnd, key, k, gen, .9)
            if k in ('f32', 'f64'):
                if en.mode == 'real': sub.append((t, z3.RealVal(str(v))))
                else: sub.append((en.fp_src[t.get_id()], z3.BitVecVal(ex.f2bits(float(v), k), 32 if k == 'f32' else 64)))
                model['in_%s_%d' % key] = v if en.mode == 'real' else ex.f2bits(float(v), k)
            elif k == 'b':
                sub.append((t, z3.BoolVal(v))); model['in_%s_%d' % key] = v
            else:
                sub.append((t, z3.BitVecVal(v, t.size()))); model['in_%s_%d' % key] = v
        e = z3.substitute(f, *sub)
        e = stublib.interpret(e) if ss else z3.simplify(e)
        if z3.is_true(e): return 'sat', model, n
    return 'unknown', None, n

def partial(en, ob, side, solvers, job, sem, h):
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')) * 7919 + len(ob.label))
    t0 = time.time(); n = 0
    nd = [(key, k, t) for key, (k, t) in en.nondets.items() if z3.is_expr(t)]
    end = time.time() + h.get('partial_budget', 60)
    gen = h.get('gen', {})
    rounds = 0
    while time.time() < end:
        fix = []
        pfix = (0.5, 0.8, 0.95, 1.0)[rounds % 4]; rounds += 1
        for key, k, t in nd:
            if rnd.random() < pfix:
                g = gen.get(key[0])
                if k in ('f32', 'f64'):
                    if g is not None and rnd.random() < .7:
                        x = rnd.choice(g) if isinstance(g, list) else rnd.uniform(*g)
                        val = Fraction(round(x * 16), 16) if abs(x) > 1 and rnd.random() < .5 else Fraction(ex.f32(float(x))) if x == x and abs(x) != float('inf') else Fraction(0)
                    else: val = Fraction(rnd.choice([0, 1, 2, -1, 3, 5, -2, 10]) , rnd.choice([1, 1, 2, 4]))
                    if en.mode == 'real': fix.append(t == z3.RealVal(str(val)))
                    else: fix.append(en.fp_src[t.get_id()] == z3.BitVecVal(ex.f2bits(float(val), k), 32 if k == 'f32' else 64))
                elif k == 'b': fix.append(t == rnd.choice([True, False]))
                else:
                    if g is not None and rnd.random() < .7: x = rnd.choice(g) if isinstance(g, list) else rnd.randint(*g)
                    else: x = rnd.choice([0, 1, 2, 3, 7, rnd.getrandbits(16), rnd.getrandbits(32), rnd.getrandbits(64)])
                    fix.append(t == z3.BitVecVal(x, t.size()))
        v, model, who, dt = solve.check(side + list(ob.pc) + [z3.Not(ob.cond)] + fix, None, solvers, 8, sem, job['wd']); n += 1
        if v == 'sat':
            # inputs that were fixed may have been simplified away
            for f in fix:
                nm = None
            s = z3.Solver(); s.set('timeout', 8000); s.add(*side, *ob.pc, z3.Not(ob.cond), *fix)
            model = dict(model or {})
            for f in fix:
                a, b = f.arg(0), f.arg(1)
                if z3.is_bool(a): model[a.decl().name()] = z3.is_true(b)
                elif z3.is_rational_value(b): model[a.decl().name()] = Fraction(b.as_fraction())
                elif z3.is_bv_value(b) and z3.is_const(a): model[a.decl().name()] = b.as_long()
            return 'sat', model, time.time() - t0, n
    return 'unknown', None, time.time() - t0, n

def confirm(en, ob, job, h, res, side, solvers, tmo, sem):
    """replay natively; try several models when the first does not reproduce (real mode rounding)"""
    tries = 0
    cands = []
    if ob.kind == 'near' and en.mode == 'real':
        a, b, tol = ob.extra
        d = a - b
        # prefer counterexamples far outside the rounding band
        t4 = z3.RealVal('1/20')
        big = z3.And(z3.Or(d > t4, d < -t4), z3.Or(d > t4 * a, d < -t4 * a) if True else True)
        scale = [z3.Or(z3.And(d > 0, d > t4 * a, d > -t4 * a, d > t4 * b, d > -t4 * b), z3.And(d < 0, -d > t4 * a, -d > -t4 * a, -d > t4 * b, -d > -t4 * b))]
        cands.append([z3.Or(d > t4, d < -t4)] + scale)
        cands.append([z3.Or(d > z3.RealVal('1/1000'), d < -z3.RealVal('1/1000'))])
        cands.append([])
    else: cands.append([])
    models = [ob.model] if ob.model is not None else []
    base = side + list(ob.pc) + [z3.Not(ob.cond)]
    allunsat_tol = False
    # inputs rounded to binary32 may leave the path: also ask for small dyadic inputs
    k = 0
    while k < 12:
        if not models:
            if not cands: break
            extra = cands.pop(0)
            v, m, who, dt = solve.check(base + extra, None, solvers, min(tmo, 60), sem, job['wd'])
            if v != 'sat': continue
            models.append(m)
            if en.mode == 'real':
                mm = dyadic(en, base + extra, m)
                if mm is not None: models.append(mm)
            continue
        m = models.pop(0); k += 1
        vals = model_vals(en, m)
        path = os.path.join(job['wd'], '%s_%d.vals' % (job['fn'], os.getpid()))
        write_vals(path, vals)
        rc, out, err = native_run(job['native'], job['fn'], path)
        bad = rc == 42 or (rc < 0) or rc == 124
        how = out.strip().split('\n')[-1] if out else ''
        if not bad and (ob.kind in ('mem', 'overflow', 'shift', 'div0', 'fptoi', 'ub') or rc not in (0, 77)):
            rc2, out2, err2 = native_run(job['native_san'], job['fn'], path)
            if rc2 not in (0, 77): bad = True; how = (out2 + err2).strip()[-600:] or 'exit %d' % rc2
        if bad:
            if how == '' : how = 'native exit %d %s' % (rc, err[-300:])
            if os.environ.get('VF_DEBUG'): print('CE', job['fn'], ob.label, how)
            dst = os.path.join(VERIF, 'replays', '%s_%s_%d' % (job['pid'], job['fn'], len(res['violations'])))
            os.makedirs(dst, exist_ok=True)
            write_vals(os.path.join(dst, 'inputs.txt'), vals)
            with open(os.path.join(dst, 'README'), 'w') as f:
                f.write('property %s harness %s obligation [%s] %s\nnative: %s\nreplay: python3-vt %s/check.py %s --replay %s %s\n' %
                        (job['pid'], job['fn'], ob.kind, ob.label, how, HERE, job['pid'], job['fn'], os.path.join(dst, 'inputs.txt')))
            res['violations'].append(dict(label=ob.label, kind=ob.kind, replay=dst, native=how[:600],
                                          inputs={'%s[%d]' % kk: fval_txt(*vv) for kk, vv in sorted(vals.items())}))
            return True
    if ob.kind == 'near':
        # difference exists in exact arithmetic; is it within tolerance?
        a, b, tol = ob.extra
        if en.mode == 'real':
            d = a - b; t = tol
            q = base[:-1] + [z3.Or(d > t, d < -t), z3.Or(z3.And(d > 0, d > t * a, d > -t * a), z3.And(d < 0, -d > t * a, -d > -t * a))]
            v, m, who, dt = solve.check(q, None, solvers, tmo, sem, job['wd'])
            if v == 'unsat':
                ob.status = 'unsat'; res.setdefault('notes', []).append('%s holds within tolerance only' % ob.label); return False
    res['undecided'].append('%s [%s]: counterexample did not reproduce natively: %s' % (ob.label, ob.kind, str(ob.model)[:400]))
    return False

def dyadic(en, base, m):
    """round the model to nearby small dyadics while staying satisfiable"""
    s = z3.Solver(); s.set('timeout', 3000); s.add(*base)
    out = dict(m)
    for (n, i), (k, t) in en.nondets.items():
        nm = 'in_%s_%d' % (n, i)
        if k not in ('f32', 'f64') or not z3.is_expr(t): continue
        v = m.get(nm)
        if v is None: continue
        v = Fraction(v)
        done = False
        for den in (1, 8, 1024, 1 << 20):
            r = Fraction(round(v * den), den)
            s.push(); s.add(t == z3.RealVal(str(r)))
            if s.check() == z3.sat:
                out[nm] = r; done = True; break
            s.pop()
        if not done: pass
    return out

def conformance(job, mod, h, en0):
    """run the encoding on concrete inputs and compare with the native binary"""
    n = h.get('conf', 6)
    if not n: return 0, []
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    good, bad = 0, []
    tries = 0
    gen = h.get('gen', {})
    while good < n and tries < n * 6:
        tries += 1
        conc = {}; vals = {}
        for (nm, i), (k, t) in en0.nondets.items():
            g = gen.get(nm)
            if g is not None: v = rnd.choice(g) if isinstance(g, list) else rnd.uniform(*g) if k in ('f32', 'f64') else rnd.randint(*g)
            elif k == 'f32' or k == 'f64': v = round(rnd.uniform(-10, 10), 3) if rnd.random() < .8 else float(rnd.randint(-3, 3))
            elif k == 'b': v = rnd.random() < .5
            else:
                w = int(k[1:]); v = rnd.choice([rnd.randint(0, 8), rnd.getrandbits(w)])
            if k == 'f32': v = ex.f32(float(v))
            conc[(nm, i)] = v
            vals[(nm, i)] = (k, ex.f2bits(v, k) if k in ('f32', 'f64') else v)
        path = os.path.join(job['wd'], '%s_conf%d.vals' % (job['fn'], os.getpid()))
        write_vals(path, vals)
        rc, out, err = native_run(job['native'], job['fn'], path, cont=True)
        if rc == 77: continue
        e2 = mk_engine(job, mod, conc)
        sym_run(e2, job['fn'], 120)
        fails = []
        for ob in e2.obls:
            if ob.kind in ('assert',) and z3.is_false(z3.simplify(ob.cond)): fails.append(ob.label)
            if ob.kind == 'near' and e2.mode == 'fp':
                pass
        obs = {}
        for (l, i, v, pc) in e2.observed:
            if not ex.isz(v) and v is not ex.UNDEF: obs[(l, i)] = float(v)
        nfails = re.findall(r'^VF-FAIL (.*)$', out, re.M)
        nobs = {}
        for l, i, v in re.findall(r'^VF-OBS (\S+) (\d+) (\S+)$', out, re.M): nobs[(l, int(i))] = float.fromhex(v) if v not in ('nan', '-nan', 'inf', '-inf') else float(v)
        if rc != 0: bad.append(('native exit', rc, (out + err)[-200:])); break
        mism = None
        for kk, v in obs.items():
            if kk not in nobs: mism = (kk, v, 'missing'); break
            w = nobs[kk]
            if v != v and w != w: continue
            tol = 0 if e2.mode == 'fp' else 1e-3 * max(1, abs(v), abs(w))
            if not abs(v - w) <= tol and v != w: mism = (kk, v, w); break
        if e2.mode == 'fp' and set(fails) - set(x for x in nfails): mism = mism or ('fails', fails, nfails)
        if mism: bad.append((mism, {('%s[%d]' % k): v for k, v in conc.items()})); break
        good += 1
    return good, bad

def load_spec(pid):
    p = os.path.join(VERIF, 'props', pid, 'spec.py')
    sp = importlib.util.spec_from_file_location('spec_' + pid, p)
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    return m

def load_known():
    p = os.path.join(VERIF, 'known-findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'^known: property=(\w+) match=(\S+) (.*)$', l)
            if m: out.append(m.groups())
    return out

def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    only = args[args.index('--harness') + 1] if '--harness' in args else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = load_spec(pid)
    base = os.environ.get('VF_TMP') or tempfile.gettempdir()
    wd = tempfile.mkdtemp(prefix='vf_%s_' % pid, dir=base)
    try:
        return run(pid, tier, only, seed, t0, spec, wd, args)
    finally:
        shutil.rmtree(wd, ignore_errors=True)

def run(pid, tier, only, seed, t0, spec, wd, args):
    hsrc = os.path.join(VERIF, 'props', pid, 'harness.cpp')
    extra = getattr(spec, 'CFLAGS', [])
    if tier == 'thorough': extra = extra + ['-DVF_THOROUGH=1']
    try:
        with ThreadPoolExecutor(3) as tp:
            a = tp.submit(build_ir, pid, wd, hsrc, extra, 'ir')
            b = tp.submit(build_native, wd, hsrc, extra, 'opt', False)
            c = tp.submit(build_native, wd, hsrc, extra, 'san', True)
            ll, nat, san = a.result(), b.result(), c.result()
    except BuildError as e:
        print('BUILD-ERROR %s' % e); return 2
    if '--replay' in args:
        i = args.index('--replay')
        for bn in (nat, san):
            print(native_run(bn, args[i + 1], args[i + 2]))
        return 0
    build_s = time.time() - t0
    jobs = []
    for h in spec.HARNESSES:
        if h.get('tier') == 'thorough' and tier != 'thorough': continue
        if only and h['fn'] != only: continue
        hh = dict(h)
        if tier == 'thorough' and 'thorough' in h: hh.update(h['thorough'])
        jobs.append(dict(id=len(jobs), pid=pid, fn=h['fn'], h=hh, ll=ll, native=nat, native_san=san, wd=wd, tier=tier))
    sem = mp.BoundedSemaphore(getattr(spec, 'PAR', 4))
    q = mp.Queue()
    results = {}
    knownkeys = {k[1] for k in load_known() if k[0] == pid}
    pend = list(jobs); act = {}
    budget = float(os.environ.get('VF_BUDGET', '800' if tier == 'quick' else '36000'))
    while pend or act:
        while pend and len(act) < 8:
            j = pend.pop(0)
            p = mp.Process(target=run_harness, args=(j, sem, q)); p.start(); act[j['id']] = (p, j, time.time())
        try:
            i, r = q.get(timeout=0.5)
            results[i] = r; act[i][0].join(5); del act[i]
            if tier == 'quick' and '--all' not in args and any('%s:%s' % (r['fn'], v['label'].replace(' ', '_')) not in knownkeys for v in r.get('violations', [])):
                for i, (p, j, ts) in list(act.items()): p.kill()
                act = {}; pend = []
                subprocess.run(['pkill', '-9', '-f', wd])
                break
        except Exception:
            for i, (p, j, ts) in list(act.items()):
                if not p.is_alive() and i not in results:
                    time.sleep(0.3)
                    try:
                        ii, r = q.get(timeout=0.5); results[ii] = r; act.pop(ii, None); continue
                    except Exception: pass
                    results[i] = dict(fn=j['fn'], status='error', error='harness process died (exit %s)' % p.exitcode); del act[i]
            if time.time() - t0 > budget:
                for i, (p, j, ts) in list(act.items()):
                    p.kill(); results[i] = dict(fn=j['fn'], status='error', error='time budget exhausted'); del act[i]
                for j in pend: results[j['id']] = dict(fn=j['fn'], status='error', error='time budget exhausted')
                pend = []
                subprocess.run(['pkill', '-9', '-f', wd])
    known = [k for k in load_known() if k[0] == pid]
    viol, knownhit, errs, und = [], [], [], []
    for i in sorted(results):
        r = results[i]
        for v in r.get('violations', []):
            key = '%s:%s' % (r['fn'], v['label'].replace(' ', '_'))
            kk = [k for k in known if k[1] == key]
            if kk: knownhit.append((kk[0], v))
            else: viol.append((r, v))
        if r.get('status') == 'error': errs.append((r['fn'], r.get('error')))
        for u in r.get('undecided', []): und.append((r['fn'], u))
        if '-v' in args or os.environ.get('VF_VERBOSE'):
            print('  %-28s %-6s obl=%s q=%s solver=%ss exec=%ss wall=%ss conf=%s %s' % (r['fn'], r.get('status'), r.get('n_obl'), r.get('queries'), r.get('solver_s'), r.get('exec_s'), r.get('wall'), r.get('conf'), r.get('notes', '')))
            if '-vv' in args:
                for o in r.get('obligations', []): print('      ', o)
    write_evidence(pid, tier, seed, spec, [results[i] for i in sorted(results)], viol, knownhit, errs, und, t0, build_s)
    for k, v in knownhit: print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    for r, v in viol:
        print('  %s: %s [%s] native: %s inputs: %s' % (r['fn'], v['label'], v['kind'], v['native'], json.dumps(v['inputs'])[:900]))
    if viol:
        for f, u in und: print('INCONCLUSIVE %s: %s' % (f, u))
        print('VIOLATION property=%s replay=%s' % (pid, viol[0][1]['replay'])); return 1
    for f, e in errs: print('ERROR %s: %s' % (f, e))
    for f, u in und: print('INCONCLUSIVE %s: %s' % (f, u))
    if errs or und: return 2
    n = sum(r.get('n_obl', 0) for r in results.values())
    print('OK property=%s tier=%s harnesses=%d obligations=%d wall=%.1fs' % (pid, tier, len(results), n, time.time() - t0))
    return 0

def write_evidence(pid, tier, seed, spec, rs, viol, known, errs, und, t0, build_s):
    d = os.path.join(VERIF, 'evidence'); os.makedirs(d, exist_ok=True)
    st = lambda k: sum(r.get('stats', {}).get(k, 0) for r in rs)
    fns = sorted({f for r in rs for f in r.get('functions', [])})
    hs = []
    for r in rs:
        hs.append({k: r.get(k) for k in ('fn', 'mode', 'status', 'bounds', 'n_obl', 'queries', 'solver_s', 'exec_s', 'wall', 'stats', 'stubs', 'reach', 'conf', 'notes', 'error', 'undecided')})
    samples = []
    for r in rs:
        for o in r.get('obligations', [])[:3]: samples.append(dict(harness=r['fn'], **o))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=st('blocks'), transitions=st('edges'), merges=st('merges'), feasibility_queries=st('feas'),
                            traces_validated_against_impl=sum(r.get('conf', 0) or 0 for r in rs),
                            samples=samples[:40], functions_encoded=fns,
                            obligations=sum(r.get('n_obl', 0) or 0 for r in rs),
                            discharged=sum(o['unsat'] for r in rs for o in r.get('obligations', [])),
                            queries=sum(r.get('queries', 0) or 0 for r in rs),
                            solver_s=round(sum(r.get('solver_s', 0) or 0 for r in rs), 2),
                            build_s=round(build_s, 2), harnesses=hs,
                            known_findings=[k[2] for k, _ in known], undecided=['%s: %s' % x for x in und], errors=['%s: %s' % x for x in errs],
                            rule='states/transitions: merged symbolic basic-block executions and edges; each stands for all inputs within the stated bounds',
                            exhaustive=False),
              assumptions=list(getattr(spec, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(d, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)

if __name__ == '__main__':
    sys.exit(main())
