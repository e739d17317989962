"""Explores the symbolic paths of a property's harnesses on all cores, replays candidate
counterexamples against the real package, and writes the evidence file."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction
from multiprocessing.connection import wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Harness:
    """func(t, **params) run for every params in quick / thorough"""

    def __init__(self, name, func, quick=({},), thorough=None, weight=1.0, float_sensitive=False, path_s=4.0, must_cover=()):
        self.name, self.func = name, func
        self.quick = list(quick)
        self.thorough = list(thorough) if thorough is not None else self.quick
        self.weight = weight
        self.float_sensitive = float_sensitive
        self.path_s = path_s
        self.must_cover = tuple(must_cover)


def enc(x):
    if isinstance(x, Fraction):
        return {'$f': [str(x.numerator), str(x.denominator)]}
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if hasattr(x, 'item'):
        return x.item()
    return x


def dec(x):
    if isinstance(x, dict):
        if '$f' in x:
            return Fraction(int(x['$f'][0]), int(x['$f'][1]))
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


class Counts(dict):
    def add(self, k, n=1):
        self[k] = self.get(k, 0) + n


def _alarm(*a):
    from . import sym as S
    raise S.PathBudget()


def worker(conn, units, seed, tier, tags):
    from . import harness as H
    from . import loader
    from . import sym as S
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(5000)
    S.z3()
    prof = {}
    nval = {}
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        ui, stack, slice_s, stop_at = msg
        hs, params = units[ui]
        out = {'ui': ui, 'c': Counts(), 'conf': [], 'inc': [], 'samples': [], 'funcs': [], 'reach': set(), 'val': 0}
        t0 = time.time()
        S.STATS.__init__()
        while stack:
            now = time.time()
            if now - t0 > slice_s or now > stop_at:
                break
            prefix = stack.pop()
            c = out['c']
            funcs = None
            if prof.get(ui, 0) < 2:
                prof[ui] = prof.get(ui, 0) + 1
                funcs = set()
                pk = loader.symbolic().loader.pk

                def tracer(frame, event, arg):
                    if event == 'call':
                        co = frame.f_code
                        if co.co_filename.startswith(pk):
                            funcs.add(os.path.basename(co.co_filename)[:-3] + '.' + co.co_qualname)
                sys.setprofile(tracer)
            signal.setitimer(signal.ITIMER_REAL, hs.path_s * 1.5)
            res = None
            try:
                res = H.run_path(hs.func, params, prefix, seed, hs.path_s)
            except S.PathBudget:
                c.add('budget')
            except BaseException as e:  # engine defect: inconclusive, never an alarm
                c.add('engine_error')
                if len(out['inc']) < 5:
                    out['inc'].append('engine: ' + ''.join(traceback.format_exception_only(type(e), e)).strip() + ' | ' + ' < '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in traceback.extract_tb(e.__traceback__)[-4:]))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                sys.setprofile(None)
            if funcs:
                out['funcs'] += sorted(funcs)
            if res is None:
                continue
            path, t = res['path'], res['t']
            stack += path.pending
            st = res['status']
            c.add('paths')
            c.add(st)
            c.add('branches', len(path.taken))
            c.add('assertions', t.nchecks)
            if st == 'infeasible':
                continue
            out['reach'] |= t.reach
            if res['unknown']:
                c.add('unknown_assertions', res['unknown'])
            if st == 'unsupported' and len(out['inc']) < 5:
                out['inc'].append('unsupported: ' + res.get('why', ''))
            signal.setitimer(signal.ITIMER_REAL, 20)
            try:
                done = False
                vs = sorted(res['viol'], key=lambda v: v[1] is not None)
                for msg_, known, model in [v for v in vs if v[1] is None][:3] + [v for v in vs if v[1] is not None][:1]:
                    c.add('candidates')
                    if model is None:
                        c.add('unreproduced')
                        continue
                    inp = t.inputs(model)
                    r = H.run_concrete(hs.func, params, inp, seed=seed)
                    k = 0
                    while (r[0] != 'fail' or (known is None and r[2] is not None)) and k < 4:
                        k += 1
                        path.model = {}
                        m2 = path.model
                        path.full(m2, set(t.values.values()))
                        if path.model_ok():
                            inp = t.inputs(dict(path.model))
                            r = H.run_concrete(hs.func, params, inp, seed=seed)
                    if r[0] == 'fail' and (known is not None or r[2] is None):
                        if r[2] is not None and sum(1 for f in out['conf'] if f['known'] == r[2]) > 1:
                            done = True
                            break
                        c.add('confirmed')
                        out['conf'].append({'unit': ui, 'harness': hs.name, 'params': enc(params), 'inp': enc(inp), 'symbolic': msg_, 'concrete': r[1], 'known': r[2], 'used': enc(r[3].used)})
                        done = True
                        break
                    c.add('unreproduced')
                    if len(out['inc']) < 5:
                        out['inc'].append('unreproduced: ' + msg_[:300] + ' ' + json.dumps(enc(inp))[:400])
                if not done and (st in ('unsupported', 'budget') or res['unknown'] or (st == 'ok' and not res['viol'])):
                    nv = nval.get(ui, 0)
                    every = st == 'ok' and not res['unknown']
                    if not every or nv < 4 or (nv < 4000 and zlib_pick(prefix, seed, 12)):
                        if path.model_ok():
                            nval[ui] = nv + 1
                            inp = t.inputs(dict(path.model))
                            r = H.run_concrete(hs.func, params, inp, seed=seed)
                            if r[0] == 'ok':
                                out['val'] += 1
                                if len(out['samples']) < 2 and st == 'ok':
                                    out['samples'].append({'harness': hs.name, 'params': enc(params), 'choices': inp['choices'], 'values': {k: float(v) for k, v in list(r[1].used.items())[:12]}, 'draws': enc(inp['draws'])[:8], 'assertions': r[1].nchecks})
                            elif r[0] == 'fail' and r[2] in tags:
                                out['val'] += 1
                            elif r[0] == 'fail':
                                sure = hs.float_sensitive
                                if not every and not sure:
                                    # the path was not decided symbolically: a failure that only shows at extreme
                                    # values may be floating-point error, it must also show at moderate ones
                                    soft = gentle(inp)
                                    g = r if soft is None else H.run_concrete(hs.func, params, soft, seed=seed)
                                    if g[0] == 'fail' and g[2] not in tags:
                                        r, sure = g, True
                                        inp = inp if soft is None else soft
                                if sure:
                                    c.add('confirmed')
                                    out['conf'].append({'unit': ui, 'harness': hs.name, 'params': enc(params), 'inp': enc(inp), 'symbolic': f'path {st}', 'concrete': r[1], 'known': r[2], 'used': enc(r[3].used)})
                                else:
                                    c.add('validation_mismatch')
                                    if len(out['inc']) < 5:
                                        out['inc'].append('mismatch: ' + r[1][:300] + ' ' + json.dumps(enc(inp))[:500])
            except S.PathBudget:
                c.add('replay_timeout')
            except S.Steering as e:
                c.add('replay_error')
                if len(out['inc']) < 5:
                    out['inc'].append('replay: ' + repr(e))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if any(f['known'] not in tags for f in out['conf']):
                break
        out['stats'] = dict(S.STATS.__dict__)
        out['left'] = stack
        out['dt'] = time.time() - t0
        conn.send(out)


def gentle(inp):
    """the same input with its values moved away from the extremes; None when it is moderate already"""
    from fractions import Fraction
    lo, hi = Fraction(1, 64), Fraction(64)
    out, moved = {}, False
    for k, v in inp['values'].items():
        w = v
        if isinstance(v, Fraction):
            if v != 0 and abs(v) < lo:
                w = lo if v > 0 else -lo
            elif abs(v) > hi:
                w = hi if v > 0 else -hi
            elif 1 - lo < v < 1:
                w = 1 - lo
        moved = moved or w != v
        out[k] = w
    return dict(inp, values=out) if moved else None


def zlib_pick(prefix, seed, k):
    import zlib
    return zlib.crc32(repr((prefix, seed)).encode()) % k == 0


def load_property(pid):
    sys.path.insert(0, VERIF)
    return importlib.import_module('props.' + pid)


def known_findings():
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return json.load(f).get('findings', [])


def check(pid, tier, seed=1, budget=None, only=None, verbose=False, nproc=None):
    t_start = time.time()
    warnings.simplefilter('ignore')
    mod = load_property(pid)
    from . import harness as H
    from . import loader
    loader.real()
    try:
        loader.symbolic()
    except Exception as e:
        print(f'INCONCLUSIVE property={pid} the sources cannot be loaded symbolically: {e!r}')
        raise
    budget = budget or (getattr(mod, 'QUICK_S', 20) if tier == 'quick' else getattr(mod, 'THOROUGH_S', 600))
    units = []
    for h in mod.HARNESSES:
        if only and h.name not in only:
            continue
        for p in (h.quick if tier == 'quick' else h.thorough):
            units.append((h, p))
    finds = [f for f in known_findings() if f['property'] == pid]
    tags = {f['tag'] for f in finds}
    ctx = mp.get_context('fork')
    nproc = nproc or min(8, os.cpu_count() or 1)
    conns, procs = [], []
    for _ in range(nproc):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, units, seed, tier, {f['tag'] for f in finds}), daemon=True)
        p.start()
        b.close()
        conns.append(a)
        procs.append(p)
    stop_at = t_start + budget
    stacks = [[[]] for _ in units]
    spent = [0.0] * len(units)
    out_ct = [0] * len(units)
    tot = [Counts() for _ in units]
    from . import sym as S
    stats = S.Stats()
    funcs, reach, inc, samples, conf, known_hit = set(), {}, [], [], [], {}
    val = 0
    rng = random.Random(seed)
    idle = list(conns)
    busy = {}
    dead = 0
    while True:
        now = time.time()
        if not conf and now < stop_at:
            while idle:
                cand = [i for i in range(len(units)) if stacks[i]]
                if not cand:
                    break
                i = min(cand, key=lambda i: (spent[i] + 0.5 * out_ct[i]) / units[i][0].weight)
                st = stacks[i]
                k = max(1, min(24, len(st) // (2 * nproc)))
                batch = []
                for _ in range(min(k, len(st))):
                    j = rng.randrange(len(st))
                    st[j], st[-1] = st[-1], st[j]
                    batch.append(st.pop())
                c = idle.pop()
                out_ct[i] += 1
                small = len(st) < nproc * 2
                c.send((i, batch, 0.05 if small else 0.3, stop_at))
                busy[c] = i
        if not busy:
            break
        for c in wait(list(busy), timeout=1.0):
            i = busy.pop(c)
            out_ct[i] -= 1
            try:
                o = c.recv()
            except EOFError:
                dead += 1
                tot[i].add('worker_died')
                continue
            idle.append(c)
            spent[i] += o['dt']
            stacks[i] += o['left']
            for k, v in o['c'].items():
                tot[i].add(k, v)
            stats.add(o['stats'])
            funcs.update(o['funcs'])
            reach.setdefault(units[i][0].name, set()).update(o['reach'])
            inc += [f"{units[i][0].name}{units[i][1]}: {x}" for x in o['inc']]
            val += o['val']
            if len(samples) < 60:
                samples += o['samples']
            for cf in o['conf']:
                if cf['known'] in tags:
                    known_hit[cf['known']] = cf
                else:
                    conf.append(cf)
        if time.time() > stop_at + 45:
            break
    for c in conns:
        try:
            c.send(None)
        except OSError:
            pass
    for p in procs:
        p.join(timeout=0.5)
        if p.is_alive():
            p.kill()
    # listed findings, replayed on the real code
    for f in finds:
        h = next((h for h in mod.HARNESSES if h.name == f['harness']), None)
        if h is None:
            continue
        r = H.run_concrete(h.func, dec(f['params']), dec(f['inp']), seed=1)
        if r[0] == 'fail':
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
    rows = []
    for i, (h, p) in enumerate(units):
        rows.append({'harness': h.name, 'params': {k: repr(v) if not isinstance(v, (int, str, bool, type(None))) else v for k, v in p.items()}, 'exhausted': not stacks[i] and not tot[i].get('budget') and not tot[i].get('worker_died'), 'open_prefixes': len(stacks[i]), 'cpu_s': round(spent[i], 2), **tot[i]})
    vac = []
    for h in mod.HARNESSES:
        if only and h.name not in only:
            continue
        miss = [x for x in h.must_cover if x not in reach.get(h.name, ())]
        if miss:
            vac.append(f'{h.name}: not reached {miss}')
        if not sum(r.get('ok', 0) + r.get('fail', 0) for r in rows if r['harness'] == h.name):
            vac.append(f'{h.name}: no completed path')

    def total(k):
        return sum(r.get(k, 0) for r in rows)
    wall = time.time() - t_start
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 2),
        'violations': len(conf),
        'coverage': {
            'states': total('paths'), 'transitions': total('branches'), 'traces_validated_against_impl': val,
            'samples': pick_samples(samples),
            'exhaustive': all(r['exhausted'] for r in rows),
            'paths_complete': total('ok'), 'paths_infeasible': total('infeasible'), 'paths_unsupported': total('unsupported'), 'paths_over_budget': total('budget'),
            'assertions': total('assertions'), 'assertions_unknown': total('unknown_assertions'),
            'candidates': total('candidates'), 'candidates_unreproduced': total('unreproduced'), 'validation_mismatch': total('validation_mismatch'),
            'solver_queries': stats.queries, 'solver_unsat': stats.unsat, 'solver_sat': stats.sat, 'solver_unknown': stats.unknown,
            'solver_s': round(stats.solver_s, 2), 'normal_form_identities': stats.normal_form, 'forks': stats.forks,
            'functions_encoded': sorted(funcs), 'units': rows, 'bounds': getattr(mod, 'BOUNDS', ''), 'outside': getattr(mod, 'OUTSIDE', ''),
            'inconclusive': inc[:20], 'vacuous': vac, 'known_findings_seen': sorted(known_hit),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'double arithmetic is modelled as exact real arithmetic; each candidate is replayed in doubles on the real code with tolerance 1e-6 (1+|x|)',
            'numpy / scipy / networkx calls follow their documented contracts (engine/npshim.py); sampled paths are replayed on the real libraries',
        ],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    c = ev['coverage']
    print(f"{pid} {tier}: paths={c['states']} ok={c['paths_complete']} infeasible={c['paths_infeasible']} unsupported={c['paths_unsupported']} budget={c['paths_over_budget']} assertions={c['assertions']} unknown={c['assertions_unknown']} queries={c['solver_queries']} solver_s={c['solver_s']} nf={c['normal_form_identities']} validated={val} mismatch={c['validation_mismatch']} unreproduced={c['candidates_unreproduced']} exhaustive={c['exhaustive']} wall={wall:.1f}s")
    for v in vac:
        print('NOTE vacuous:', v)
    if verbose:
        for r in rows:
            print('  ', r)
        for x in inc[:12]:
            print('   inconclusive:', x[:1200])
    if conf:
        rd = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rd, exist_ok=True)
        for cf in conf[:3]:
            cf['property'] = pid
            body = json.dumps(cf, indent=1, default=str)
            fn = os.path.join(rd, f"{pid}-{hashlib.sha1(body.encode()).hexdigest()[:10]}.json")
            with open(fn, 'w') as f:
                f.write(body)
            print(f"  {cf['harness']} {cf['params']}: {cf['concrete'][:600]}")
            print(f'VIOLATION property={pid} replay={fn}')
        return 1
    return 0


def pick_samples(samples):
    seen, out = set(), []
    for s in samples:
        if s['harness'] not in seen:
            seen.add(s['harness'])
            out.append(s)
    for s in samples:
        if len(out) >= 12:
            break
        if s not in out:
            out.append(s)
    return out[:20]


def replay(fn):
    with open(fn) as f:
        cf = json.load(f)
    mod = load_property(cf['property'])
    from . import harness as H
    h = next(h for h in mod.HARNESSES if h.name == cf['harness'])
    r = H.run_concrete(h.func, dec(cf['params']), dec(cf['inp']), seed=1)
    print(r[0], r[1] if r[0] == 'fail' else '')
    print('inputs:', json.dumps(cf['inp']))
    return 1 if r[0] == 'fail' else 0
