#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current tree.

1. extract the functions the property depends on from the sources (clang AST), put the contracts on them
   and have Verus discharge every obligation;
2. meanwhile run the real code (bounded stand-in and replay search);
3. write evidence/<property>.json; exit 1 with a VIOLATION line when an obligation of the property fails
   or the real code breaks it, 0 otherwise."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vx'))
import gen, plan, axioms, coqaudit, literals

T0 = time.time()
P = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
if '--thorough' in sys.argv: TIER = 'thorough'
if TIER not in ('quick', 'thorough'): TIER = 'quick'
try: SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError: SEED = 1
THOROUGH = TIER == 'thorough'
WORK = tempfile.mkdtemp(prefix='vchk_' + P + '_')
REPLAYS = os.path.join(HERE, 'replays'); os.makedirs(REPLAYS, exist_ok=True)
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
LITS = ' '.join(map(str, literals.fresh(gen.REPO)))
FLAGS = ['-std=c++14', '-w', '-O1', '-g1', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS', '-include', 'cstdint', '-include', 'iostream', '-include', 'limits', '-include', 'algorithm'] + gen.INCS

# ------------------------------------------------------------------ the real code
class Harness(threading.Thread):
    def __init__(self):
        super().__init__(daemon=True)
        self.bin = os.path.join(WORK, 'h'); self.err = None; self.runs = []; self.noanswer = []; self.priv = True; self.compile_s = 0
        self.budget = 200 if THOROUGH else 10
    def run(self):
        src = os.path.join(HERE, 'harness', plan.HARNESS[P] + '.cc')
        opt = ['-O0'] if plan.HARNESS[P] == 'vg' and not THOROUGH else []
        t = time.time(); log = ''
        for extra in ([], ['-DNOPRIV']):
            r = subprocess.run(['g++'] + FLAGS + opt + extra + [src, '-o', self.bin], capture_output=True, text=True, errors='replace')
            self.compile_s = time.time() - t
            if r.returncode == 0: self.priv = not extra; break
            log = r.stderr[-3000:]
        else:
            self.err = 'the harness does not compile against this tree: ' + log; return
        self.once(SEED, self.budget)
    def once(self, seed, budget):
        rep = os.path.join(WORK, 'rep_%d.json' % seed)
        try:
            r = subprocess.run([self.bin, P, str(seed), str(budget), rep], capture_output=True, text=True, errors='replace', timeout=budget + 120, cwd=WORK, env=dict(os.environ, TMPDIR=WORK, VX_LITS=LITS))
            out = json.loads(r.stdout.strip().split('\n')[-1]) if r.stdout.strip() else {}
            out['rc'] = r.returncode
        except (subprocess.TimeoutExpired, ValueError) as e: out = dict(rc=2, error=str(e))
        if out.get('rc') == 1 and os.path.exists(rep): out['replay'] = json.load(open(rep, errors='replace'))
        out['seed'] = seed
        (self.runs if out.get('rc') in (0, 1) else self.noanswer).append(out)
        return out
    def bad(self): return next((r for r in self.runs if r['rc'] == 1), None)

# ------------------------------------------------------------------ the proof
def ids(name): return re.findall(r'\bC\d\d\b', name)
def aid(t):
    """the droppable annotation a line belongs to"""
    if t and t[0] == 'hint': return ('hint', t[1])
    if t and len(t) > 3 and t[0] in ('invariant', 'invariant_except_break', 'ensures'): return ('inv', t[2]) + t[3]
    return None
class Proof:
    def __init__(self): self.groups = []; self.verified = 0; self.errors = 0; self.time = 0; self.cmds = []; self.failed = []; self.undecided = {}; self.scope = {}; self.trusted = set(); self.vacuous = []; self.smt_ms = 0; self.clauses = 0; self.rerun = 0; self.retried = {}; self.dropped = {}; self.extracted_from = {}
    def run(self):
        for name, g in plan.GROUPS.items():
            cs = gen.group_contracts(g)
            if any(P in ids(n) for c in cs for n, _ in c.ensures): self.group(name, g, cs)
    def place(self, cr, d):
        """the function a diagnostic belongs to, and its places"""
        tags = [(cr.lines[a - 1][1], cr.lines[a - 1][0].strip(), prim) for a, b, lab, prim in d[2] if a <= len(cr.lines)]
        return next((t[1] for t, _, prim in tags if t and t[0] == 'fn' and prim), None) or next((t[1] for t, _, _ in tags if t and t[0] == 'fn'), None), tags
    def group(self, name, g, cs):
        owned = [c.rust for c in cs if any(P in ids(n) for n, _ in c.ensures)]
        broken = {}
        try: G = gen.Gen(g['units'], cs)
        except Exception as e:
            for o in owned: self.undecided[o] = 'sources not understood: %s' % e
            return
        by0 = {c.rust: c for c in cs}
        owners = {c.rust: sorted({i for n, _ in c.ensures for i in ids(n)}) for c in cs}
        lost = {}
        for attempt in range(12):
            try: cr, info = gen.build(G, g, cs, broken)
            except Exception as e:
                for o in owned: self.undecided[o] = 'extraction: %s' % e
                return
            text = {}
            for l, tag in cr.lines:
                if tag and tag[0] == 'fn': text.setdefault(tag[1], []).append(l)
            names = set(owners)
            deps = {f: (set(re.findall(r'\b\w+(?=\()', '\n'.join(text.get(f, [])))) & names) - {f} for f in names}
            clo = set(); todo = list(owned)
            while todo:
                f = todo.pop()
                if f in clo: continue
                clo.add(f); todo += deps[f]
            live = [f for f in sorted(clo) if f in text and 'error' not in info[f] and not info[f].get('extern')]
            mods = ['f_' + f for f in live] + ['s_' + s[:-3] for s in g.get('lemmas', g['specs'])]
            res = gen.run_verus(cr, mods, rlimit=g.get('rlimit', 30) * (3 if THOROUGH else 1), timeout=600 if THOROUGH else 240)
            self.time += res['wall']
            vr = (res['js'] or {}).get('verification-results', {})
            if res['js'] is None or vr.get('encountered-vir-error') or (vr.get('encountered-error') and not res['errors'] and not res['verified']):
                bad = {}; aids = {}; why_aid = {}
                for lv, msg, sp, rend in res['diags']:
                    if lv != 'error': continue
                    for a, b, lab, prim in sp:
                        tag = cr.lines[a - 1][1] if a <= len(cr.lines) else None
                        if tag and tag[0] == 'fn' and 'error' not in info[tag[1]]:
                            d = aid(tag[2])
                            if d and d not in G.drops.get(tag[1], ()): aids.setdefault(tag[1], set()).add(d); why_aid[tag[1]] = msg
                            else: bad.setdefault(tag[1], 'the extracted function is not accepted: %s' % msg)
                for f, ds in aids.items():
                    if f not in bad: G.drops.setdefault(f, set()).update(ds); lost[f] = why_aid[f]
                if aids and not bad: self.rerun += 1; continue
                if not bad:
                    why = 'Verus gives no answer: %s' % ('; '.join(m for l, m, s, r in res['diags'] if l == 'error')[:500] or res['raw'][-500:] or 'time limit')
                    for o in owned: self.undecided[o] = why
                    return
                broken.update(bad); self.rerun += 1; continue
            break
        else:
            for o in owned: self.undecided[o] = 'extraction does not settle'
            return
        for f in sorted(clo):
            if 'error' in info.get(f, {}): self.undecided[f] = info[f]['error']
            elif info.get(f, {}).get('extern'): self.trusted.add(('contract used here, its body verified in another group: ' if 'used' in by0[f].flags else 'contract assumed, body not verified: ') + f)
            if f in G.inlined: pass
        self.scope[name] = live
        for k, v in G.dropped.items(): self.dropped.setdefault(k, set()).update(v)
        for f in live: self.extracted_from[f] = '%s:%s' % (os.path.relpath(info[f].get('file') or '?', gen.REPO), info[f].get('line'))
        self.verified += res['verified']; self.errors += res['errors']; self.cmds.append(res['cmd'])
        try: self.smt_ms += res['js']['times-ms']['smt']['smt-run']
        except (KeyError, TypeError): pass
        for f in live:
            self.clauses += sum(1 for l, t in cr.lines if t and t[0] == 'fn' and t[1] == f and t[2] and t[2][0] in ('ensures', 'invariant', 'hint', 'requires'))
        by = {c.rust: c for c in cs}
        # hints and invariants are aids: a function that fails only there, or also there, is proved again without the failing ones
        diags = [(cr, d) for d in res['diags'] if d[0] == 'error' and 'aborting due' not in d[1]]
        for attempt in range(6):
            again = {}
            for c0, d in diags:
                fn, tags = self.place(c0, d)
                if fn is None: continue
                for t, l, prim in tags:
                    x = aid(t[2]) if t and t[0] == 'fn' and t[1] == fn else None
                    if x and x[0] != 'dec' and x not in G.drops.get(fn, ()): again.setdefault(fn, set()).add(x)
            if not again or time.time() - T0 > 420: break
            for f, xs in again.items(): G.drops.setdefault(f, set()).update(xs); self.retried.setdefault(f, set()).update(xs)
            try: c2, i2 = gen.build(G, g, cs, broken)
            except Exception: break
            r2 = gen.run_verus(c2, ['f_' + f for f in sorted(again)], rlimit=g.get('rlimit', 30) * (3 if THOROUGH else 1), timeout=240)
            self.time += r2['wall']
            v2 = (r2['js'] or {}).get('verification-results', {})
            if r2['js'] is None or v2.get('encountered-vir-error') or (v2.get('encountered-error') and not r2['errors'] and not r2['verified']): break
            self.verified += r2['verified']; self.errors += r2['errors'] - len({self.place(c0, d)[0] for c0, d in diags} & set(again)); self.cmds.append(r2['cmd'])
            diags = [(c0, d) for c0, d in diags if self.place(c0, d)[0] not in again] + [(c2, d) for d in r2['diags'] if d[0] == 'error' and 'aborting due' not in d[1]]
            for f in again: info[f] = i2[f]
        failedfns = set()
        for c0, (lv, msg, sp, rend) in diags:
            fn, tags = self.place(c0, (lv, msg, sp, rend))
            if fn is None:
                sname = next((t[1] for t, _, _ in tags if t and t[0] == 'spec'), '?')
                self.undecided['lemmas of ' + sname] = msg; continue
            failedfns.add(fn)
            if re.search(r'rlimit|[Rr]esource limit|timed? ?out', msg): self.undecided[fn] = 'solver limit: ' + msg; continue
            own = owners[fn]; ob = None
            for t, l, prim in tags:
                if t and t[0] == 'fn' and t[1] == fn and t[2] and t[2][0] == 'ensures' and len(t[2]) == 2:
                    ob = 'postcondition "%s"' % t[2][1]; own = ids(t[2][1]) or own; break
            if ob is None:
                where = next((l for t, l, prim in tags if t and t[0] == 'fn' and t[1] == fn and t[2] and t[2][0] in ('invariant', 'hint', 'requires', 'decreases')), None)
                src = next((t[2][1] for t, l, prim in tags if t and t[0] == 'fn' and t[1] == fn and t[2] and t[2][0] == 'L'), None)
                ob = '%s%s%s' % (msg, ': ' + where if where else '', ' (source line %s)' % src if src else '')
            why = info[fn].get('reshaped') or ('hints of the contract do not fit this tree (%s)' % lost[fn] if fn in lost else '')
            if why:
                # invariants and hints belong to places in the code: where those moved, a failing obligation says nothing about the code
                self.undecided[fn] = '%s and the contract\'s annotations do not carry over: %s' % (why, ob); continue
            self.failed.append(dict(function=fn, obligation=ob, mine=P in own, source=self.extracted_from.get(fn, ''), verifier=rend[-2500:]))
        # reachability: with "ensures false" in place of its postconditions every function has to fail
        can = [f for f in live if f not in failedfns and 'novac' not in by[f].flags and (THOROUGH or f in owned)]
        if can:
            cr2, info2 = gen.build(G, g, cs, broken, canary=True)
            r2 = gen.run_verus(cr2, ['f_' + f for f in can], rlimit=g.get('rlimit', 30), timeout=240, extra=['--no-lifetime'] if False else [])
            self.time += r2['wall']
            hit = {t[1] for lv, msg, sp, rend in r2['diags'] if lv == 'error' for a, b, lab, prim in sp if a <= len(cr2.lines) for t in [cr2.lines[a - 1][1]] if t and t[0] == 'fn'}
            vr2 = (r2['js'] or {}).get('verification-results', {})
            if r2['js'] is not None and not vr2.get('encountered-vir-error'):
                self.vacuous += [f for f in can if f not in hit]
        self.canaries = getattr(self, 'canaries', 0) + len(can)

def main():
    known = []
    kf = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith('known: property=%s ' % P): known.append(l.split(' ', 2)[2].strip())
    h = Harness(); h.start()
    # the floating-point facts the proofs use do not depend on /repo: they are proved in Coq, alongside
    floats = any(set(g['specs']) & set(axioms.FILES) and any(P in ids(n) for c in gen.group_contracts(g) for n, _ in c.ensures) for g in plan.GROUPS.values())
    coq = coqaudit.Audit(300)
    if floats: coq.start()
    pr = Proof(); perr = None
    try: pr.run()
    except Exception as e:
        import traceback; perr = traceback.format_exc(); pr.undecided['proof run'] = '%s: %s' % (type(e).__name__, e)
    h.join()
    mine = [f for f in pr.failed if f['mine']]
    others = [f for f in pr.failed if not f['mine']]
    # an obligation of this property failed and no input yet: search longer for one
    if mine and not h.err and not h.bad():
        for k in range(1, 4):
            h.once(SEED * 1000 + k, 120 if THOROUGH else 30)
            if h.bad(): break
    # functions of this property outside the proof on this tree: the bounded stand-in gets more time
    if pr.undecided and not mine and not h.err and not h.bad():
        for k in range(1, 4):
            h.once(SEED * 1000 + k, 60 if THOROUGH else 20)
            if h.bad(): break
    if floats: coq.join()
    bad = h.bad()
    violation = None
    if bad or mine:
        d = dict(property=P, obligations_failed=[dict(function=f['function'], obligation=f['obligation'], source=f['source'], verifier=f['verifier']) for f in mine])
        if bad:
            d.update(failing_input=bad.get('replay', {}), how_to_replay='compile harness/%s.cc as check.py does, run: %sh %s %s 1 OUT.json %s' % (plan.HARNESS[P], 'VX_LITS="%s" ' % LITS if LITS else '', P, bad['seed'], bad.get('case')))
        violation = os.path.join(REPLAYS, '%s.json' % P)
        json.dump(d, open(violation, 'w'), indent=1)
    pend = {f['function']: f['obligation'] for f in others}
    level = 'proof' if (pr.verified and not pr.undecided and not pend and not pr.vacuous) else 'exploration'
    ev = sum(r.get('evaluations', 0) for r in h.runs)
    cov = dict(evaluations=ev, distinct_nontrivial=sum(r.get('distinct', 0) for r in h.runs),
               rule='bounded stand-in and replay search on the compiled real code: seeded random and small exhaustive cases compared with an independent oracle; a case is non-trivial when the checked situation occurs in it, distinct by its printed input',
               samples=[s for r in h.runs for s in r.get('samples', [])][:6])
    fns = sum(len(v) for v in pr.scope.values())
    cov.update(obligations=pr.verified + pr.errors, discharged=pr.verified, checker_cmd=' ; '.join(pr.cmds) or 'none',
               functions_under_contract=sorted(pr.extracted_from.items()) and ['%s <- %s' % kv for kv in sorted(pr.extracted_from.items())],
               contract_clauses=pr.clauses, back_end='Verus 0.2026.09.13 / Z3', solver_ms=pr.smt_ms, verifier_wall_s=round(pr.time, 2), reachability_canaries=getattr(pr, 'canaries', 0), vacuous=pr.vacuous,
               annotations_dropped={f: sorted(' '.join(map(str, x)) for x in v) for f, v in pr.retried.items()}, not_proved_on_this_tree=pr.undecided, failed_in_dependencies=pend, failed=[dict(function=f['function'], obligation=f['obligation']) for f in mine],
               dropped_by_extraction={k: sorted(v) for k, v in pr.dropped.items()},
               trusted_base=TRUST + sorted(pr.trusted) + sorted('lemma or contract assumed: ' + t for t in scan_assumptions(pr) if t not in coq.proved),
               floating_point_facts=dict(proved=[t for t in scan_assumptions(pr) if t in coq.proved], back_end=coq.version + ', Flocq (IEEE 754 binary64)', resting_on=coq.rests, wall_s=coq.time, checker_cmd=coq.cmd, no_answer=coq.err) if floats else 'none used',
               harness=dict(fresh_literals=LITS, seeds=[r['seed'] for r in h.runs], private_state_visible=h.priv, compile_s=round(h.compile_s, 1), no_answer=h.err or h.noanswer))
    evd = dict(property=P, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - T0, 2), violations=1 if violation else 0)
    json.dump(evd, open(os.path.join(HERE, 'evidence', P + '.json'), 'w'), indent=1)
    print('%s: %d functions under contract, %d of %d proof queries discharged in %.1f s; real code run on %d cases' % (P, fns, pr.verified, pr.verified + pr.errors, pr.time, ev))
    for k, v in list(pr.undecided.items()): print('  not proved on this tree (bounded check only): %s: %s' % (k, v))
    for k, v in pend.items(): print('  a function this depends on is not proved on this tree: %s: %s' % (k, v))
    if pr.vacuous: print('  unreachable end, proof not counted: %s' % pr.vacuous)
    if perr: print(perr)
    if h.err: print('  ' + h.err[:300])
    for k in known: print('KNOWN-FINDING: property=%s %s' % (P, k))
    rc = 0
    if violation:
        for f in mine: print('  failed: %s: %s' % (f['function'], f['obligation']))
        if bad: print('  real code: %s' % bad.get('why'))
        print('VIOLATION property=%s replay=%s%s' % (P, violation, '' if bad else ' no-failing-input-found')); rc = 1
    shutil.rmtree(WORK, ignore_errors=True)
    return rc

TRUST = ['clang 18 AST of the sources; vx/trans.py (C++ to Verus, statement by statement)', 'verus/prelude.rs: contracts of the C++ standard library operations the code calls', 'Verus and Z3']
ASSUME = ['every container has fewer than 2^31 - 1 elements', 'single-threaded execution; memory allocation succeeds', 'double arithmetic is IEEE 754 binary64, rounded to nearest, without contraction or extended precision (the facts used about it are proved in Coq over Flocq, see floating_point_facts); log is within 1 of the logarithm on positive numbers, -infinity at 0, NaN below; a gamma draw of whole shape 1 to 2^52 and scale 1 lies between 2^-161 and 2^64, and any draw is not negative',
          'pointers and iterators passed in are valid; output containers do not alias the object or the input']
def scan_assumptions(pr):
    out = []
    for g in pr.scope:
        for s in plan.GROUPS[g]['specs']:
            t = open(os.path.join(HERE, 'verus', s)).read()
            out += [x for x in re.findall(r'external_body\]\s*(?:pub )?(?:broadcast )?(?:axiom|proof) fn (\w+)', t) if x not in out]
    return out

if __name__ == '__main__':
    try: rc = main()
    finally: shutil.rmtree(WORK, ignore_errors=True)
    sys.exit(rc)
