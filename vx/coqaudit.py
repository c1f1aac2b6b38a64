"""Prove the floating-point facts of verus/*.rs in Coq over Flocq's binary64 (coq/*.v), and report what they rest on.

Statements.v is generated from the Verus files on every run (vx/axioms.py), so the facts proved are the facts used."""
import os, re, shutil, subprocess, sys, tempfile, threading, time
import axioms
HERE = os.path.dirname(os.path.abspath(__file__))
COQ = os.path.join(os.path.dirname(HERE), 'coq')
ORDER = ['FpModel', 'Statements', 'FpOrder', 'FpBounds', 'FpScores', 'FpRest', 'Audit']
# facts that restate an assumption about the C++ library: proved from the Coq axiom that says the same
RESTATED = ('ax_gamma', 'ax_draw')
ALLOWED = ('log_near', 'log_zero', 'log_below', 'draw_range', 'draw_nonneg', 'flog', 'Gen', 'gdraw', 'gnext',
           'ClassicalDedekindReals.sig_not_dec', 'ClassicalDedekindReals.sig_forall_dec', 'FunctionalExtensionality.functional_extensionality_dep', 'Classical_Prop.classic')
class Audit(threading.Thread):
    """proved: names of the facts Coq accepts; rests: the Coq axioms they use; err: why there is no answer"""
    def __init__(self, limit=400): super().__init__(daemon=True); self.proved = []; self.rests = []; self.err = None; self.time = 0; self.limit = limit; self.version = ''; self.cmd = 'coqc -Q . "" ' + ' '.join(f + '.v' for f in ORDER)
    def run(self):
        t = time.time(); d = tempfile.mkdtemp(prefix='vcoq_')
        try: self.go(d, t)
        except Exception as e: self.err = '%s: %s' % (type(e).__name__, e)
        finally: shutil.rmtree(d, ignore_errors=True); self.time = round(time.time() - t, 2)
    def go(self, d, t):
        names = [n for n, _, _ in axioms.axioms()[1]]
        for f in ORDER:
            if f not in ('Statements', 'Audit'): shutil.copy(os.path.join(COQ, f + '.v'), d)
        open(os.path.join(d, 'Statements.v'), 'w').write(axioms.text())
        open(os.path.join(d, 'Audit.v'), 'w').write('Require Import FpModel Statements FpOrder FpBounds FpScores FpRest.\n' +
            ''.join('Definition proof_of_%s : st_%s := %s.\n' % (n, n, n) for n in names) + 'Definition everything := (%s).\nPrint Assumptions everything.\n' % ', '.join(['proof_of_' + n for n in names] + ['fle_def', 'feq_def']))
        self.version = subprocess.run(['coqc', '--version'], capture_output=True, text=True).stdout.split('\n')[0]
        for f in ORDER:
            r = subprocess.run(['coqc', '-q', '-Q', '.', '', f + '.v'], cwd=d, capture_output=True, text=True, timeout=max(5, self.limit - (time.time() - t)))
            if r.returncode: raise ValueError('%s.v: %s' % (f, r.stderr[-800:]))
        self.rests = sorted(set(re.findall(r'^([A-Za-z_][\w.\']*)\s*:', r.stdout.split('Axioms:')[-1], re.M)))
        extra = [a for a in self.rests if a not in ALLOWED]
        if extra: raise ValueError('the proofs assume %s' % ', '.join(extra))
        self.proved = [n for n in names if n not in RESTATED]
if __name__ == '__main__':
    a = Audit(); a.run(); print(a.version, a.time, 's', a.err or '%d facts proved' % len(a.proved)); print('resting on:', ', '.join(a.rests)); sys.exit(bool(a.err))
