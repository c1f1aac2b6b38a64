"""The assumed floating-point facts of verus/*.rs, restated mechanically for Coq.

Every `external_body` proof function of the files below becomes a definition `st_<name> : Prop` over Flocq's
binary64 (coq/FpModel.v gives the meaning of the symbols); coq/FpProofs.v proves them."""
import os, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ('fp.rs', 'stat.rs', 'rand.rs', 'build.rs')
TYPES = {'F64': 'F64', 'int': 'Z', 'u64': 'Z', 'Rng': 'Gen'}
SPECS = ('small', 'share')
FUN = {'flt': 'flt', 'fadd': 'fadd', 'fsub': 'fsub', 'fmul': 'fmul', 'fdiv': 'fdiv', 'fneg': 'fneg', 'flog': 'flog', 'fofint': 'fofint', 'ftoint': 'ftoint', 'flit': 'flit',
       'flowest': 'flowest', 'fmax': 'fmax', 'gdraw': 'gdraw', 'gnext': 'gnext'}
TOK = re.compile(r'\s*(==>|&&|\|\||==|!=|<=|>=|[-+*/!<>(),{}]|0x[0-9a-fA-F_]+|[0-9][0-9_]*|[A-Za-z_]\w*)')
class P:
    """expressions -> (Coq text, sort) with sorts Z, F, P (Prop), G"""
    def __init__(self, text, env):
        self.t = []; i = 0; text = re.sub(r'#\[trigger\]', '', text).strip()
        while i < len(text):
            m = TOK.match(text, i)
            if not m: raise ValueError('token at %r' % text[i:i + 40])
            self.t.append(m.group(1)); i = m.end()
        self.i = 0; self.env = env
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def take(self, x=None):
        t = self.peek()
        if x is not None and t != x: raise ValueError('%r expected, %r found in %s' % (x, t, ' '.join(self.t)))
        self.i += 1; return t
    def imp(self):
        a = self.or_()
        if self.peek() == '==>': self.take(); b = self.imp(); return ('(%s -> %s)' % (a[0], b[0]), 'P')
        return a
    def or_(self):
        a = self.and_()
        while self.peek() == '||': self.take(); a = ('(%s \\/ %s)' % (a[0], self.and_()[0]), 'P')
        return a
    def and_(self):
        a = self.cmp()
        while self.peek() == '&&': self.take(); a = ('(%s /\\ %s)' % (a[0], self.cmp()[0]), 'P')
        return a
    def cmp(self):
        a = self.add(); out = []
        while self.peek() in ('<', '<=', '>', '>=', '==', '!='):
            o = self.take(); b = self.add()
            if a[1] != b[1]: raise ValueError('sorts of %s' % ' '.join(self.t))
            if o in ('==', '!='): e = '(%s <-> %s)' % (a[0], b[0]) if a[1] == 'P' else '(%s = %s)' % (a[0], b[0])
            else:
                if a[1] != 'Z': raise ValueError('comparison of %s' % a[1])
                e = '(%s %s %s)%%Z' % (a[0], o, b[0])
            out.append('(~ %s)' % e if o == '!=' else e); a = b
        if not out: return a
        return ('(%s)' % ' /\\ '.join(out) if len(out) > 1 else out[0], 'P')
    def add(self):
        a = self.mul()
        while self.peek() in ('+', '-'): o = self.take(); b = self.mul(); a = ('(%s %s %s)%%Z' % (a[0], o, b[0]), 'Z')
        return a
    def mul(self):
        a = self.un()
        while self.peek() == '*': self.take(); b = self.un(); a = ('(%s * %s)%%Z' % (a[0], b[0]), 'Z')
        return a
    def un(self):
        t = self.peek()
        if t == '!': self.take(); return ('(~ %s)' % self.un()[0], 'P')
        if t == '-': self.take(); return ('(- %s)%%Z' % self.un()[0], 'Z')
        return self.atom()
    def atom(self):
        t = self.take()
        if t == '(': a = self.imp(); self.take(')'); return a
        if t == 'if':
            c = self.imp(); self.take('{'); a = self.imp(); self.take('}'); self.take('else'); self.take('{'); b = self.imp(); self.take('}')
            m = re.fullmatch(r'\((\S+) < (\S+)\)%Z', c[0])
            if not m: raise ValueError('condition %s' % c[0])
            return ('(if Z.ltb %s %s then %s else %s)' % (m.group(1), m.group(2), a[0], b[0]), a[1])
        if t[0].isdigit(): return ('%d%%Z' % int(t.replace('_', ''), 0), 'Z')
        if self.peek() == '(':
            self.take(); args = []
            while self.peek() != ')':
                args.append(self.imp()[0])
                if self.peek() == ',': self.take()
            self.take(')')
            s = 'P'
            if t in FUN: s = 'P' if t == 'flt' else 'Z' if t == 'ftoint' else 'G' if t == 'gnext' else 'F'
            return ('(%s%s)' % (t, ''.join(' ' + a for a in args)) if args else t, s)
        if t not in self.env: raise ValueError('name %s' % t)
        return (t, {'F64': 'F', 'int': 'Z', 'u64': 'Z', 'Rng': 'G'}[self.env[t]])
def split(text):
    out, d, cur = [], 0, ''
    for ch in text:
        d += ch in '([{'; d -= ch in ')]}'
        if ch == ',' and d == 0: out.append(cur); cur = ''
        else: cur += ch
    return [x.strip() for x in out + [cur] if x.strip()]
def prop(text, env):
    r = []
    for e in split(text):
        p = P(e, env); x = p.imp()
        if p.peek() is not None: raise ValueError('left over %r in %s' % (p.peek(), e))
        r.append(x[0])
    return ' /\\ '.join(r)
def axioms():
    """[(name, file, Coq statement)]"""
    out, defs = [], []
    for f in FILES:
        for l in open(os.path.join(VERIF, 'verus', f)):
            m = re.match(r'pub open spec fn (\w+)\(([^)]*)\) -> bool \{(.*)\}\s*$', l)
            if m and m.group(1) in SPECS:
                ps = [x.strip().split(': ') for x in split(m.group(2))]
                defs.append('Definition %s %s : Prop := %s.' % (m.group(1), ' '.join('(%s : %s)' % (n, TYPES[t]) for n, t in ps), prop(m.group(3), dict(ps))))
            if 'external_body' not in l or 'proof fn' not in l: continue
            m = re.match(r'#\[verifier::external_body\] pub (?:broadcast )?proof fn (\w+)\(([^)]*)\) (?:requires (.*?) )?ensures (.*?),? \{\}\s*$', l)
            if not m: raise ValueError('axiom %s' % l)
            ps = [x.strip().split(': ') for x in split(m.group(2))]; env = dict(ps)
            st = '(%s)' % prop(m.group(4), env)
            if m.group(3): st = '(%s) -> %s' % (prop(m.group(3), env), st)
            for n, t in ps:
                if t == 'u64': st = '((0 <= %s) /\\ (%s < 18446744073709551616))%%Z -> %s' % (n, n, st)
            out.append((m.group(1), f, ('forall %s, ' % ' '.join('(%s : %s)' % (n, TYPES[t]) for n, t in ps) if ps else '') + st))
    return defs, out
def text():
    defs, ax = axioms()
    return ('(* generated from verus/*.rs by vx/axioms.py: do not edit *)\nFrom Coq Require Import ZArith Reals.\nRequire Import FpModel.\n' +
            '\n'.join(defs) + '\n' + '\n'.join('(* %s *)\nDefinition st_%s : Prop := %s.' % (f, n, s) for n, f, s in ax) + '\n')
if __name__ == '__main__': print(text())
