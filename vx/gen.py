"""Contracts + translated functions -> one Verus crate; run Verus; name the obligations."""
import glob, json, os, re, struct, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cty
from cty import rust
from cxxast import Program, Unsupported
import trans

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
CPP = REPO + '/core/src/main/cpp'
ALG = CPP + '/algorithm'
IFC = CPP + '/interfaces'
CORE_TU = ''.join('#include "%s/%s"\n' % (ALG, f) for f in ('int_dict.cc', 'int_dict_p.cc', 'stat_dict_p.cc', 'int_vgram_builder_p.cc', 'fast_random.cc', 'list_dict.h')) + 'template class Encoder<int>;\ninline int vx_encoder() { Encoder<int> e; return e.size(); }\n'
IFC_TU = ''.join('#include "%s/%s"\n' % (IFC, f) for f in ('seq_coder.cc', 'tokenizers/base_tokenizer.cc', 'tokenizers/char_tokenizer.cc', 'tokenizers/word_tokenizer.cc'))
VG_TU = ''.join('#include "%s/%s"\n' % (IFC, f) for f in ('vgram_builders/string_vgram.cc', 'vgram_builders/string_stream_vgram.cc', 'vgram_builders/int_vgram.cc', 'vgram_builders/int_stream_vgram.cc', 'loader.h', 'saver.h')) 
INCS = ['-I', ALG, '-I', IFC, '-I', CPP]
UNITS = {'core': (CORE_TU, ['Dict', 'StatItem', 'IntVGramBuilder', 'next_dirichlet', 'Encoder']), 'render': (CORE_TU, ['to_string', 'operator<<']),
         'ifc': (IFC_TU, ['vgram_core::']), 'vg': (IFC_TU + VG_TU, ['vgram_core::', 'Dict', 'StatItem', 'IntVGramBuilder'])}

class Contract:
    def __init__(self, key, name, flags):
        self.key, self.rust, self.flags = key, name, flags
        self.recv = None; self.params = []; self.modes = []; self.ret = 'r'
        self.requires = ''; self.ensures = []; self.dec = None; self.loops = {}; self.at = {}; self.attrs = []; self.body = None; self.file = None
        self.returns = None; self.hide = []
    inline = property(lambda s: 'inline' in s.flags)
    heap = property(lambda s: 'heap' in s.flags)
    extern = property(lambda s: 'extern' in s.flags)

def read_contracts(paths):
    out = []
    for path in paths:
        c = None; cur = None; loop = None
        for ln in open(path):
            if ln.startswith('#'): continue
            m = re.match(r'@(\w+)\s*(.*)', ln)
            if not m:
                if cur is not None: cur.append(ln)
                elif ln.strip(): raise SystemExit('%s: stray line %r' % (path, ln))
                continue
            kw, arg = m.group(1), m.group(2).strip(); cur = None
            if kw == 'fn':
                key, rest = arg.split(' as '); rest = rest.split()
                c = Contract(key.strip(), rest[0], set(rest[1:])); c.file = path; out.append(c); loop = None
            elif kw == 'recv': c.recv = arg
            elif kw == 'params':
                for p in arg.split(): n, mo = p.split(':'); c.params.append(n); c.modes.append(mo)
            elif kw == 'ret': c.ret = arg
            elif kw == 'attr': c.attrs.append(arg)
            elif kw == 'hide': c.hide += arg.split()
            elif kw == 'requires': cur = []; c.requires = cur
            elif kw == 'ensures': cur = []; c.ensures.append((arg, cur))
            elif kw == 'loop': loop = int(arg); c.loops[loop] = []
            elif kw in ('inv', 'inv_eb', 'lens'): cur = []; c.loops[loop].append(({'inv': 'invariant', 'inv_eb': 'invariant_except_break', 'lens': 'ensures'}[kw], arg, cur))
            elif kw == 'dec':
                cur = []
                if loop is None: c.dec = cur
                else: c.loops[loop].append(('decreases', '', cur))
            elif kw == 'at': cur = []; c.at.setdefault(arg, cur) if arg not in c.at else None; cur = c.at[arg]
            else: raise SystemExit('%s: unknown @%s' % (path, kw))
    for c in out:
        c.requires = ''.join(c.requires); c.ensures = [(n, ''.join(t)) for n, t in c.ensures]
        c.dec = ''.join(c.dec) if c.dec is not None else None
        c.at = {k: ''.join(v) for k, v in c.at.items()}
        order = {'invariant_except_break': 0, 'invariant': 1, 'ensures': 2, 'decreases': 3}
        for k in c.loops:
            l = [(kw, n, ''.join(t)) for kw, n, t in c.loops[k]]
            # one keyword per section: merge sections of the same kind, keep names per line
            c.loops[k] = sorted(l, key=lambda x: order[x[0]])
    return out

def plan_groups():
    import plan
    return plan.GROUPS
def group_contracts(g):
    """the group's own contracts, then those it only uses (proved in another group, assumed here)"""
    own = read_contracts([os.path.join(VERIF, 'contracts', c) for c in g['cts']])
    used = read_contracts([os.path.join(VERIF, 'contracts', c) for c in g.get('uses', [])])
    for c in used:
        c.flags |= {'extern', 'used'}; c.ensures = [(re.sub(r'\bC\d\d\b', '', n), t) for n, t in c.ensures]
        if c.heap and g.get('heap'):
            # in its own group the function has no access at all to objects of the other classes
            home = next((x for x in plan_groups().values() if os.path.basename(c.file) in x['cts']), {})
            other = [x for x in g['heap'] if x not in (home.get('heap') or [])]
            if other: c.ensures.append(('frame', ''.join('h.m_%s == old(h).m_%s,\n' % (x, x) for x in other)))
    return own + used

def norm_type(t):
    if t[0] == 'ref': return norm_type(t[1])
    if t[0] == 'ptr': return '*' + norm_type(t[1])
    if t[0] == 'shared': return 'sp<%s>' % norm_type(t[1])
    if t[0] == 'cls': return t[1]
    try: return rust(t)
    except Unsupported: return '?'

def near(a, b): return any(abs(x - y) <= 1 for x in a for y in b)

class Gen:
    def __init__(self, units, contracts):
        self.prog = Program()
        self.units = units
        for u in units:
            tu, filts = UNITS[u]
            for f in filts: self.prog.load(tu, f, INCS)
        self.contracts = contracts
        self.bykey = {}
        for c in contracts: self.bykey.setdefault(c.key.split('(')[0].split('/')[0], []).append(c)
        self.inlined = {}; self.dropped = {}; self.drops = {}
        self._tried = set()
        self.canon = {}
        p = os.path.join(VERIF, 'contracts', 'locals.json')
        if os.path.exists(p): self.canon = json.load(open(p))
        p = os.path.join(VERIF, 'contracts', 'shapes.json')
        self.shapes = json.load(open(p)) if os.path.exists(p) else {}
    # -- program queries used by the translator
    def fkey(self, f): return (f.cls + '::' if f.cls else '') + f.name
    def sig(self, f): return '(' + ','.join(norm_type(cty.of(p)) for p in f.params) + ')'
    def contract_of(self, f):
        cs = self.bykey.get(self.fkey(f), [])
        best = None
        for c in cs:
            k = c.key[len(self.fkey(f)):]
            if k == '': best = best or c
            elif k.startswith('/'):
                if int(k[1:]) == len(f.params): return c
            elif k.replace(' ', '') == self.sig(f).replace(' ', ''): return c
        return best
    def methods(self, cls, name):
        c = cls; seen = []
        while c:
            r = [f for f in self.prog.fns if f.cls == c and f.name == name]
            have = {(f.name, len(f.params), self.sig(f)) for f in r}
            r += [f for f in self.prog.decls if f.cls == c and f.name == name and (f.name, len(f.params), self.sig(f)) not in have and self.contract_of(f)]
            if r: return r
            b = self.prog.bases.get(c, [])
            c = b[0] if b else None
        return []
    def functions(self, name, ref):
        if ref['kind'] == 'CXXMethodDecl':
            r = [f for f in self.prog.fns if f.cls and f.name == name and f.node.get('storageClass') == 'static']
            return r
        r = [f for f in self.prog.fns if f.cls is None and f.name == name and (f.node.get('_file') or '').startswith(REPO)]
        if ref.get('type', {}).get('qualType'): r = [f for f in r if f.type == ref['type']['qualType']] or [f for f in r if re.sub(r'\bstd::|\s', '', f.type) == re.sub(r'\bstd::|\s', '', ref['type']['qualType'])]
        return r
    def load_more(self, name):
        if name in self._tried: return
        self._tried.add(name)
        for u in self.units: self.prog.load(UNITS[u][0], name, INCS)
    def abstract(self, cls):
        n = self.prog.classes.get(cls)
        if n is None: raise Unsupported('class ' + cls)
        pure = any(c.get('pure') for c in n.get('inner', []) if isinstance(c, dict))
        return pure and not self.fields(cls)
    def impl(self, cls):
        n = self.prog.classes.get(cls)
        if n is None: return cls
        if any(c.get('pure') for c in n.get('inner', []) if isinstance(c, dict)) and not self.fields(cls):
            subs = self.prog.impl_of(cls)
            if len(subs) != 1: raise Unsupported('%s has %d implementations' % (cls, len(subs)))
            return subs[0]
        return cls
    def fields(self, cls):
        n = self.prog.classes.get(cls)
        if n is None: raise Unsupported('class ' + cls)
        out = []
        for b in self.prog.bases.get(cls, []):
            if b in self.prog.classes and not self.abstract(b): out.append(('base', ('cls', b), None))
        for c in n.get('inner', []):
            if isinstance(c, dict) and c.get('kind') == 'FieldDecl':
                dflt = next((x for x in c.get('inner', []) if isinstance(x, dict) and x.get('kind')), None)
                if c['type']['qualType'].startswith('const ') and dflt is not None: continue
                out.append((c['name'], cty.of(c), dflt))
        return out
    def find_const(self, name):
        for cn, n in self.prog.classes.items():
            for c in n.get('inner', []):
                if isinstance(c, dict) and c.get('kind') in ('FieldDecl', 'VarDecl') and c.get('name') == name and (c['kind'] == 'VarDecl' or c['type']['qualType'].startswith('const ')):
                    d = next((x for x in c.get('inner', []) if isinstance(x, dict) and x.get('kind') and x['kind'] != 'FullComment'), None)
                    if d is not None: return d
        return None
    def const_member(self, tr, n):
        if tr.skip_lv(n)['kind'] != 'MemberExpr': return None
        b = n['inner'][0]
        d = self.find_const(n['name'])
        if d is None: return None
        bt = cty.vt(b); bt = bt[1] if bt[0] == 'ptr' else bt
        if bt[0] != 'cls': return None
        return tr.val(d)
    def const_global(self, tr, n):
        d = self.find_const(n['referencedDecl'].get('name'))
        return tr.val(d) if d is not None else None
    def float_bits(self, v): return struct.unpack('<Q', struct.pack('<d', float(v)))[0]
    def note_inlined(self, f, g): self.inlined.setdefault(self.fkey(f), set()).add(self.fkey(g))
    def note_dropped(self, f, what): self.dropped.setdefault(self.fkey(f), set()).add(what)

    # -- one function
    def find(self, c):
        base = c.key.split('(')[0].split('/')[0]
        r = [f for f in self.prog.fns if self.fkey(f) == base and self.contract_of(f) is c and (f.cls or (f.node.get('_file') or '').startswith(REPO))]
        if len(r) == 1: return r[0]
        if not r:
            d = [f for f in self.prog.decls if self.fkey(f) == base and self.contract_of(f) is c]
            if d: return d[0]
            raise Unsupported('%s not found in the sources' % c.key)
        raise Unsupported('%s is ambiguous' % c.key)
    def header(self, c, f, rename=None, body=True, canary=False):
        ps = []
        if c.heap: ps.append('h: &mut Heap')
        if c.recv:
            ps.append('this: %s%s' % ('&mut ' if c.recv == 'mut' else '&', f.cls))
        if len(c.params) != len(f.params): raise Unsupported('%s has %d parameters, contract %d' % (c.key, len(f.params), len(c.params)))
        for p, m, d in zip(c.params, c.modes, f.params):
            t = cty.of(d); tt = cty.strip(t)
            if tt[0] == 'ptr': tt = tt[1]
            if tt[0] == 'cls': tt = ('cls', self.impl(tt[1]))
            r = rust(tt)
            if m == '&': ps.append('%s: %s%s' % (p, '' if cty.scalar(tt) else '&', r))
            elif m == 'mut': ps.append('%s: &mut %s' % (p, r))
            elif m == 'opt': ps.append('%s: &Option<%s>' % (p, r))
            elif m == 'val': ps.append('%s: %s' % (p, r))
        rt = trans.Trans(self, f, c).fn_ret(f)
        out = []
        for a in c.attrs: out.append(('#[verifier::%s]' % a, None))
        if c.extern or not body: out.append(('#[verifier::external_body]', None))
        else: out += [('#[verifier::loop_isolation(false)]', None)] if 'loop_isolation' not in ' '.join(c.attrs) else []
        if not any(k == 'decreases' for l in c.loops.values() for k, _, _ in l) and 'exec_allows' not in ' '.join(c.attrs): out.append(('#[verifier::exec_allows_no_decreases_clause]', None))
        out.append(('pub fn %s(%s)%s' % (c.rust, ', '.join(ps), '' if rt == cty.VOID else ' -> (%s: %s)' % (c.ret, rust(rt))), None))
        req = [l for l in c.requires.split('\n') if l.strip()]
        if req:
            out.append(('    requires', None)); out += [('        ' + l.strip(), ('requires', '')) for l in req]
        if canary: out.append(('    ensures false', ('canary',)))
        elif c.ensures:
            out.append(('    ensures', None))
            muts = (['this'] if c.recv == 'mut' else []) + [p for p, m in zip(c.params, c.modes) if m == 'mut'] + (['h'] if c.heap else [])
            for n, t in c.ensures:
                for m in muts: t = re.sub(r'(?<!old\()(?<!final\()(?<!\.)\b%s\b' % m, 'final(%s)' % m, t)
                for l in t.split('\n'):
                    if l.strip(): out.append(('        ' + l.strip(), ('ensures', n)))
        if c.dec: out += [('    decreases', None)] + [('        ' + l.strip(), ('decreases', '')) for l in c.dec.split('\n') if l.strip()]
        return out
    def translate(self, c):
        """-> (lines, info) ; raises Unsupported"""
        f = self.find(c)
        if f.body is None or c.extern:
            return self.header(c, f, body=False) + [('{ unimplemented!() }', None)], dict(extern=True)
        canon = self.canon.get(c.rust); gone = []
        con = c
        if self.drops.get(c.rust):
            import copy; con = copy.copy(c); con.drops = self.drops[c.rust]
        for attempt in range(2):
            tr = trans.Trans(self, f, con)
            # canonical parameter names: the contract's
            for p, m, n in zip(f.params, c.modes, c.params):
                t = cty.of(p); tt = cty.strip(t)
                tr.names.add(n)
                if tt[0] == 'ptr':
                    if m == 'opt': tr.vars[p['id']] = ('ptropt', n, tt[1])
                    elif m in ('mut', '&'): tr.vars[p['id']] = ('ptrmut', n, self.implt(tt[1]), True)
                    else: raise Unsupported('pointer mode')
                elif t[0] == 'ref' and m in ('mut', '&') and not cty.scalar(tt) or m == 'mut':
                    tr.vars[p['id']] = ('alias', trans.Place('(*%s)' % n, self.implt(tt)))
                else: tr.vars[p['id']] = ('local', n, tt)
            tr.line = f.node.get('_line') or 0
            muts = self.value_params(f, c)
            for n in c.hide: tr.put('hide(%s);' % n)
            for n in muts: tr.put('let mut %s = %s;' % (n, n))
            tr.at('begin')
            if f.kind == 'CXXConstructorDecl':
                tr.ctor_body(f, 'this'); tr.at('end'); tr.put('this')
            else:
                for s in f.body.get('inner', []): tr.stmt(s)
                last = f.body.get('inner', [])
                if not last or last[-1]['kind'] != 'ReturnStmt': 
                    tr.at('end')
            names = tr.locals
            if attempt == 1 or canon is None: break
            # renamed locals: the hints follow; hints whose place vanished go to the next place that is still there
            ren = self.match_locals(canon, names)
            if ren: con = self.renamed(con, ren)
            gone = [a for a in con.at if a not in tr.log and a != 'end']
            moved = [a for a in gone if not (a.startswith('decl ') and a[5:] in ren.values())]
            if moved: con = self.moved_hints(c, con, moved, tr.log)
            if not ren and not moved: break
            gone = moved
        missing = [k for k in con.loops if k not in tr.used_loops]
        if missing: raise Unsupported('%s: the contract has %d loops, the source fewer (loop %s)' % (c.key, len(con.loops), missing))
        if canon is not None and tr.loop_n != self.canon.get(c.rust + '#loops', tr.loop_n): raise Unsupported('%s: loop structure changed' % c.key)
        unused = [a for a in gone if a not in tr.log] + [a for a in con.at if a not in tr.log and a != 'end']
        info = dict(extern=False, reshaped='', log=tr.log, at=list(con.at), locals=[list(x) for x in names], loops=tr.loop_n, kinds=tr.kinds, shape=self.shape(con, c, tr), file=f.node.get('_file'), line=f.node.get('_line'))
        info['reshaped'] = ('the places of hints vanished (%s)' % ', '.join(unused) if unused else '') or self.reshaped(c, info)
        return self.header(con, f) + [('{', None)] + tr.lines + [('}', None)], info
    def shape(self, con, c, tr):
        """the extracted statements without hints, temporaries' numbers and renamed locals"""
        back = {v: k for k, v in getattr(con, 'ren', {}).items()}
        out = []
        for l, tag in tr.lines:
            l = l.strip()
            if not tag or tag[0] != 'L' or l in ('{', '}', '} else {', 'break;', 'continue;', 'loop', 'return;', ';{') or l.startswith('hide('): continue
            l = re.sub(r'\b([a-z]+)__\d+', r'\1__', l)
            if back: l = re.sub(r'\b(%s)\b' % '|'.join(map(re.escape, back)), lambda m: back[m.group(1)], l)
            out.append([l, (tag[1] or 0) - (tr.fn.node.get('_line') or 0)])
        return out
    def reshaped(self, c, info):
        """does the edit move statements or replace loops? then the hints and invariants, which are tied to places, need not carry over"""
        if info['kinds'] != self.canon.get(c.rust + '#kinds', info['kinds']): return 'its loops were rewritten'
        old = self.shapes.get(c.rust)
        if old is None: return ''
        import difflib
        new = info['shape']; ol, nl = [x[0] for x in old], [x[0] for x in new]
        if ol == nl: return ''
        minus, plus, hunks = [], [], []
        for op, a, b, x, y in difflib.SequenceMatcher(None, ol, nl, autojunk=False).get_opcodes():
            if op == 'equal': continue
            minus += ol[a:b]; plus += nl[x:y]
            o, n = {l for _, l in old[a:b]}, {l for _, l in new[x:y]}
            if hunks and (near(hunks[-1][0], o) or near(hunks[-1][1], n)): hunks[-1][0] |= o; hunks[-1][1] |= n
            else: hunks.append([o, n])
        # moved: leaves one place and appears at another, as often as before
        if any(l in plus and ol.count(l) == nl.count(l) for l in minus): return 'its statements were reordered'
        # one local change, or a rewriting?
        if len(hunks) > 1 or any(o and n and max(len(o), len(n)) > 2 for o, n in hunks): return 'it was rewritten in several places'
        return ''
    def implt(self, t): return ('cls', self.impl(t[1])) if t[0] == 'cls' else t
    def value_params(self, f, c):
        out = []
        for p, m, n in zip(f.params, c.modes, c.params):
            if m == 'val' or (m == '&' and cty.scalar(cty.strip(cty.of(p)))):
                if n not in out: out.append(n)
        return out
    def match_locals(self, canon, names):
        have = {n for n, _ in names}; cn = {n for n, _ in canon}
        missing = [(n, t) for n, t in canon if n not in have]
        free = [(n, t) for n, t in names if n not in cn]
        ren = {}
        for n, t in missing:
            for i, (m, u) in enumerate(free):
                if u == t: ren[n] = m; del free[i]; break
        return ren
    def moved_hints(self, c, con, lost, log):
        """hints whose place vanished go to the next place that is still there"""
        import copy
        nxt = self.canon.get(c.rust + '#next', {}); con2 = copy.copy(con); con2.at = dict(con.at)
        for a in lost:
            for b in nxt.get(a, []):
                if b in log or b in ('end',):
                    con2.at[b] = con2.at.pop(a) + '\n' + con2.at.get(b, ''); break
        return con2
    def renamed(self, c, ren):
        def sub(t): return re.sub(r'\b(%s)\b' % '|'.join(map(re.escape, ren)), lambda m: ren[m.group(1)], t)
        import copy
        d = copy.copy(c); d.ren = ren
        d.ensures = c.ensures; d.requires = c.requires
        d.loops = {k: [(kw, n, sub(t)) for kw, n, t in v] for k, v in c.loops.items()}
        d.at = {k if not k.startswith('decl ') else sub(k): sub(v) for k, v in c.at.items()}
        return d

    # -- the crate
    def structs(self, wanted):
        out = []
        for c in wanted:
            if c not in self.prog.classes: raise Unsupported('class %s not found' % c)
            fs = ', '.join('pub %s: %s' % (n, rust(self.implt(t)) if t[0] == 'cls' else rust(t)) for n, t, d in self.fields(c))
            out.append('pub struct %s { %s }' % (c, fs))
        return out

def heap_text(classes):
    o = ['pub struct Heap { %s }' % ', '.join('pub m_files: Map<Seq<i8>, Json>' if c == 'files' else 'pub m_%s: Map<u64, %s>' % (c, c) for c in classes)]
    for c in classes:
        if c == 'files': continue
        rest = ' && '.join('final(h).m_%s == old(h).m_%s' % (d, d) for d in classes if d != c) or 'true'
        o.append('''
#[verifier::external_body]
pub fn h_get_%(c)s(h: &Heap, id: u64) -> (r: %(c)s)
    requires h.m_%(c)s.dom().contains(id)
    ensures r == h.m_%(c)s[id] { unimplemented!() }
#[verifier::external_body]
pub fn h_take_%(c)s(h: &mut Heap, id: u64)
    requires old(h).m_%(c)s.dom().contains(id)
    ensures final(h).m_%(c)s == old(h).m_%(c)s.remove(id) && %(rest)s { unimplemented!() }
#[verifier::external_body]
pub fn h_put_%(c)s(h: &mut Heap, id: u64, o: %(c)s)
    requires !old(h).m_%(c)s.dom().contains(id)
    ensures final(h).m_%(c)s == old(h).m_%(c)s.insert(id, o) && %(rest)s { unimplemented!() }
#[verifier::external_body]
pub fn h_upd_%(c)s(h: &mut Heap, id: u64, was: Ghost<%(c)s>, o: %(c)s)
    requires old(h).m_%(c)s.dom().contains(id), old(h).m_%(c)s[id] == was@
    ensures final(h).m_%(c)s == old(h).m_%(c)s.insert(id, o) && %(rest)s { unimplemented!() }
#[verifier::external_body]
pub fn h_new_%(c)s(h: &mut Heap, o: %(c)s) -> (r: u64)
    ensures r != 0, !old(h).m_%(c)s.dom().contains(r), final(h).m_%(c)s == old(h).m_%(c)s.insert(r, o) && %(rest)s { unimplemented!() }
''' % dict(c=c, rest=rest))
    return '\n'.join(o)

class Crate:
    """One Verus file.  lines: (text, tag); tag = (module, detail)"""
    def __init__(self): self.lines = []
    def add(self, text, tag=None):
        for l in text.split('\n'): self.lines.append((l, tag))
    def text(self): return '\n'.join(l for l, _ in self.lines) + '\n'

def strip_comment_lines(t): return t

def build(gen, unit, fns, broken, canary=False):
    """unit: {'structs', 'heap', 'specs'}; fns: contracts. -> (Crate, {rust name: info or Unsupported message})"""
    cr = Crate(); info = {}
    gen.heap = unit.get('heap') or []
    cr.add('#![allow(warnings)]\nuse vstd::prelude::*;\nuse vstd::seq_lib::*; use vstd::set_lib::*; use vstd::multiset::*;\nverus! {')
    cr.add(open(os.path.join(VERIF, 'verus', 'prelude.rs')).read(), ('prelude', None))
    for s in gen.structs(unit['structs']): cr.add(s, ('struct', None))
    if unit.get('heap') is not None: cr.add(heap_text(unit['heap']), ('prelude', None))
    for sp in unit['specs']:
        name = os.path.splitext(os.path.basename(sp))[0]
        cr.add('pub mod s_%s { use super::*;' % name, ('spec', name))
        for k, l in enumerate(open(os.path.join(VERIF, 'verus', sp)).read().split('\n')): cr.lines.append((l, ('spec', name, k + 1)))
        cr.add('} pub use s_%s::*;' % name, ('spec', name))
    for c in fns:
        err = broken.get(c.rust)
        if err is None:
            try:
                lines, inf = gen.translate(c)
                if canary and not inf['extern']:
                    # the function under its contract, and a copy of it that claims to return with false
                    f = gen.find(c); h = gen.header(c, f, canary=True)
                    k = next(i for i, (t, g) in enumerate(lines) if t == '{')
                    copy = [(re.sub(r'^pub fn %s\(' % c.rust, 'pub fn zz_%s(' % c.rust, t), g) for t, g in h + lines[k:]]
                    lines = gen.header(c, f, body=False) + [('{ unimplemented!() }', None)] + copy
            except Unsupported as e: err = str(e)
            except Exception as e: err = 'translator: %s: %s' % (type(e).__name__, e)
        if err is not None:
            try:
                f = gen.find(c); lines = gen.header(c, f, body=False) + [('{ unimplemented!() }', None)]
            except Exception as e:
                lines = []
            inf = dict(error=err)
        info[c.rust] = inf
        cr.add('pub mod f_%s { use super::*;' % c.rust, ('fn', c.rust, None))
        for t, tag in lines: cr.lines.append((t, ('fn', c.rust, tag)))
        cr.add('} pub use f_%s::*;' % c.rust, ('fn', c.rust, None))
    cr.add('} fn main() {}')
    return cr, info

def run_verus(cr, modules=None, rlimit=None, threads=8, timeout=600, extra=()):
    """-> dict(ok, diags=[(level, msg, [(line, label, primary)])], verified, errors, time_ms, raw)"""
    d = tempfile.mkdtemp(prefix='vx')
    p = os.path.join(d, 'crate.rs'); open(p, 'w').write(cr.text())
    cmd = ['verus', p, '--output-json', '--error-format=json', '--multiple-errors', '5', '--time', '--num-threads', str(threads), '--triggers-mode', 'silent'] + list(extra)
    if rlimit: cmd += ['--rlimit', str(rlimit)]
    for m in modules or []: cmd += ['--verify-module', m]
    if modules is None: pass
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=d)
        out, errt, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        out, errt, rc = '', '', -9
    finally:
        import shutil; shutil.rmtree(d, ignore_errors=True)
    diags = []; js = None
    for l in errt.split('\n'):
        if l.startswith('{'):
            try: o = json.loads(l)
            except ValueError: continue
            if o.get('$message_type', 'diagnostic') != 'diagnostic': continue
            diags.append((o['level'], o['message'], [(s['line_start'], s['line_end'], s.get('label'), s['is_primary']) for s in o['spans']], o.get('rendered') or ''))
    try: js = json.loads(out)
    except ValueError:
        m = re.search(r'^\{.*', out, re.S | re.M)
        if m:
            try: js = json.loads(m.group(0))
            except ValueError: js = None
    res = (js or {}).get('verification-results', {})
    return dict(rc=rc, diags=diags, js=js, verified=res.get('verified', 0), errors=res.get('errors', 0), success=res.get('success', False), wall=time.time() - t0, cmd=' '.join(cmd).replace(p, 'crate.rs'), raw=out[-2000:] + errt[-3000:] if js is None else '')
