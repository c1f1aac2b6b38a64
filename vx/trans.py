"""Mechanical translation of clang-typed C++ function bodies into Verus exec code.

Statement by statement: control flow, machine integers and member state are kept.
Anything it does not know raises Unsupported (the function is then not proved)."""
import re
import cty, cxxast
from cty import vt, rust, scalar
from cxxast import Unsupported

RESERVED = set('''type match ref mod move in loop use str fn let mut impl trait where self Self super crate pub as box dyn enum struct unsafe
 int nat spec proof exec tracked ghost invariant ensures requires decreases assert assume forall exists choose old seq set map is has matches
 yield abstract become do final macro override priv try typeof unsized virtual async await h'''.split()) - {'seq', 'set', 'map'}

def cid(n): return n + '_v' if n in RESERVED else n

class Place:
    def __init__(self, root, ty, steps=(), heap=None, mapit=None):
        self.root, self.ty, self.steps, self.heap, self.mapit = root, ty, tuple(steps), heap, mapit
    def _with(self, st, ty): return Place(self.root, ty, self.steps + (st,), self.heap, self.mapit)
    def field(self, f, ty): return self._with(('f', f), ty)
    def idx(self, i, ty): return self._with(('i', i), ty)
    def key(self, k, ty): return self._with(('m', k), ty)
    def jkey(self, k): return self._with(('j', k), cty.JSON)

def place_ref(p):
    """expression usable after & (no copy when there is no index step)"""
    s = p.root
    for st in p.steps:
        if st[0] == 'f': s = s + '.' + st[1]
        elif st[0] == 'i': s = 'v_at(&%s, %s)' % (s, st[1])
        elif st[0] == 'j': s = 'j_at(&%s, &%s)' % (s, st[1])
        else: s = 'm_at(&%s, &%s)' % (s, st[1])
    return s
def place_val(p):
    s = place_ref(p)
    if scalar(p.ty): return s
    if p.steps and p.steps[-1][0] in 'imj': return s
    return 'cp(&%s)' % s

KNOWN_FREE = set('log lowest max min infinity epsilon abs accumulate to_string isalnum isalpha isdigit tolower toupper isupper islower isspace rand sort stable_sort transform move swap distance make_pair equal make_shared copy reverse fill'.split())

def clauses(txt):
    """the comma-separated clauses of a specification section"""
    out = []; cur = ''; depth = 0; i = 0
    while i < len(txt):
        m = re.match(r'\b(forall|exists|choose)\s*\|', txt[i:]) if i == 0 or not (txt[i-1].isalnum() or txt[i-1] == '_') else None
        if m:
            e = txt.index('|', i + m.end()); cur += txt[i:e + 1]; i = e + 1; continue
        ch = txt[i]
        if ch in '([{': depth += 1
        elif ch in ')]}': depth -= 1
        if ch == ',' and depth == 0:
            if cur.strip(): out.append(cur.strip('\n'))
            cur = ''
        else: cur += ch
        i += 1
    if cur.strip(): out.append(cur.strip('\n'))
    return out

class Loop:
    def __init__(self, cont, brk=None): self.cont = cont

class Trans:
    def __init__(self, gen, fn, con):
        self.gen, self.fn, self.con = gen, fn, con
        self.lines = []           # (text, tag)
        self.ind = 1
        self.vars = {}            # clang id -> ('local', name, type) | ('alias', Place) | ('vit', place, name) ...
        self.names = set()
        self.locals = []          # (name, rust type) in order
        self.loops = []
        self.loop_n = 0
        self.tmp = 0
        self.calls = {}
        self.used_loops = set(); self.used_at = set()
        self.line = 0
        self.inline_stack = []
        self.retmode = None
        self.rangevars = {}
        self.log = []             # places passed, in order
        self.kinds = ''           # kinds of the loops, in order
        self.gdepth = {}          # distributions declared here: loop depth

    # ---------- output ----------
    def put(self, s, tag=None): self.lines.append(('    ' * self.ind + s, tag if tag else ('L', self.line)))
    def fresh(self, p='t'):
        self.tmp += 1
        n = '%s__%d' % (p, self.tmp)
        return n
    def newlocal(self, name, ty, record=True):
        n = cid(name); k = 2
        while n in self.names: n = cid(name) + '_%d' % k; k += 1
        self.names.add(n)
        if record: self.locals.append((n, rust(ty)))
        return n
    def subst(self, k, txt):
        """a range loop of the contract that the source writes as an index loop: its index and range by their names there"""
        for a, b in self.rangevars.get(k, ()): txt = re.sub(r'\b%s\b' % a, b, txt)
        return txt
    def at(self, anchor):
        self.log.append(anchor)
        txt = self.con.at.get(anchor) if self.con else None
        if txt:
            self.used_at.add(anchor)
            if ('hint', anchor) in getattr(self.con, 'drops', ()): return
            m = re.match(r'loop (\d+) (begin|end|after)$', anchor)
            if m: txt = self.subst(int(m.group(1)), txt)
            for l in txt.split('\n'):
                if l.strip(): self.put(l.strip(), ('hint', anchor))
    def bad(self, n, why=''):
        raise Unsupported('%s at line %s of %s %s' % (n.get('kind') if isinstance(n, dict) else n, n.get('_line', self.line) if isinstance(n, dict) else '', self.fn.name, why))

    # ---------- helpers on the AST ----------
    def skip(self, n):
        while n['kind'] in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'ImplicitCastExpr', 'SubstNonTypeTemplateParmExpr') or \
              (n['kind'] == 'CXXConstructExpr' and n.get('elidable')):
            if n['kind'] in ('CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'ImplicitCastExpr'):
                if n.get('castKind') not in ('NoOp', 'LValueToRValue', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'ArrayToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion'): return n
                if n.get('castKind') == 'ConstructorConversion' and not self.is_conv_noop(n): return n
                if n.get('castKind') == 'UserDefinedConversion' : return n
            inner = [c for c in n.get('inner', []) if c]
            if not inner: return n
            n = inner[0]
        # const_iterator(iterator) conversions and copies of iterators
        if n['kind'] == 'CXXConstructExpr':
            t = vt(n); a = self.args_of(n)
            if t[0] in ('vit', 'mit', 'sit') and len(a) == 1: return self.skip(a[0])
        return n
    def is_conv_noop(self, n):
        t = vt(n)
        return t[0] in ('vit', 'mit', 'sit')
    def args_of(self, n):
        return [c for c in n.get('inner', []) if c and c['kind'] != 'CXXDefaultArgExpr']

    # ---------- places ----------
    def lv(self, n):
        n = self.skip_lv(n)
        k = n['kind']
        if k == 'DeclRefExpr':
            return self.var_place(n)
        if k == 'CXXThisExpr': return self.this_place()
        if k == 'MemberExpr':
            base = n['inner'][0]
            if n.get('isArrow') and not self.is_this(base):
                b = self.deref(base)
            else: b = self.lv(base) if self.is_lvalue(base) else self.tmp_place(base)
            if b.ty[0] == 'pair': return b.field(n['name'], b.ty[1] if n['name'] == 'first' else b.ty[2])
            return b.field(n['name'], vt(n))
        if k == 'ImplicitCastExpr' and n['castKind'] in ('UncheckedDerivedToBase', 'DerivedToBase'):
            b = self.lv(n['inner'][0])
            bt = vt(n)
            if bt[0] == 'ptr': bt = bt[1]
            if b.ty[0] == 'ptr': b.ty = b.ty[1]
            if b.ty == bt: return b
            return self.tobase(b, bt)
        if k == 'CXXOperatorCallExpr':
            op = self.opname(n); a = n['inner'][1:]
            if op == 'operator[]':
                b = self.lv(a[0]) if self.is_lvalue(a[0]) else self.tmp_place(a[0])
                if b.ty[0] in ('vec', 'str'):
                    i = self.atom(self.val(a[1]))
                    return b.idx(i, b.ty[1] if b.ty[0] == 'vec' else cty.CHAR)
                if b.ty[0] == 'map':
                    key = self.atom(self.val(a[1]), b.ty[1])
                    self.assign(b, 'm_touch(&%s, &%s, %s)' % (place_ref(b), key, self.default(b.ty[2])))
                    return b.key(key, b.ty[2])
                if b.ty == cty.JSON:
                    key = self.atom(self.jsonkey(a[1]))
                    if not self.skip(n['inner'][0])['referencedDecl']['type']['qualType'].rstrip().endswith('const'):
                        self.assign(b, 'j_touch(&%s, &%s)' % (place_ref(b), key))
                    return b.jkey(key)
            if op == 'operator*':
                return self.deref(a[0])
            if op == 'operator=':
                self.expr_stmt(n); return self.lv(a[0])
        if k == 'UnaryOperator' and n['opcode'] == '*': return self.deref(n['inner'][0])
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            self.expr_stmt(n); return self.lv(n['inner'][0])
        if k == 'BinaryOperator' and n['opcode'] == '=':
            self.expr_stmt(n); return self.lv(n['inner'][0])
        if k == 'CXXMemberCallExpr':
            m = self.skip(n['inner'][0])
            obj = m['inner'][0]
            ot = vt(obj); ot = ot[1] if ot[0] == 'ptr' else ot
            if ot[0] in ('vec', 'str'):
                b = self.obj_place(m)
                if m['name'] == 'back': return b.idx(self.atom('u64_sub(v_len(&%s), 1u64)' % place_ref(b)), b.ty[1] if b.ty[0] == 'vec' else cty.CHAR)
                if m['name'] == 'front': return b.idx('0u64', b.ty[1] if b.ty[0] == 'vec' else cty.CHAR)
                if m['name'] == 'at': return b.idx(self.atom(self.val(n['inner'][1])), b.ty[1] if b.ty[0] == 'vec' else cty.CHAR)
            if ot == cty.JSON and m['name'] == 'at':
                b = self.obj_place(m)
                return b.jkey(self.atom(self.jsonkey(n['inner'][1])))
            if ot[0] == 'map' and m['name'] == 'at':
                b = self.obj_place(m)
                return b.key(self.atom(self.val(n['inner'][1]), b.ty[1]), b.ty[2])
            return self.tmp_place(n)
        if k == 'ConditionalOperator' or k in ('CallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr', 'CXXStdInitializerListExpr'):
            return self.tmp_place(n)
        self.bad(n, 'as an lvalue')
    def tobase(self, b, bt):
        if b.ty[0] != 'cls' or bt[0] != 'cls': raise Unsupported('base conversion')
        if bt[1] in self.gen.prog.bases.get(b.ty[1], []):
            if self.gen.abstract(bt[1]): return b
            return b.field('base', bt)
        raise Unsupported('indirect base')
    def skip_lv(self, n):
        while True:
            k = n['kind']
            if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr'): n = n['inner'][0]
            elif k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr') and n['castKind'] in ('NoOp', 'LValueToRValue'): n = n['inner'][0]
            elif k == 'CXXConstructExpr' and n.get('elidable') and self.args_of(n): n = self.args_of(n)[0]
            else: return n
    def is_this(self, n):
        n = self.skip_lv(n)
        if n['kind'] == 'ImplicitCastExpr' and n['castKind'] in ('UncheckedDerivedToBase', 'DerivedToBase'): return self.is_this(n['inner'][0])
        return n['kind'] == 'CXXThisExpr'
    def is_lvalue(self, n):
        n = self.skip_lv(n)
        k = n['kind']
        if k in ('DeclRefExpr', 'CXXThisExpr', 'MemberExpr'): return True
        if k == 'ImplicitCastExpr': return n['castKind'] in ('UncheckedDerivedToBase', 'DerivedToBase') and self.is_lvalue(n['inner'][0])
        if k == 'CXXOperatorCallExpr': return self.opname(n) in ('operator[]', 'operator*')
        if k == 'UnaryOperator': return n['opcode'] == '*' or (n['opcode'] in ('++', '--') and not n.get('isPostfix'))
        if k == 'CXXMemberCallExpr':
            m = self.skip(n['inner'][0])
            if m['kind'] != 'MemberExpr': return False
            ot = vt(m['inner'][0]); ot = ot[1] if ot[0] == 'ptr' else ot
            return ot[0] in ('vec', 'map', 'str', 'json') and m['name'] in ('back', 'front', 'at')
        return False
    def this_place(self):
        if self.inline_stack: return self.inline_stack[-1]['this']
        return Place('this' if self.fn.kind == 'CXXConstructorDecl' else '(*this)', ('cls', self.fn.cls))
    def tmp_place(self, n):
        v = self.val(n)
        t = vt(n)
        tn = self.fresh()
        self.put('let mut %s: %s = %s;' % (tn, rust(t), v))
        p = Place(tn, t); p.origin = self.ref_origin(n)
        return p
    def var_place(self, n):
        d = n['referencedDecl']
        v = self.vars.get(d['id'])
        if v is None:
            return self.global_place(n)
        if v[0] == 'alias': return v[1]
        if v[0] == 'local': return Place(v[1], v[2])
        self.bad(n, 'iterator or pointer variable %s used as a value' % d.get('name'))
    def global_place(self, n):
        self.bad(n, 'global %s' % n['referencedDecl'].get('name'))
    def deref(self, n):
        """place designated by a pointer-like expression"""
        n0 = n
        n = self.skip_lv(n)
        if n['kind'] == 'CXXThisExpr': return self.this_place()
        if n['kind'] == 'ImplicitCastExpr' and n['castKind'] in ('UncheckedDerivedToBase', 'DerivedToBase') and self.is_this(n): return self.lv(n)
        if n['kind'] == 'UnaryOperator' and n['opcode'] == '&': return self.lv(n['inner'][0])
        if n['kind'] == 'DeclRefExpr':
            v = self.vars.get(n['referencedDecl']['id'])
            if v:
                if v[0] == 'ptrmut': return Place(v[1] if v[1].startswith('(') or not v[3] else '(*%s)' % v[1], v[2])
                if v[0] == 'ptropt':
                    t = self.fresh(); self.put('let %s: %s = opt_val(%s);' % (t, rust(v[2]), v[1])); return Place(t, v[2])
                if v[0] == 'ptralias': return v[1]
                if v[0] == 'vit': return v[1].idx(self.atom('i64_to_u64(%s)' % v[2]), v[1].ty[1] if v[1].ty[0] == 'vec' else cty.CHAR)
                if v[0] == 'mit': return self.mit_place(v)
        t = vt(n)
        if t[0] == 'vit':
            c, pos = self.vit(n)
            return c.idx(self.atom('i64_to_u64(%s)' % pos), c.ty[1] if c.ty[0] == 'vec' else cty.CHAR)
        if t[0] in ('mit', 'sit'):
            return self.mit_place(self.mit(n))
        if n['kind'] == 'CXXOperatorCallExpr' and self.opname(n) == 'operator->':
            return self.deref(n['inner'][1])
        if n['kind'] == 'ImplicitCastExpr' and n['castKind'] in ('UncheckedDerivedToBase', 'DerivedToBase') and t[0] == 'ptr':
            return self.tobase(self.deref(n['inner'][0]), t[1])
        if n['kind'] == 'CXXMemberCallExpr' and t[0] == 'ptr':
            m = self.skip(n['inner'][0])
            if m['kind'] == 'MemberExpr' and m['name'] == 'get' and vt(m['inner'][0])[0] == 'shared': return self.deref(m['inner'][0])
        if t[0] == 'shared':
            cls = self.gen.impl(t[1][1])
            idv = self.atom(self.val(n))
            tn = self.fresh('o')
            self.put('let mut %s: %s = h_get_%s(h, %s);' % (tn, cls, cls, idv))
            self.put('let ghost %s_g = %s;' % (tn, tn))
            return Place(tn, ('cls', cls), heap=(idv, cls))
        self.bad(n, 'dereference')
    def mit_place(self, v):
        # ('mit', place, iterator variable)
        c, it = v[1], v[2]
        if c.ty[0] == 'map':
            t = self.fresh()
            self.put('let mut %s: P2<%s, %s> = mit_deref(&%s, &%s);' % (t, rust(c.ty[1]), rust(c.ty[2]), place_ref(c), it))
            return Place(t, ('pair', c.ty[1], c.ty[2]), mapit=(c, it))
        t = self.fresh()
        self.put('let %s: %s = sit_deref(&%s, &%s);' % (t, rust(c.ty[1]), place_ref(c), it))
        return Place(t, c.ty[1])

    def assign(self, p, val):
        self.assign_steps(p.root, p.steps, val)
        if p.heap:
            self.put('h_upd_%s(h, %s, Ghost(%s_g), cp(&%s));' % (p.heap[1], p.heap[0], p.root, p.root))
            self.put('let ghost %s_g = %s;' % (p.root, p.root))
        if p.mapit:
            c, it = p.mapit
            self.assign(c, 'mit_write(&%s, &%s, cp(&%s.second))' % (place_ref(c), it, p.root))
    def assign_steps(self, root, steps, val):
        # innermost first: value of the prefix up to each index step
        def rd(k):
            return place_ref(Place(root, None, steps[:k]))
        cur = val; k = len(steps)
        while k > 0:
            # trailing fields
            j = k
            while j > 0 and steps[j-1][0] == 'f': j -= 1
            if j == 0:
                self.put('%s = %s;' % (rd(k), cur)); return
            if j < k:
                t = self.fresh('u')
                self.put('let mut %s = %s;' % (t, rd(j)))
                self.put('%s = %s;' % (t + ''.join('.' + s[1] for s in steps[j:k]), cur))
                cur = t; k = j
            s = steps[k-1]
            cur = {'i': 'v_set(&%s, %s, %s)', 'j': 'j_insert(&%s, &%s, %s)'}.get(s[0], 'm_insert(&%s, &%s, %s)') % (rd(k-1), s[1], cur)
            k -= 1
        self.put('%s = %s;' % (root, cur))

    def atom(self, e, ty=None):
        if re.fullmatch(r'-?\w+', e): return e
        # reuse an equal temporary when only pure temporaries were bound since
        want = ' = %s;' % e
        for text, _ in reversed(self.lines):
            m = re.match(r'\s*let (t__\d+)(: [^=]*)? = (?!.*&mut )', text)
            if not m: break
            if text.endswith(want) and text.strip() == 'let %s%s%s' % (m.group(1), m.group(2) or '', want) and (m.group(2) or '') == (': ' + rust(ty) if ty else ''): return m.group(1)
        t = self.fresh('t')
        self.put('let %s%s = %s;' % (t, ': ' + rust(ty) if ty else '', e))
        return t

    # ---------- iterators ----------
    def vit(self, n):
        """(container place, i64 position expression) of a vector/string iterator expression"""
        n = self.skip(n)
        k = n['kind']
        if k == 'DeclRefExpr':
            v = self.vars.get(n['referencedDecl']['id'])
            if v and v[0] == 'vit': return v[1], v[2]
        if k == 'CXXMemberCallExpr':
            m = self.skip(n['inner'][0])
            if m['name'] in ('begin', 'cbegin', 'end', 'cend'):
                p = self.obj_place(m)
                if m['name'] in ('begin', 'cbegin'): return p, '0i64'
                return p, 'v_len_i(&%s)' % place_ref(p)
            if m['name'] == 'erase' or m['name'] == 'insert': self.bad(n, 'iterator result used')
        if k == 'CXXOperatorCallExpr':
            op = self.opname(n); a = n['inner'][1:]
            if op in ('operator+', 'operator-'):
                if vt(a[1])[0] == 'vit': self.bad(n)
                p, pos = self.vit(a[0])
                o = self.val(a[1])
                return p, '(%s %s %s)' % (pos, op[-1], o)
            if op in ('operator++', 'operator--') and len(a) == 1:
                self.expr_stmt(n); return self.vit(a[0])
            if op in ('operator++', 'operator--') and len(a) == 2:
                p, pos = self.vit(a[0]); t = self.atom(pos if not re.fullmatch(r'\w+', pos) else '(%s)' % pos)
                self.expr_stmt(n); return p, t
        if k == 'CallExpr':
            f = self.callee(n); a = n['inner'][1:]
            if f in ('begin', 'cbegin', 'end', 'cend'):
                p = self.lv(a[0]); return p, ('0i64' if f.endswith('begin') else 'v_len_i(&%s)' % place_ref(p))
            if f == 'lower_bound' or f == 'upper_bound':
                p, b = self.vit(a[0]); p2, e = self.vit(a[1]); self.same(p, p2, n)
                if len([x for x in a if x['kind'] != 'CXXDefaultArgExpr']) != 3: self.bad(n, 'comparator')
                return p, '%s_%s(&%s, %s, %s, %s)' % (f, self.suffix(p.ty[1]), place_ref(p), b, e, self.refarg(a[2]))
            if f == 'find':
                p, b = self.vit(a[0]); p2, e = self.vit(a[1]); self.same(p, p2, n)
                return p, 'find_in(&%s, %s, %s, %s)' % (place_ref(p), b, e, self.refarg(a[2]))
            if f in ('next', 'prev'):
                p, b = self.vit(a[0])
                d = self.val(a[1]) if len(a) > 1 and a[1]['kind'] != 'CXXDefaultArgExpr' else '1i64'
                return p, '(%s %s %s)' % (b, '+' if f == 'next' else '-', d)
            if f == 'max_element' or f == 'min_element': self.bad(n, f)
        if k == 'MemberExpr' and n['name'] in ('first', 'second'):
            c = self.skip(n['inner'][0])
            if c['kind'] == 'CallExpr' and self.callee(c) == 'mismatch':
                a = c['inner'][1:]
                p, b = self.vit(a[0]); p1, e = self.vit(a[1]); self.same(p, p1, n)
                q, b2 = self.vit(a[2])
                if len(a) == 4 and a[3]['kind'] != 'CXXDefaultArgExpr':
                    q1, e2 = self.vit(a[3]); self.same(q, q1, n)
                    r = 'mismatch4(&%s, %s, %s, &%s, %s, %s)' % (place_ref(p), b, e, place_ref(q), b2, e2)
                else:
                    r = 'mismatch3(&%s, %s, %s, &%s, %s)' % (place_ref(p), b, e, place_ref(q), b2)
                if n['name'] == 'first': return p, r
                t = self.atom(r)
                return q, '(%s + (%s - %s))' % (b2, t, b)
        self.bad(n, 'iterator expression')
    def same(self, p, q, n):
        if place_ref(p) == place_ref(q): return
        po, qo = getattr(p, 'origin', None), getattr(q, 'origin', None)
        if po is not None and po == qo:   # two calls of the same const accessor: the same referenced container
            self.put('assert(%s =~= %s);' % (place_ref(p), place_ref(q))); return
        self.bad(n, 'iterators into different containers')
    def mit(self, n):
        """('mit', container place, iterator expr) for map and set iterators"""
        n = self.skip(n)
        while n['kind'] == 'ImplicitCastExpr' and n['castKind'] in ('DerivedToBase', 'UncheckedDerivedToBase', 'NoOp'): n = self.skip(n['inner'][0])
        if n['kind'] == 'DeclRefExpr':
            v = self.vars.get(n['referencedDecl']['id'])
            if v and v[0] == 'mit': return v
        if n['kind'] == 'CXXMemberCallExpr':
            m = self.skip(n['inner'][0]); p = self.obj_place(m)
            kt = p.ty[1]
            if m['name'] == 'find':
                key = self.atom(self.val(n['inner'][1]), kt)
                return ('mit', p, self.atom(('m_find(&%s, &%s)' if p.ty[0] == 'map' else 's_find(&%s, &%s)') % (place_ref(p), key)))
            if m['name'] in ('end', 'cend'): return ('mitend', p, None)
        if n['kind'] == 'MemberExpr' and n['name'] == 'first':
            c = self.skip(n['inner'][0])
            if c['kind'] == 'CXXMemberCallExpr':
                m = self.skip(c['inner'][0])
                if m['name'] in ('emplace', 'insert'):
                    p, key, fresh = self.map_emplace(c, m)
                    return ('mit', p, self.atom('mit_at(&%s)' % key))
        self.bad(n, 'map iterator expression')
    def map_emplace(self, c, m):
        p = self.obj_place(m); a = self.args_of(c)[1:]
        if p.ty[0] == 'map':
            if m['name'] in ('emplace', 'try_emplace'):
                if len(a) != 2: self.bad(c)
                key = self.atom(self.conv(a[0], p.ty[1]), p.ty[1]); v = self.conv(a[1], p.ty[2])
            else:
                if len(a) != 1: self.bad(c)
                pv = self.atom(self.val(a[0])); key, v = self.atom('cp(&%s.first)' % pv), 'cp(&%s.second)' % pv
            t = self.fresh('fresh')
            self.put('let %s: bool = !m_has(&%s, &%s);' % (t, place_ref(p), key))
            self.assign(p, 'm_emplace(&%s, &%s, %s)' % (place_ref(p), key, v))
        else:
            key = self.atom(self.conv(a[0], p.ty[1]), p.ty[1]); t = self.fresh('fresh')
            self.put('let %s: bool = !s_has(&%s, &%s);' % (t, place_ref(p), key))
            self.assign(p, 's_insert(&%s, &%s)' % (place_ref(p), key))
        return p, key, t
    def suffix(self, t):
        if t == ('pair', ('vec', cty.INT), cty.INT): return 'seq_i32'
        if t == ('pair', cty.INT, cty.INT): return 'i32_i32'
        return {'vec': 'seq', 'int': 'i32', 'str': 'str', 'pair': 'pair'}.get(t[0]) or self.bad({'kind': 'element type %r' % (t,)})

    # ---------- calls ----------
    def callee(self, n):
        c = self.skip(n['inner'][0])
        if c['kind'] == 'DeclRefExpr': return c['referencedDecl'].get('name')
        self.bad(n, 'callee')
    def opname(self, n): return self.callee(n)
    def obj_place(self, m):
        """place of the object a member call is made on"""
        base = m['inner'][0]
        if m.get('isArrow'):
            return self.this_place() if self.is_this(base) and vt(base)[0] == 'ptr' and self.skip_lv(base)['kind'] == 'CXXThisExpr' else self.deref(base)
        if self.is_lvalue(base): return self.lv(base)
        return self.tmp_place(base)

    def default(self, t):
        k = t[0]
        if k in ('int', 'u64', 'i64', 'u32'): return '0' + rust(t)
        if k == 'bool': return 'false'
        if k == 'char': return '0i8'
        if k == 'f64': return 'f_of_i32(0i32)'
        if k in ('vec', 'str'): return 'v_new::<%s>()' % (rust(t[1]) if k == 'vec' else 'i8')
        if k == 'map': return 'm_new::<%s, %s>()' % (rust(t[1]), rust(t[2]))
        if k == 'set': return 's_new::<%s>()' % rust(t[1])
        if k == 'shared': return '0u64'
        if k == 'rng': return 'rng_new()'
        if k == 'json': return 'j_null()'
        if k == 'gamma': return 'GammaDist { alpha: f_of_i32(1i32), beta: f_of_i32(1i32) }'
        if k == 'pair': return 'P2 { first: %s, second: %s }' % (self.default(t[1]), self.default(t[2]))
        raise Unsupported('default value of %r' % (t,))

    def refarg(self, n):
        """&T argument from an expression"""
        if self.is_lvalue(n):
            p = self.lv(n)
            return '&' + place_ref(p)
        return '&' + self.val(n)
    def conv(self, n, ty):
        return self.val(n)

    def call_fn(self, key, cands, obj, args, n):
        """call of a repository function; obj: Place or None"""
        nargs = len(args)
        short = []
        if n is not None and self.is_make_shared(n):
            # the library forwards the arguments: the constructor may take defaults for the rest
            short = [f for f in cands if len(f.params) > nargs and all(self.has_default(f, k) for k in range(nargs, len(f.params)))]
        c = [f for f in cands if len(f.params) == nargs] + short
        if len(c) > 1:
            def sig(f): return [cty.strip(cty.of(p)) for p in f.params]
            at = []
            for a in args:
                t = vt(a)
                at.append(t)
            def ok(f):
                for s, a in zip(sig(f), at):
                    if s[0] == 'ptr' and a[0] in ('ptr',) and (s[1] == a[1] or a[1][0] == 'void'): continue
                    if s[0] == 'ptr' and a == ('cls', 'nullptr_t'): continue
                    if s == a: continue
                    if s[0] == a[0] and s[0] not in ('vec', 'map', 'set', 'cls', 'ptr', 'pair', 'shared'): continue
                    return False
                return True
            c = [f for f in c if ok(f)]
        if len(c) != 1: raise Unsupported('overload %s with %d arguments' % (key, nargs))
        f = c[0]
        if f in short: args = list(args) + [self.default_of(f, k) for k in range(nargs, len(f.params))]
        con = self.gen.contract_of(f)
        if con is None or con.inline: return self.inline(f, obj, args, n)
        out = []
        if con.heap: out.append('h')
        post = []
        if obj is not None:
            heap = getattr(obj, 'heap', None)
            r = place_ref(obj)
            if con.recv == 'mut':
                if heap:
                    # the object is out of the heap while its method runs
                    self.put('h_take_%s(h, %s);' % (heap[1], heap[0]))
                    out.append('&mut ' + r); post.append('h_put_%s(h, %s, cp(&%s));' % (heap[1], heap[0], obj.root)); post.append('let ghost %s_g = %s;' % (obj.root, obj.root))
                elif any(s[0] != 'f' for s in obj.steps):
                    t = self.fresh(); self.put('let mut %s = %s;' % (t, r)); out.append('&mut ' + t); post.append(('assign', obj, t))
                elif r == '(*this)': out.append('this')
                else: out.append('&mut ' + r)
            else:
                out.append('&' + r)
        for k, (p, a, mode) in enumerate(zip(f.params, args, con.modes)):
            if a['kind'] == 'CXXDefaultArgExpr' and not a.get('inner'): a = self.default_of(f, k)
            out.append(self.arg(a, mode, cty.of(p), post))
        name = con.rust
        rt = self.fn_ret(f)
        e = '%s(%s)' % (name, ', '.join(out))
        k = self.calls.get(name, 0); self.calls[name] = k + 1
        self.at('call %s %d before' % (name, k))
        if rt == cty.VOID:
            self.put(e + ';'); res = '()'
        elif True:
            res = self.fresh('r'); self.put('let %s: %s = %s;' % (res, rust(rt), e))
        for x in post:
            if isinstance(x, tuple): self.assign(x[1], x[2])
            else: self.put(x)
        self.at('call %s %d after' % (name, k))
        for a in list(self.con.at) if self.con else []:
            pass
        return res
    def is_make_shared(self, n):
        return n.get('kind') == 'CallExpr' and self.skip(n['inner'][0])['kind'] == 'DeclRefExpr' and self.callee(n) == 'make_shared'
    def has_default(self, f, k):
        try: self.default_of(f, k)
        except Unsupported: return False
        return True
    def default_of(self, f, k):
        # the default argument written in the declaration (the class's own or, for a virtual, its base's)
        cl = [f.cls] + list(self.gen.prog.bases.get(f.cls, [])) if f.cls else [None]
        ds = [c for g in list(self.gen.prog.fns) + list(self.gen.prog.decls) if g.name == f.name and g.cls in cl and len(g.params) == len(f.params)
              for c in g.params[k].get('inner', []) if isinstance(c, dict) and c.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
        key = {self.shape(d) for d in ds}
        if len(key) != 1: raise Unsupported('default argument %d of %s' % (k, f.name))
        return ds[0]
    def shape(self, n):
        """structure of an expression, without source positions"""
        if not isinstance(n, dict): return ''
        d = n.get('referencedDecl') or {}
        return '(%s %s %s %s %s %s)' % (n.get('kind'), n.get('opcode', ''), n.get('name', ''), n.get('value', ''), d.get('id', ''), ' '.join(self.shape(c) for c in n.get('inner', [])))
    def ref_origin(self, n):
        """shape of a call that returns a reference and changes nothing (const method, pure arguments), or None"""
        n = self.skip_lv(n)
        if n['kind'] != 'CXXMemberCallExpr' or n.get('valueCategory') != 'lvalue': return None
        def pure(x):
            if not isinstance(x, dict): return True
            if x.get('kind') in ('DeclRefExpr', 'CXXThisExpr', 'IntegerLiteral', 'CXXNullPtrLiteralExpr'): return True
            if x.get('kind') == 'CXXMemberCallExpr':
                m = self.skip(x['inner'][0])
                if m.get('kind') != 'MemberExpr': return False
                c = [g for g in list(self.gen.prog.fns) + list(self.gen.prog.decls) if g.name == m['name'] and g.cls]
                if not c or not all(re.search(r'\)\s*const\b', g.type or '') for g in c): return False
            elif x.get('kind') not in ('MemberExpr', 'ImplicitCastExpr', 'ParenExpr'): return False
            return all(pure(c) for c in x.get('inner', []))
        return self.shape(n) if pure(n) else None
    def fn_ret(self, f):
        if f.kind == 'CXXConstructorDecl': return ('cls', f.cls)
        q = f.node['type'].get('desugaredQualType', f.type)
        q = f.type
        if q.startswith('auto ') and '->' in q: return cty.strip(cty.parse(q.split('->')[-1]))
        # "R (args) const"
        depth = 0
        for i, ch in enumerate(q):
            if ch == '<': depth += 1
            elif ch == '>': depth -= 1
            elif ch == '(' and depth == 0: break
        return cty.strip(cty.parse(q[:i]))
    def arg(self, a, mode, pt, post):
        t = cty.strip(pt)
        if mode == 'val':
            return self.val(a)
        if mode == '&':
            if t[0] == 'ptr':
                return '&' + place_ref(self.deref(a))
            if scalar(t): return self.val(a)
            return self.refarg(a)
        if mode == 'mut':
            n = self.skip_lv(a)
            p = self.deref(a) if t[0] == 'ptr' else self.lv(a)
            if p.heap: raise Unsupported('mutable reference into the heap')
            if any(s[0] != 'f' for s in p.steps):
                tn = self.fresh(); self.put('let mut %s = %s;' % (tn, place_ref(p))); post.append(('assign', p, tn)); return '&mut ' + tn
            r = place_ref(p)
            m = re.fullmatch(r'\(\*(\w+)\)', r)
            return m.group(1) if m else '&mut ' + r
        if mode == 'opt':
            n = self.skip(a)
            if n['kind'] == 'ImplicitCastExpr' and n['castKind'] == 'NullToPointer' or n['kind'] in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
                return '&None'
            if n['kind'] == 'DeclRefExpr':
                v = self.vars.get(n['referencedDecl']['id'])
                if v and v[0] == 'ptropt': return v[1]
                if v and v[0] == 'ptrnull': return '&None'
            p = self.deref(a)
            return '&Some(cp(&%s))' % place_ref(p)
        raise Unsupported('parameter mode ' + mode)

    def inline(self, f, obj, args, n):
        if len(self.inline_stack) > 6: raise Unsupported('recursive helper ' + f.name)
        if f.body is None: raise Unsupported('no body and no contract for %s' % f.name)
        if any(x['f'] is f for x in self.inline_stack): raise Unsupported('recursion in ' + f.name)
        self.gen.note_inlined(self.fn, f)
        rt = self.fn_ret(f)
        if f.kind == 'CXXConstructorDecl': return self.inline_ctor(f, args)
        self.inline_binds(f, args)
        fr = {'f': f, 'this': obj, 'ret': None, 'rt': rt}
        if rt != cty.VOID:
            fr['ret'] = self.fresh('ret')
        stm = [c for c in f.body.get('inner', [])]
        # one return at the end: a plain binding
        self.inline_stack.append(fr)
        saved = self.loops; self.loops = []
        try:
            if len(stm) >= 1 and stm[-1]['kind'] == 'ReturnStmt' and not self.has_return(stm[:-1]):
                for s in stm[:-1]: self.stmt(s)
                v = self.val(stm[-1]['inner'][0]) if stm[-1].get('inner') else '()'
                if rt == cty.VOID: return '()'
                self.put('let %s: %s = %s;' % (fr['ret'], rust(rt), v)); return fr['ret']
            if not self.has_return(stm):
                for s in stm: self.stmt(s)
                return '()'
            if rt != cty.VOID: self.put('let mut %s: %s = %s;' % (fr['ret'], rust(rt), self.default(rt) if rt[0] != 'cls' else self.bad(n, 'helper returns a class')))
            self.tail(stm)
            return fr['ret'] or '()'
        finally:
            self.inline_stack.pop(); self.loops = saved
    def inline_binds(self, f, args):
        for p, a in zip(f.params, args):
            t = cty.of(p)
            if t[0] == 'ref' or t[0] == 'ptr':
                tt = t[1]
                if t[0] == 'ptr':
                    s = self.skip(a)
                    if s['kind'] == 'CXXNullPtrLiteralExpr' or s.get('castKind') == 'NullToPointer':
                        self.vars[p['id']] = ('ptrnull', tt); continue
                    if s['kind'] == 'DeclRefExpr' and s['referencedDecl']['id'] in self.vars and self.vars[s['referencedDecl']['id']][0] in ('ptropt', 'ptrmut', 'ptralias', 'ptrnull'):
                        self.vars[p['id']] = self.vars[s['referencedDecl']['id']]; continue
                    self.vars[p['id']] = ('ptralias', self.deref(a)); continue
                if t[2]:   # const reference: alias when a place, else a snapshot
                    if self.is_lvalue(a): self.vars[p['id']] = ('alias', self.freeze(self.lv(a))); continue
                    self.vars[p['id']] = ('alias', self.tmp_place(a)); continue
                self.vars[p['id']] = ('alias', self.freeze(self.lv(a))); continue
            nm = self.newlocal(p.get('name', 'arg'), t, record=False)
            self.put('let mut %s: %s = %s;' % (nm, rust(t), self.val(a)))
            self.vars[p['id']] = ('local', nm, t)
    def freeze(self, p):
        return p
    def has_return(self, stm):
        def w(n):
            if not isinstance(n, dict): return False
            if n.get('kind') == 'LambdaExpr': return False
            if n.get('kind') == 'ReturnStmt': return True
            return any(w(c) for c in n.get('inner', []))
        return any(w(s) for s in stm)
    def tail(self, stm):
        """statements of an inlined helper with returns in tail position only"""
        fr = self.inline_stack[-1]
        for i, s in enumerate(stm):
            k = s['kind']
            if k == 'ReturnStmt':
                if s.get('inner'): self.put('%s = %s;' % (fr['ret'], self.val(s['inner'][0])))
                return
            if not self.has_return([s]):
                self.stmt(s); continue
            if k == 'CompoundStmt': return self.tail(s.get('inner', []) + stm[i+1:])
            if k == 'IfStmt':
                inner = s['inner']
                if s.get('hasInit') or s.get('hasVar'): self.bad(s)
                c = self.val(inner[0])
                self.put('if %s {' % c); self.ind += 1
                then = inner[1].get('inner', []) if inner[1]['kind'] == 'CompoundStmt' else [inner[1]]
                els = (inner[2].get('inner', []) if inner[2]['kind'] == 'CompoundStmt' else [inner[2]]) if len(inner) > 2 else []
                self.tail(then if self.always_returns(then) else then + stm[i+1:])
                self.ind -= 1; self.put('} else {'); self.ind += 1
                self.tail(els if self.always_returns(els) else els + stm[i+1:])
                self.ind -= 1; self.put('}')
                return
            self.bad(s, 'return inside a loop of an uncontracted helper')
    def always_returns(self, stm):
        if not stm: return False
        s = stm[-1]
        if s['kind'] == 'ReturnStmt': return True
        if s['kind'] == 'CompoundStmt': return self.always_returns(s.get('inner', []))
        if s['kind'] == 'IfStmt' and len(s['inner']) > 2: return all(self.always_returns([x]) for x in s['inner'][1:3])
        return False

    # ---------- expressions ----------
    def val(self, n):
        """owned value of an expression"""
        if '_line' in n and not self.inline_stack: self.line = n['_line'] or self.line
        k = n['kind']
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr'): return self.val(n['inner'][0])
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr'): return self.cast(n)
        if k == 'IntegerLiteral': return n['value'] + rust(vt(n))
        if k == 'CXXBoolLiteralExpr': return 'true' if n['value'] else 'false'
        if k == 'CharacterLiteral': return '%di8' % (n['value'] if n['value'] < 128 else n['value'] - 256)
        if k == 'FloatingLiteral':
            x = float(n['value'])
            return 'f_of_i32(%di32)' % int(x) if 0 <= x < 2**31 and x == int(x) else 'f_lit(%su64)' % self.gen.float_bits(n['value'])
        if k == 'StringLiteral': return self.strlit(n['value'])
        if k == 'CXXNullPtrLiteralExpr': return '0u64'
        if k == 'CXXDefaultArgExpr': return self.default_arg(n)
        if k == 'CXXDefaultInitExpr': self.bad(n)
        if k == 'UnaryExprOrTypeTraitExpr': self.bad(n)
        if k == 'ImplicitValueInitExpr' or k == 'CXXScalarValueInitExpr': return self.default(vt(n))
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['kind'] == 'EnumConstantDecl': self.bad(n)
            v = self.vars.get(d['id'])
            if v and v[0] in ('ptrmut', 'ptropt', 'ptralias', 'ptrnull'): self.bad(n, 'pointer value')
            if v is None: return self.global_val(n)
            if v[0] == 'vit': return v[2]
            return place_val(self.var_place(n))
        if k == 'MemberExpr' and self.static_const(n): return self.static_const(n)
        if k in ('MemberExpr',):
            return place_val(self.lv(n))
        if k == 'CXXThisExpr': return '1u64'
        if k == 'UnaryOperator': return self.unary(n)
        if k == 'BinaryOperator': return self.binary(n)
        if k == 'CompoundAssignOperator':
            self.expr_stmt(n); return place_val(self.lv(n['inner'][0]))
        if k == 'ConditionalOperator':
            c = self.val(n['inner'][0])
            def br(x):
                s = self.lines; self.lines = []; i = self.ind; self.ind += 1
                v = self.val(x); l = self.lines; self.lines = s; self.ind = i
                return l, v
            la, a = br(n['inner'][1]); lb, b = br(n['inner'][2])
            if not la and not lb: return '(if %s { %s } else { %s })' % (c, a, b)
            t = self.fresh('c')
            self.put('let mut %s: %s;' % (t, rust(vt(n))))
            self.put('if %s {' % c); self.lines += la; self.ind += 1; self.put('%s = %s;' % (t, a)); self.ind -= 1
            self.put('} else {'); self.lines += lb; self.ind += 1; self.put('%s = %s;' % (t, b)); self.ind -= 1; self.put('}')
            return t
        if k == 'CXXMemberCallExpr': return self.member_call(n)
        if k == 'CXXOperatorCallExpr': return self.op_call(n)
        if k == 'CallExpr': return self.free_call(n)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'): return self.construct(n)
        if k == 'InitListExpr': return self.initlist(n)
        if k == 'CXXStdInitializerListExpr': return self.val(n['inner'][0])
        if k == 'CXXNewExpr': return self.new_object(n)
        self.bad(n)
    def strlit(self, v):
        s = eval('b' + v) if not v.startswith('u8') else eval('b' + v[2:])
        b = [x if x < 128 else x - 256 for x in s]
        return 'str_lit(Ghost(Seq::<i8>::empty()%s))' % ''.join('.push(%di8)' % x for x in b) if b else 'v_new::<i8>()'
    def default_arg(self, n):
        inner = n.get('inner')
        if inner: return self.val(inner[0])
        self.bad(n, 'default argument')
    def static_const(self, n):
        return self.gen.const_member(self, n)
    def global_val(self, n):
        return self.gen.const_global(self, n) or self.bad(n, 'global ' + n['referencedDecl'].get('name', ''))
    def initlist(self, n):
        t = vt(n)
        items = [c for c in n.get('inner', []) if c]
        if t[0] == 'pair' and len(items) == 2: return 'P2 { first: %s, second: %s }' % tuple(self.val(c) for c in items)
        if not items: return self.default(t)
        if t[0] in ('vec',) or n['type'].get('qualType', '').endswith(']') or True:
            if len(items) == 1 and t[0] not in ('vec',) and scalar(t) and not re.search(r'\[\d+\]$', n['type']['qualType']): return self.val(items[0])
            vs = [self.val(c) for c in items]
            e = 'v_new::<%s>()' % rust(vt(items[0]))
            for v in vs: e = 'v_push(&%s, %s)' % (e, v)
            return e
    def cast(self, n):
        ck = n['castKind']; x = n['inner'][0]
        if ck in ('NoOp', 'LValueToRValue', 'ConstructorConversion', 'UserDefinedConversion', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            if ck == 'LValueToRValue' or ck == 'NoOp':
                if self.is_lvalue(x) and self.skip_lv(x)['kind'] not in ('CXXThisExpr',) :
                    s = self.skip_lv(x)
                    if s['kind'] == 'DeclRefExpr': return self.val(s)
                    if s['kind'] == 'MemberExpr' and self.static_const(s): return self.static_const(s)
                    p = self.lv(x)
                    return place_val(p)
            if ck == 'UserDefinedConversion': return self.user_conv(n)
            return self.val(x)
        if ck == 'IntegralCast' or ck == 'BooleanToSignedIntegral' or ck == 'IntegralToBoolean':
            s, d = vt(x), vt(n)
            lit = self.skip(x)
            v = self.val(x)
            return self.icast(v, s, d, n)
        if ck == 'IntegralToFloating':
            return 'f_of_%s(%s)' % (rust(vt(x)), self.val(x))
        if ck == 'FloatingToIntegral':
            return 'f_to_%s(%s)' % (rust(vt(n)), self.val(x))
        if ck in ('NullToPointer',): return '0u64'
        if ck == 'ToVoid': return self.val(x)
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase'):
            if self.is_this(n): return '1u64'
            return place_val(self.lv(n))
        if ck == 'FloatingCast': return self.val(x)
        self.bad(n, ck)
    def user_conv(self, n):
        x = n['inner'][0]
        t, s = vt(n), None
        if t == cty.BOOL: return self.val(x)
        return self.val(x)
    def icast(self, v, s, d, n):
        if s == d: return v
        m = re.fullmatch(r'(\d+)(i32|i64|u64|i8|u32)', v)
        rs, rd = rust(s), rust(d)
        if m and rd != 'bool': return m.group(1) + rd
        if rd == 'bool': return '(%s != 0)' % v
        if rs == 'bool': return '(if %s { 1%s } else { 0%s })' % (v, rd, rd)
        widen = {('i32', 'i64'), ('i8', 'i32'), ('i8', 'i64'), ('u32', 'u64'), ('u32', 'i64')}
        if (rs, rd) in widen: return '(%s as %s)' % (v, rd)
        return '%s_to_%s(%s)' % (rs, rd, v)
    def unary(self, n):
        op = n['opcode']; x = n['inner'][0]
        if op in ('++', '--'):
            if n.get('isPostfix'):
                if vt(x)[0] == 'ptr': self.bad(n)
                t = self.fresh(); self.put('let %s: %s = %s;' % (t, rust(vt(x)), place_val(self.lv(x))))
                self.expr_stmt(n); return t
            self.expr_stmt(n); return place_val(self.lv(x))
        if op == '!':
            s = self.skip(x)
            return '!(%s)' % self.boolval(x)
        if op == '-':
            if vt(n) == cty.F64: return 'f_neg(%s)' % self.val(x)
            s = self.skip(x)
            if s['kind'] == 'IntegerLiteral': return '(-%s)' % self.val(s) if s['value'] != '0' else self.val(s)
            return '(-%s)' % self.val(x)
        if op == '+': return self.val(x)
        if op == '*': return place_val(self.deref(x))
        self.bad(n, op)
    def boolval(self, n):
        return self.val(n)
    ARI = {'+', '-', '*', '/', '%'}
    def binary(self, n):
        op = n['opcode']; a, b = n['inner']
        if op == ',':
            self.expr_stmt(a); return self.val(b)
        if op == '=':
            self.expr_stmt(n); return place_val(self.lv(a))
        if op in ('&&', '||'):
            x = self.val(a)
            s = self.lines; self.lines = []; self.ind += 1
            y = self.val(b); l = self.lines; self.lines = s; self.ind -= 1
            if not l: return '(%s %s %s)' % (x, op, y)
            t = self.fresh('b')
            self.put('let mut %s: bool = %s;' % (t, x))
            self.put('if %s%s {' % ('' if op == '&&' else '!', t)); self.lines += l; self.ind += 1; self.put('%s = %s;' % (t, y)); self.ind -= 1; self.put('}')
            return t
        ta = vt(a)
        if op in ('==', '!=') and (ta[0] in ('ptr',) or vt(b)[0] == 'ptr' or ta == ('cls', 'nullptr_t')):
            r = self.ptr_eq(a, b, n)
            return r if op == '==' else '!(%s)' % r
        x = self.val(a)
        # keep left-to-right: later side effects must not change an earlier operand
        m0 = len(self.lines)
        y = self.val(b)
        if len(self.lines) > m0 and not re.fullmatch(r'\d+\w*', x):
            t = self.fresh('l')
            ins = ('    ' * self.ind + 'let %s: %s = %s;' % (t, rust(vt(a)), x), ('L', self.line))
            self.lines.insert(m0, ins); x = t
        return self.arith(op, x, y, vt(n), ta, n, vt(b))
    def arith(self, op, x, y, rt, ta, n, tb=None):
        if ta == cty.F64:
            f = {'+': 'f_add', '-': 'f_sub', '*': 'f_mul', '/': 'f_div', '<': 'f_lt', '<=': 'f_le', '==': 'f_eq'}
            if op in f: return '%s(%s, %s)' % (f[op], x, y)
            if op == '>': return 'f_lt(%s, %s)' % (y, x)
            if op == '>=': return 'f_le(%s, %s)' % (y, x)
            if op == '!=': return '!f_eq(%s, %s)' % (x, y)
            self.bad(n, op)
        if op in ('<', '<=', '>', '>=', '==', '!='): return '(%s %s %s)' % (x, op, y)
        if op == '+' : return '(%s + %s)' % (x, y) if rt not in (cty.U64,) else 'u64_add(%s, %s)' % (x, y)
        if op == '-': return 'u64_sub(%s, %s)' % (x, y) if rt == cty.U64 else '(%s - %s)' % (x, y)
        if op == '*': return 'u64_mul(%s, %s)' % (x, y) if rt == cty.U64 else '(%s * %s)' % (x, y)
        if op in ('/', '%'):
            if rt == cty.U64: return '(%s %s %s)' % (x, op, y)
            return '%s_%s(%s, %s)' % (rust(rt), 'div' if op == '/' else 'rem', x, y)
        if op in ('<<', '>>'): return '%s_%s(%s, %s_amt(%s))' % (rust(rt), 'shl' if op == '<<' else 'shr', x, rust(tb or cty.INT), y)
        if op in ('&', '|', '^'): return '%s_%s(%s, %s)' % (rust(rt), {'&': 'and', '|': 'or', '^': 'xor'}[op], x, y)
        self.bad(n, op)
    def is_null(self, n):
        s = self.skip(n)
        return s['kind'] in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or s.get('castKind') == 'NullToPointer'
    def ptr_eq(self, a, b, n):
        if self.is_null(a): a, b = b, a
        if self.is_null(b):
            s = self.skip(a)
            if s['kind'] == 'DeclRefExpr':
                v = self.vars.get(s['referencedDecl']['id'])
                if v:
                    if v[0] == 'ptropt': return 'opt_none(%s)' % v[1]
                    if v[0] in ('ptrmut', 'ptralias'): return 'false'
                    if v[0] == 'ptrnull': return 'true'
        self.bad(n, 'pointer comparison')

    # ---------- member calls ----------
    def member_call(self, n):
        m = self.skip(n['inner'][0])
        if m['kind'] != 'MemberExpr': self.bad(n, 'member pointer')
        name = m['name']; args = n['inner'][1:]
        ot = vt(m['inner'][0])
        if ot[0] == 'ptr': ot = ot[1]
        if ot[0] == 'shared' and not m.get('isArrow'):
            p = self.obj_place(m)
            if name == 'get': return place_val(p)
            if name == 'operator bool': return '(%s != 0u64)' % place_val(p)
            if name == 'reset' and not args: self.assign(p, '0u64'); return '()'
            self.bad(n, name)
        if ot == cty.JSON: return self.json_member(n, m, name, args)
        if ot[0] in ('vec', 'str', 'map', 'set', 'pair'): return self.std_member(n, m, name, ot, args)
        if ot[0] == 'cls':
            cls = self.gen.impl(ot[1])
            own = None
            cands = self.gen.methods(cls, name)
            if not cands: self.bad(n, 'unknown method %s::%s' % (cls, name))
            obj = self.obj_place(m)
            if obj.ty[0] == 'cls' and cands[0].cls != obj.ty[1]:
                if cands[0].cls in self.gen.prog.bases.get(obj.ty[1], []): 
                    obj = obj.field('base', ('cls', cands[0].cls))
                elif obj.ty[1] in self.gen.prog.bases.get(cands[0].cls, []):
                    # virtual call on an abstract base object
                    if self.gen.abstract(obj.ty[1]): cands = cands
            return self.call_fn(cls + '::' + name, cands, obj, args, n)
        self.bad(n, 'method %s of %r' % (name, ot))

    # ---------- json values: null, booleans, integers, doubles, strings, arrays, objects ----------
    def jsonkey(self, n):
        x = self.skip(n)
        if x['kind'] == 'StringLiteral' or vt(n) == cty.STR: return self.val(n)
        self.bad(n, 'json key')
    def to_json(self, n, t):
        f = {cty.INT: 'j_int(%s)', cty.U64: 'j_u64(%s)', cty.F64: 'j_real(%s)', cty.BOOL: 'j_bool(%s)', cty.STR: 'j_str(%s)', ('vec', cty.INT): 'j_ints(%s)'}.get(t)
        if f is None: self.bad(n, 'json of %r' % (t,))
        return f % (self.val(n) if scalar(t) else self.refarg(n))
    def from_json(self, e, t, n):
        if t == cty.JSON: return e
        f = {cty.INT: 'j_get_i32', cty.F64: 'j_get_F64', cty.BOOL: 'j_get_bool', cty.STR: 'j_get_str', ('vec', cty.INT): 'j_get_ints'}.get(t)
        if f is None: self.bad(n, 'json as %r' % (t,))
        return '%s(%s)' % (f, e if e.startswith('&') else '&' + e)
    def json_member(self, n, m, name, args):
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if name in ('at',): return place_val(self.lv(n))
        p = self.obj_place(m); r = place_ref(p)
        if name == 'get' and not args or name.startswith('operator ') and not args: return self.from_json(r, vt(n), n)
        if name in ('push_back', 'emplace_back') and len(args) == 1:
            v = self.val(args[0]) if vt(args[0]) == cty.JSON else self.to_json(args[0], vt(args[0]))
            self.assign(p, 'j_push(&%s, %s)' % (r, self.atom(v, cty.JSON))); return '()'
        if name == 'size' and not args: return 'j_len(&%s)' % r
        if name == 'empty' and not args: return '(j_len(&%s) == 0u64)' % r
        if name == 'is_null' and not args: return 'j_is_null(&%s)' % r
        if name == 'count' and len(args) == 1: return '(if j_has(&%s, &%s) { 1u64 } else { 0u64 })' % (r, self.jsonkey(args[0]))
        self.bad(n, '%s of json' % name)
    def std_member(self, n, m, name, ot, args):
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        p = self.obj_place(m)
        r = place_ref(p); k = ot[0]
        et = ot[1] if k in ('vec', 'set', 'map') else cty.CHAR
        if k in ('vec', 'str'):
            if name in ('size', 'length') and not args: return 'v_len(&%s)' % r
            if name == 'empty': return '(v_len(&%s) == 0u64)' % r
            if name in ('push_back',): self.mut(p, 'v_push(&%s, %s)' % (r, self.val(args[0]))); return '()'
            if name == 'emplace_back': self.mut(p, 'v_push(&%s, %s)' % (r, self.emplace(et, args, n))); return '()'
            if name == 'pop_back': self.mut(p, 'v_pop(&%s)' % r); return '()'
            if name == 'clear': self.mut(p, 'v_new::<%s>()' % rust(et)); return '()'
            if name in ('reserve', 'shrink_to_fit'):
                for a in args: self.val(a)
                return '()'
            if name == 'resize':
                v = self.val(args[1]) if len(args) > 1 else self.default(et)
                self.mut(p, 'v_resize(&%s, %s, %s)' % (r, self.val(args[0]), v)); return '()'
            if name == 'assign' and len(args) == 2 and vt(args[0])[0] == 'vit':
                q, b = self.vit(args[0]); q2, e = self.vit(args[1]); self.same(q, q2, n)
                self.mut(p, 'v_sub(&%s, %s, %s)' % (place_ref(q), b, e)); return '()'
            if name == 'assign' and len(args) == 2:
                self.mut(p, 'v_fill(%s, %s)' % (self.val(args[0]), self.val(args[1]))); return '()'
            if name == 'insert' and len(args) == 3 and vt(args[1])[0] == 'vit':
                c, pos = self.vit(args[0]); self.same(c, p, n)
                pos = self.atom(pos)
                q, b = self.vit(args[1]); q2, e = self.vit(args[2]); self.same(q, q2, n)
                if place_ref(q) == r: self.bad(n, 'self insertion')
                b, e = self.atom(b), self.atom(e)
                self.mut(p, 'v_insert(&%s, %s, &%s, %s, %s)' % (r, pos, place_ref(q), b, e)); return '()'
            if name == 'insert' and len(args) == 2 and vt(args[0])[0] == 'vit':
                c, pos = self.vit(args[0]); self.same(c, p, n)
                self.mut(p, 'v_insert1(&%s, %s, %s)' % (r, pos, self.val(args[1]))); return '()'
            if name == 'erase' and args and vt(args[0])[0] == 'vit':
                c, b = self.vit(args[0]); self.same(c, p, n)
                b = self.atom(b)
                if len(args) == 2:
                    c, e = self.vit(args[1]); self.same(c, p, n)
                else: e = '(%s + 1i64)' % b
                self.mut(p, 'v_erase(&%s, %s, %s)' % (r, b, e)); return '()'
            if name in ('back', 'front', 'at'): return place_val(self.lv(n))
            if name == 'append' and len(args) == 1 and vt(args[0])[0] == 'str': self.mut(p, 'v_cat(&%s, &%s)' % (r, self.val(args[0]))); return '()'
            if name == 'swap' and len(args) == 1:
                q = self.lv(args[0]); t = self.fresh(); self.put('let %s = cp(&%s);' % (t, place_ref(q)))
                self.assign(q, 'cp(&%s)' % r); self.assign(p, t); return '()'
            if name in ('c_str', 'str'): return place_val(p)
        if k == 'map':
            if name == 'size': return 'm_len(&%s)' % r
            if name == 'empty': return '(m_len(&%s) == 0u64)' % r
            if name == 'count': return '(if m_has(&%s, %s) { 1u64 } else { 0u64 })' % (r, self.refarg(args[0]))
            if name == 'at': return place_val(self.lv(n))
            if name in ('emplace', 'insert', 'try_emplace'): self.map_emplace(n, m); return '()'
            if name == 'clear': self.mut(p, 'm_new::<%s, %s>()' % (rust(ot[1]), rust(ot[2]))); return '()'
            if name == 'erase' and vt(args[0]) == ot[1]: self.mut(p, 'm_remove(&%s, %s)' % (r, self.refarg(args[0]))); return '()'
            if name in ('reserve',): return '()'
        if k == 'set':
            if name == 'size': return 's_len(&%s)' % r
            if name == 'empty': return '(s_len(&%s) == 0u64)' % r
            if name == 'count': return '(if s_has(&%s, %s) { 1u64 } else { 0u64 })' % (r, self.refarg(args[0]))
            if name in ('insert', 'emplace') and len(args) == 1: self.map_emplace(n, m); return '()'
            if name == 'erase' and vt(args[0])[0] not in ('sit', 'mit'): self.mut(p, 's_remove(&%s, %s)' % (r, self.refarg(args[0]))); return '()'
            if name == 'clear': self.mut(p, 's_new::<%s>()' % rust(et)); return '()'
            if name in ('reserve',): return '()'
        self.bad(n, '%s of %s' % (name, k))
    def mut(self, p, e):
        self.assign(p, e)
    def emplace(self, et, args, n):
        if len(args) == 1 and vt(args[0]) == et: return self.val(args[0])
        if len(args) == 1 and scalar(et) : return self.val(args[0])
        if et[0] == 'pair' and len(args) == 2: return 'P2 { first: %s, second: %s }' % (self.val(args[0]), self.val(args[1]))
        if et[0] in ('vec', 'str') and len(args) == 2 and vt(args[0])[0] == 'vit':
            q, b = self.vit(args[0]); q2, e = self.vit(args[1]); self.same(q, q2, n); return 'v_sub(&%s, %s, %s)' % (place_ref(q), b, e)
        if et[0] in ('vec', 'str') and len(args) == 2:
            a0 = self.val(args[0]); t0 = vt(args[0])
            return 'v_fill(%s, %s)' % (self.icast(a0, t0, cty.U64, n), self.val(args[1]))
        if not args: return self.default(et)
        if et[0] == 'cls': return self.ctor(et[1], args, n)
        self.bad(n, 'emplace')
    def ctor(self, cls, args, n):
        cands = self.gen.methods(cls, cls)
        cands = [c for c in cands if c.kind == 'CXXConstructorDecl']
        return self.call_fn(cls + '::' + cls, cands, None, args, n)
    def inline_ctor(self, f, args):
        self.inline_binds(f, args)
        t = self.fresh('obj')
        fr = {'f': f, 'this': Place(t, ('cls', f.cls)), 'ret': None, 'rt': None}
        self.inline_stack.append(fr)
        try:
            self.ctor_body(f, t)
        finally: self.inline_stack.pop()
        return t
    def ctor_body(self, f, this):
        """member initialisers, then the body"""
        fields = self.gen.fields(f.cls)
        deleg = [i for i in f.inits if 'delegatingInit' in i]
        if deleg:
            c = self.skip(deleg[0]['inner'][0])
            self.put('let mut %s: %s = %s;' % (this, f.cls, self.ctor(f.cls, [a for a in c.get('inner', [])], c)))
        else:
            init = {}
            for i in f.inits:
                if 'anyInit' in i:
                    init[i['anyInit']['name']] = i['inner'][0] if i.get('inner') else None
                elif 'baseInit' in i: init['base'] = i['inner'][0]
            parts = []
            for name, ty, dflt in fields:
                x = init.get(name)
                if name == 'base':
                    if x is None: self.bad(f.node, 'base initialiser')
                    c = self.skip(x); parts.append('base: %s' % self.atom(self.ctor(ty[1], c.get('inner', []), c))); continue
                if x is not None and x['kind'] == 'CXXDefaultInitExpr': x = dflt
                if x is None and dflt is not None: x = dflt
                if x is None or x['kind'] == 'CXXConstructExpr' and not self.args_of(x):
                    if ty[0] in ('int', 'bool', 'f64', 'u64', 'i64', 'ptr') and x is None: v = 'undef_%s()' % rust(ty)
                    elif ty[0] == 'cls': v = self.ctor(ty[1], [], f.node)
                    else: v = self.default(ty)
                else: v = self.val(x)
                t = self.fresh('i'); self.put('let %s: %s = %s;' % (t, rust(ty), v)); parts.append('%s: %s' % (name, t))
            self.put('let mut %s = %s { %s };' % (this, f.cls, ', '.join(parts)))
        for s in f.body.get('inner', []): self.stmt(s)

    # ---------- operators on class types ----------
    def lambda_of(self, n):
        n = self.skip_lv(n)
        v = self.vars.get(n['referencedDecl']['id']) if n['kind'] == 'DeclRefExpr' else None
        return v if v and v[0] == 'lambda' else None
    def op_call(self, n):
        op = self.opname(n); a = n['inner'][1:]
        if op == 'operator()' and self.lambda_of(a[0]): return self.call_lambda(self.lambda_of(a[0]), a[1:], n)
        ts = [vt(x) for x in a]
        if op in ('operator==', 'operator!=') :
            r = self.op_eq(n, a, ts)
            return r if op == 'operator==' else '!(%s)' % r
        if op == 'operator=':
            self.expr_stmt(n); return place_val(self.lv(a[0]))
        if op == 'operator[]' :
            return place_val(self.lv(n))
        if op == 'operator*': return place_val(self.deref(a[0]))
        if op == 'operator-' and ts[0][0] == 'vit' and ts[1][0] == 'vit':
            p, x = self.vit(a[0]); q, y = self.vit(a[1]); self.same(p, q, n)
            return '(%s - %s)' % (x, y)
        if op in ('operator<', 'operator>', 'operator<=', 'operator>='):
            if ts[0][0] == 'vit':
                p, x = self.vit(a[0]); q, y = self.vit(a[1]); self.same(p, q, n); return '(%s %s %s)' % (x, op[8:], y)
            if ts[0] == ts[1] == ('pair', ('vec', cty.INT), cty.INT) and op in ('operator<', 'operator>'):
                x, y = (a[0], a[1]) if op == 'operator<' else (a[1], a[0]); return 'p_lt(%s, %s)' % (self.refarg(x), self.refarg(y))
            if ts[0][0] == 'vec' and ts[0] == ts[1]:
                if op == 'operator<': return 'v_lex_lt(%s, %s)' % (self.refarg(a[0]), self.refarg(a[1]))
                if op == 'operator>': return 'v_lex_lt(%s, %s)' % (self.refarg(a[1]), self.refarg(a[0]))
        if op == 'operator+' and cty.STR in ts:
            return 'v_cat(&%s, &%s)' % (self.tostr(a[0]), self.tostr(a[1]))
        if op == 'operator>>' and vt(self.derived(a[0])) == cty.IFS:
            if ts[1] != cty.JSON: self.bad(n, 'reading %r' % (ts[1],))
            p = self.lv(a[1]); f = self.lv(self.derived(a[0])); self.assign(p, 'f_read(h, &%s)' % place_ref(f)); return '()'
        if op in ('operator+=', 'operator++', 'operator--', 'operator<<', 'operator-='):
            self.expr_stmt(n)
            if op == 'operator<<': return '()'
            return place_val(self.lv(a[0]))
        if op == 'operator()' and ts[0] == ('gamma',) and len(a) == 2 and ts[1] == ('rng',):
            d = self.skip(a[0])
            if d['kind'] == 'DeclRefExpr':
                # a distribution keeps state between draws: only one draw per object
                if self.gdepth.pop(d['referencedDecl']['id'], None) != len(self.loops): self.bad(n, 'distribution drawn from more than once')
            e = self.val(a[0]); p = self.lv(a[1])
            if p.heap or any(s[0] != 'f' for s in p.steps): self.bad(n, 'generator')
            r = self.fresh('r'); g = place_ref(p)
            self.put('let %s: F64 = gamma_draw(&%s, &mut %s);' % (r, e, g))
            return r
        self.bad(n, op)
    # the object itself, below casts to its base classes
    def derived(self, n):
        n = self.skip_lv(n)
        while n['kind'] == 'ImplicitCastExpr' and n['castKind'] in ('UncheckedDerivedToBase', 'DerivedToBase'): n = self.skip_lv(n['inner'][0])
        return n
    def tostr(self, n):
        t = vt(n)
        if t == cty.CHAR: return 'v_push(&v_new::<i8>(), %s)' % self.val(n)
        return self.val(n)
    def op_eq(self, n, a, ts):
        if ts[0][0] in ('mit', 'sit') or ts[1][0] in ('mit', 'sit'):
            x, y = self.mit(a[0]), self.mit(a[1])
            if x[0] == 'mitend': x, y = y, x
            if y[0] == 'mitend' and x[0] == 'mit':
                self.same(x[1], y[1], n); return 'mit_end(&%s)' % x[2]
            self.bad(n)
        if ts[0][0] == 'vit':
            p, x = self.vit(a[0]); q, y = self.vit(a[1]); self.same(p, q, n)
            return '(%s == %s)' % (x, y)
        if ts[0][0] == 'shared' or ts[1][0] == 'shared':
            return '(%s == %s)' % (self.val(a[0]) if not self.is_null(a[0]) else '0u64', self.val(a[1]) if not self.is_null(a[1]) else '0u64')
        if ts[0][0] in ('vec', 'str', 'pair', 'set', 'map'):
            return 'v_eq(%s, %s)' % (self.refarg(a[0]), self.refarg(a[1]))
        self.bad(n, '== on %r' % (ts,))

    # ---------- free calls ----------
    def free_call(self, n):
        c = self.skip(n['inner'][0])
        if c['kind'] != 'DeclRefExpr': self.bad(n)
        f = c['referencedDecl']['name']; args = [a for a in n['inner'][1:] if a['kind'] != 'CXXDefaultArgExpr']
        kind = c['referencedDecl']['kind']
        cands = self.gen.functions(f, c['referencedDecl'])
        if not cands and not self.known_free(f):
            self.gen.load_more(f); cands = self.gen.functions(f, c['referencedDecl'])
        if cands: return self.call_fn(f, cands, None, n['inner'][1:], n)
        rt = vt(n)
        if f == 'log': return 'f_log(%s)' % self.fval(args[0])
        if f in ('lowest', 'max', 'min', 'infinity', 'epsilon') and not args:
            if rt == cty.F64: return {'lowest': 'f_lowest()', 'max': 'f_max()'}.get(f) or self.bad(n)
            if rt == cty.INT: return {'lowest': 'i32::MIN', 'min': 'i32::MIN', 'max': 'i32::MAX'}[f]
        if f in ('min', 'max') and len(args) == 2:
            x, y = self.atom(self.val(args[0])), self.atom(self.val(args[1]))
            lt = 'f_lt(%s, %s)' if rt == cty.F64 else '%s < %s'
            return '(if %s { %s } else { %s })' % (((lt % (y, x)), y, x) if f == 'min' else ((lt % (x, y)), y, x))
        if f == 'abs' and rt == cty.INT: return 'i32_abs(%s)' % self.val(args[0])
        if f == 'accumulate':
            p, b = self.vit(args[0]); q, e = self.vit(args[1]); self.same(p, q, n)
            if len(args) != 3: self.bad(n)
            return 'accumulate_%s_%s(&%s, %s, %s, %s)' % (rust(p.ty[1]), rust(vt(args[2])), place_ref(p), b, e, self.val(args[2]))
        if f == 'to_string': return 'dec_%s(%s)' % (rust(vt(args[0])), self.val(args[0]))
        if f in ('isalnum', 'isalpha', 'isdigit', 'tolower', 'toupper', 'isupper', 'islower', 'isspace') and len(args) == 1: return 'c_%s(%s)' % (f, self.val(args[0]))
        if f == 'rand': return 'c_rand()'
        if f == 'sort': return self.sort(args, n)
        if f == 'stable_sort': return self.sort(args, n)
        if f == 'transform': return self.std_transform(args, n)
        if f == 'move' and len(args) == 1: return self.val(args[0])
        if f == 'swap' and len(args) == 2:
            p, q = self.lv(args[0]), self.lv(args[1]); t = self.fresh(); self.put('let %s: %s = %s;' % (t, rust(p.ty), place_val(p)))
            self.assign(p, place_val(q)); self.assign(q, t); return '()'
        if f == 'distance' and vt(args[0])[0] == 'vit':
            p, x = self.vit(args[0]); q, y = self.vit(args[1]); self.same(p, q, n); return '(%s - %s)' % (y, x)
        if f == 'make_pair': return 'P2 { first: %s, second: %s }' % (self.val(args[0]), self.val(args[1]))
        if f == 'equal':
            p, b = self.vit(args[0]); p1, e = self.vit(args[1]); self.same(p, p1, n)
            q, b2 = self.vit(args[2])
            if len(args) == 3: 
                e = self.atom(e)
                return '(mismatch3(&%s, %s, %s, &%s, %s) == %s)' % (place_ref(p), b, e, place_ref(q), b2, e)
            q1, e2 = self.vit(args[3]); self.same(q, q1, n)
            return 'v_eq(&v_sub(&%s, %s, %s), &v_sub(&%s, %s, %s))' % (place_ref(p), b, e, place_ref(q), b2, e2)
        if f == 'make_shared':
            cls = rt[1][1]
            o = self.ctor(cls, n['inner'][1:], n)
            return self.heap_new(cls, o)
        if f == 'copy' and len(args) == 3 and self.is_back_inserter(args[2]):
            p, b = self.vit(args[0]); p1, e = self.vit(args[1]); self.same(p, p1, n)
            d = self.back_inserter(args[2])
            self.assign(d, 'v_cat(&%s, &v_sub(&%s, %s, %s))' % (place_ref(d), place_ref(p), b, e)); return '()'
        if f == 'reverse' and len(args) == 2:
            p, b = self.vit(args[0]); p1, e = self.vit(args[1]); self.same(p, p1, n)
            self.assign(p, 'v_reverse(&%s, %s, %s)' % (place_ref(p), b, e)); return '()'
        if f == 'fill' and len(args) == 3:
            p, b = self.vit(args[0]); p1, e = self.vit(args[1]); self.same(p, p1, n)
            self.assign(p, 'v_fill_range(&%s, %s, %s, %s)' % (place_ref(p), b, e, self.val(args[2]))); return '()'
        self.bad(n, 'function ' + f)
    def known_free(self, f): return f in KNOWN_FREE
    def is_back_inserter(self, n):
        n = self.skip(n); return n['kind'] == 'CallExpr' and self.callee(n) == 'back_inserter'
    def back_inserter(self, n):
        return self.lv(self.skip(n)['inner'][1])
    def heap_new(self, cls, o):
        t = self.fresh('id')
        if cls not in self.gen.heap:
            # the heap holds one class of the hierarchy: what the object has of it
            base = [b for b in self.gen.prog.bases.get(cls, []) if b in self.gen.heap]
            if len(base) != 1: raise Unsupported('no heap for ' + str(cls))
            cls, o = base[0], '%s.base' % o
        self.put('let %s: u64 = h_new_%s(h, %s);' % (t, cls, o))
        return t
    def fval(self, n):
        if vt(n) != cty.F64: return 'f_of_%s(%s)' % (rust(vt(n)), self.val(n))
        return self.val(n)
    def sort(self, args, n):
        p, b = self.vit(args[0]); q, e = self.vit(args[1]); self.same(p, q, n)
        if b != '0i64' or e != 'v_len_i(&%s)' % place_ref(p): self.bad(n, 'partial sort')
        if len(args) == 2:
            self.assign(p, 'sort_%s(&%s)' % (self.suffix(p.ty[1]), place_ref(p))); return '()'
        lam = self.find_lambda(args[2])
        ps, body = self.lambda_parts(lam)
        rt = rust(p.ty[1])
        env = {ps[0]['id']: ('a__', p.ty[1]), ps[1]['id']: ('b__', p.ty[1])}
        spec = self.spec(body, env)
        self.assign(p, 'sort_by(&%s, Ghost(|a__: %s, b__: %s| %s))' % (place_ref(p), rt, rt, spec)); return '()'
    def find_lambda(self, n):
        if n['kind'] == 'LambdaExpr': return n
        for c in n.get('inner', []):
            if isinstance(c, dict) and c.get('kind'):
                r = self.find_lambda(c)
                if r: return r
        return None
    def lambda_parts(self, lam):
        if lam is None: raise Unsupported('comparator is not a lambda')
        rec = lam['inner'][0]
        m = next(c for c in rec['inner'] if c.get('kind') == 'CXXMethodDecl' and c['name'] == 'operator()')
        ps = [c for c in m['inner'] if c['kind'] == 'ParmVarDecl']
        body = next(c for c in m['inner'] if c['kind'] == 'CompoundStmt')
        st = body['inner']
        if len(st) != 1 or st[0]['kind'] != 'ReturnStmt': raise Unsupported('comparator body')
        return ps, st[0]['inner'][0]
    def spec(self, n, env):
        """pure expression as a spec expression"""
        n = self.skip(n); k = n['kind']
        if k == 'DeclRefExpr':
            d = n['referencedDecl']['id']
            if d in env: return env[d][0]
        if k == 'IntegerLiteral': return n['value'] + rust(vt(n))
        if k == 'UnaryOperator' and n['opcode'] == '-' and vt(n) == cty.F64: return 'fneg(%s)' % self.spec(n['inner'][0], env)
        if k == 'UnaryOperator' and n['opcode'] == '-' : return '(-%s)' % self.spec(n['inner'][0], env)
        if k == 'UnaryOperator' and n['opcode'] == '!': return '!(%s)' % self.spec(n['inner'][0], env)
        if k == 'BinaryOperator':
            a, b = (self.spec(x, env) for x in n['inner']); op = n['opcode']
            if vt(n['inner'][0]) == cty.F64:
                if op == '<': return 'flt(%s, %s)' % (a, b)
                if op == '>': return 'flt(%s, %s)' % (b, a)
                if op == '<=': return 'fle(%s, %s)' % (a, b)
                if op == '>=': return 'fle(%s, %s)' % (b, a)
            elif op in ('<', '>', '<=', '>=', '==', '!=', '&&', '||', '+', '-'): return '(%s %s %s)' % (a, op, b)
        if k == 'MemberExpr':
            b = self.spec(n['inner'][0], env)
            return '%s.%s' % (b, n['name'])
        if k == 'CXXOperatorCallExpr' and self.opname(n) in ('operator<', 'operator>'):
            x, y = n['inner'][1:]; f = {('vec', cty.INT): 'lex_lt', ('pair', cty.INT, cty.INT): 'plt_i32', ('pair', ('vec', cty.INT), cty.INT): 'plt_seq'}.get(vt(x))
            if f is None or vt(x) != vt(y): self.bad(n, 'in a comparator')
            if self.opname(n) == 'operator>': x, y = y, x
            return '%s(%s, %s)' % (f, self.spec(x, env), self.spec(y, env))
        if k == 'CXXMemberCallExpr':
            m = self.skip(n['inner'][0]); b = self.spec(m['inner'][0], env)
            ot = vt(m['inner'][0])
            if ot[0] == 'cls' and len(n['inner']) == 1:
                f = self.gen.methods(ot[1], m['name'])
                st = f[0].body.get('inner', []) if f else []
                if len(st) == 1 and st[0]['kind'] == 'ReturnStmt':
                    x = self.skip(st[0]['inner'][0])
                    if x['kind'] == 'MemberExpr' and self.is_this(x['inner'][0]): return '%s.%s' % (b, x['name'])
            if ot[0] == 'vec' and m['name'] == 'size': return '(%s.len() as u64)' % b
        self.bad(n, 'in a comparator')
    def std_transform(self, args, n):
        p, b = self.vit(args[0]); q, e = self.vit(args[1]); self.same(p, q, n)
        d, o = self.vit(args[2]); self.same(p, d, n)
        f = self.skip(args[3])
        if f['kind'] != 'DeclRefExpr' or b != '0i64' or o != '0i64': self.bad(n)
        self.assign(p, 'transform_%s(&%s, %s)' % (f['referencedDecl']['name'], place_ref(p), e)); return '()'

    # ---------- construction ----------
    def construct(self, n):
        t = vt(n); args = [a for a in self.args_of(n)]
        if n.get('elidable') and args: return self.val(args[0])
        if t[0] in ('vec', 'str'):
            et = t[1] if t[0] == 'vec' else cty.CHAR
            if not args: return self.default(t)
            ts = [vt(a) for a in args]
            if len(args) == 1:
                if ts[0] == t: return self.val(args[0])
                if t[0] == 'str': return self.val(args[0])
                if ts[0] in (cty.U64, cty.INT): return 'v_fill(%s, %s)' % (self.val(args[0]), self.default(et))
                s = self.skip(args[0])
                if s['kind'] in ('CXXStdInitializerListExpr', 'InitListExpr'): return self.val(args[0])
            if len(args) >= 2 and ts[0][0] == 'vit':
                p, b = self.vit(args[0]); q, e = self.vit(args[1]); self.same(p, q, n)
                return 'v_sub(&%s, %s, %s)' % (place_ref(p), b, e)
            if len(args) == 2 and ts[0] in (cty.U64, cty.INT): return 'v_fill(%s, %s)' % (self.val(args[0]), self.val(args[1]))
            if len(args) == 2 and ts[0][0] == 'map_begin': pass
            s = self.map_range(args)
            if s: return s
            if len(args) == 2 and self.array_range(args): return self.array_range(args)
        if t[0] in ('map', 'set'):
            if not args: return self.default(t)
            if len(args) == 1 and vt(args[0]) == t: return self.val(args[0])
            if vt(args[0]) == cty.U64 or vt(args[0]) == cty.INT: return self.default(t)     # bucket count
        if t[0] == 'pair':
            if len(args) == 2: return 'P2 { first: %s, second: %s }' % (self.val(args[0]), self.val(args[1]))
            if len(args) == 1: return self.val(args[0])
            return self.default(t)
        if t[0] == 'shared':
            if not args: return '0u64'
            x = self.skip(args[0])
            if x['kind'] == 'CXXNewExpr':
                return self.new_object(x)
            if self.is_null(args[0]): return '0u64'
            if vt(args[0])[0] == 'shared': return self.val(args[0])
            if vt(args[0])[0] == 'ptr' and x['kind'] == 'CallExpr': return self.val(args[0])    # takes over a fresh object
        if t == cty.JSON:
            if not args: return 'j_null()'
            if len(args) != 1: self.bad(n, 'json construction')
            x = self.skip_lv(args[0])
            if x['kind'] in ('InitListExpr', 'CXXStdInitializerListExpr'): self.bad(n, 'json list')
            if self.is_null(args[0]): return 'j_null()'
            ta = vt(args[0])
            if ta == cty.JSON: return self.val(args[0])
            return self.to_json(args[0], ta)
        if t in (cty.OFS, cty.IFS):
            real = n.get('inner', [])
            if len(args) != 1 or vt(args[0]) != cty.STR or any(c['kind'] != 'CXXDefaultArgExpr' for c in real[1:]): self.bad(n, 'file stream')
            v = self.atom(self.val(args[0]), cty.STR)
            if t == cty.OFS: self.put('f_open(h, &%s);' % v)
            return 'cp(&%s)' % v
        if t[0] == 'rng' and not (len(args) == 1 and vt(args[0]) == t): return 'rng_any()' if args else 'rng_new()'
        if t[0] == 'gamma' and not (len(args) == 1 and vt(args[0]) == t):
            g = [self.val(a) if a['kind'] != 'CXXDefaultArgExpr' else 'f_of_i32(1i32)' for a in args]
            g += ['f_of_i32(1i32)'] * (2 - len(g))
            return 'GammaDist { alpha: %s, beta: %s }' % tuple(g)
        if t[0] == 'cls':
            if len(args) == 1 and vt(args[0]) == t:
                return place_val(self.lv(args[0])) if self.is_lvalue(args[0]) else self.val(args[0])
            return self.ctor(t[1], n.get('inner', []), n)
        if scalar(t) and len(args) == 1: return self.val(args[0])
        self.bad(n, 'construction of %r' % (t,))
    def new_object(self, x):
        cls = vt(x)[1][1] if vt(x)[0] == 'ptr' else None
        ce = [c for c in x['inner'] if c['kind'] == 'CXXConstructExpr']
        if len(ce) != 1 or x.get('isArray'): self.bad(x, 'new')
        return self.heap_new(cls, self.ctor(cls, ce[0].get('inner', []), x))
    def map_range(self, args):
        """vector(map.begin(), map.end())"""
        if len(args) != 2: return None
        xs = [self.skip(a) for a in args]
        if all(x['kind'] == 'CXXMemberCallExpr' for x in xs) and vt(xs[0])[0] in ('mit', 'sit'):
            ms = [self.skip(x['inner'][0]) for x in xs]
            if [m['name'] for m in ms] == ['begin', 'end'] and self.is_lvalue(ms[0]['inner'][0]):
                p, q = self.obj_place(ms[0]), self.obj_place(ms[1]); self.same(p, q, xs[0])
                return ('m_pairs(&%s)' if p.ty[0] == 'map' else 's_elems(&%s)') % place_ref(p)
        return None
    def array_range(self, args):
        """vector(std::begin(a), std::end(a)) of a local array"""
        xs = [self.skip(a) for a in args]
        if all(x['kind'] == 'CallExpr' for x in xs) and [self.callee(x) for x in xs] == ['begin', 'end']:
            p, q = self.lv(xs[0]['inner'][1]), self.lv(xs[1]['inner'][1])
            if place_ref(p) == place_ref(q): return place_val(p)
        return None

    # ---------- statements ----------
    def body(self, n):
        if n['kind'] == 'CompoundStmt':
            for s in n.get('inner', []): self.stmt(s)
        else: self.stmt(n)
    def stmt(self, n):
        if '_line' in n and not self.inline_stack: self.line = n['_line'] or self.line
        k = n['kind']
        if k == 'CompoundStmt':
            self.put('{'); self.ind += 1
            for s in n.get('inner', []): self.stmt(s)
            self.ind -= 1; self.put('}'); return
        if k == 'NullStmt': return
        if k == 'DeclStmt':
            for d in n['inner']: self.decl(d)
            return
        if k == 'IfStmt': return self.if_stmt(n)
        if k == 'WhileStmt': return self.while_stmt(n)
        if k == 'DoStmt': return self.do_stmt(n)
        if k == 'ForStmt': return self.for_stmt(n)
        if k == 'CXXForRangeStmt': return self.range_for(n)
        if k == 'ReturnStmt': return self.ret(n)
        if k == 'BreakStmt':
            self.put('break;'); return
        if k == 'ContinueStmt':
            self.loops[-1].cont(); return
        return self.expr_stmt(n)
    def if_stmt(self, n):
        inner = n['inner']
        if n.get('hasInit') or n.get('hasVar'): self.bad(n)
        c = self.boolval(inner[0])
        self.put('if %s {' % c); self.ind += 1
        self.body(inner[1])
        self.ind -= 1
        if len(inner) > 2:
            self.put('} else {'); self.ind += 1; self.body(inner[2]); self.ind -= 1
        self.put('}')
    def loop_head(self, head, k):
        self.at('loop %d before' % k)
        self.put(head)
        lc = self.con.loops.get(k) if self.con else None
        if lc:
            self.used_loops.add(k)
            self.ind += 1
            prev = None
            drop = getattr(self.con, 'drops', ())
            for j, (kw, name, txt) in enumerate(lc):
                for i, cl in enumerate(clauses(self.subst(k, txt))):
                    if ('inv', k, j, i) in drop: continue
                    if kw != prev: self.put(kw, ('kw',))
                    prev = kw
                    for l in (cl + ',').split('\n'):
                        if l.strip(): self.put('    ' + l.strip(), (kw, name, k, (j, i)))
            self.ind -= 1
        self.put('{')
    def capture(self, f):
        s = self.lines; self.lines = []; self.ind += 1
        v = f(); l = self.lines; self.lines = s; self.ind -= 1
        return l, v
    def gen_loop(self, n, cond, body, inc, k=None):
        if k is None: k = self.loop_n; self.loop_n += 1; self.kinds += 'f' if inc is not None else 'w'
        pre, c = self.capture(lambda: self.boolval(cond)) if cond is not None else ([], 'true')
        simple = not pre and cond is not None
        self.loop_head('while %s' % c if simple else 'loop', k)
        self.ind += 1
        if not simple:
            self.lines += pre
            if cond is not None: self.put('if !(%s) { break; }' % c)
        self.at('loop %d begin' % k)
        def cont():
            self.at('loop %d end' % k)
            if inc is not None: inc()
            self.put('continue;')
        self.loops.append(Loop(cont))
        body()
        self.loops.pop()
        self.at('loop %d end' % k)
        if inc is not None: inc()
        self.ind -= 1
        self.put('}')
        self.at('loop %d after' % k)
    def while_stmt(self, n):
        self.gen_loop(n, n['inner'][0], lambda: self.body(n['inner'][1]), None)
    def for_stmt(self, n):
        init, var, cond, inc, body = n['inner']
        self.put('{'); self.ind += 1
        if init: self.stmt(init)
        if var: self.bad(n)
        self.index_loop(init, cond)
        self.gen_loop(n, cond if cond else None, lambda: self.body(body), (lambda: self.expr_stmt(inc)) if inc else None)
        self.ind -= 1; self.put('}')
    def index_loop(self, init, cond):
        k = self.loop_n
        kinds = self.gen.canon.get(self.con.rust + '#kinds', '') if self.con else ''
        if k >= len(kinds) or kinds[k] != 'r' or not init or init['kind'] != 'DeclStmt' or not cond: return
        v = self.vars.get(init['inner'][0].get('id'))
        c = self.skip(cond)
        if not v or v[0] != 'local' or c['kind'] != 'BinaryOperator': return
        r = []
        def w(n):
            if n['kind'] == 'CXXMemberCallExpr':
                m = self.skip(n['inner'][0])
                if m['kind'] == 'MemberExpr' and m['name'] in ('size', 'length'):
                    t = vt(m['inner'][0]); t = t[1] if t[0] == 'ptr' else t
                    if t[0] in ('vec', 'str'): r.append(place_ref(self.obj_place(m)))
            for x in n.get('inner', []):
                if isinstance(x, dict) and x.get('kind'): w(x)
        w(c)
        self.rangevars[k] = [('i__%d' % k, v[1])] + ([('rng__%d' % k, r[0])] if len(r) == 1 else [])
    def do_stmt(self, n):
        body, cond = n['inner']
        k = self.loop_n; self.loop_n += 1; self.kinds += 'd'
        self.loop_head('loop', k)
        self.ind += 1
        self.at('loop %d begin' % k)
        def tail():
            c = self.boolval(cond)
            self.at('loop %d end' % k)
            self.put('if !(%s) { break; }' % c)
        def cont():
            tail(); self.put('continue;')
        self.loops.append(Loop(cont))
        self.body(body)
        self.loops.pop()
        tail()
        self.ind -= 1; self.put('}')
        self.at('loop %d after' % k)
    def range_for(self, n):
        ds = [c for c in n['inner'] if c]
        decls = [c for c in ds if c['kind'] == 'DeclStmt']
        rng = next(d['inner'][0] for d in decls if d['inner'][0]['name'].startswith('__range'))
        var = decls[-1]['inner'][0]
        body = ds[-1]
        rex = rng['inner'][0]
        rt = vt(rex)
        vtp = cty.of(var)
        k = self.loop_n; self.loop_n += 1; self.kinds += 'r'
        self.put('{'); self.ind += 1
        live = None
        if self.is_lvalue(rex) or self.skip_lv(rex)['kind'] == 'CXXMemberCallExpr' and of_ref(self, rex):
            p = self.lv(rex) if self.is_lvalue(rex) else None
            live = p
            val = place_val(p) if p else self.val(rex)
        else: val = self.val(rex)
        nonconst_ref = vtp[0] == 'ref' and not vtp[2] and self.is_lvalue(rex) and self.mutates(body, var['id'])
        r = 'rng__%d' % k; i = 'i__%d' % k
        if rt[0] in ('vec', 'str'): et = rt[1] if rt[0] == 'vec' else cty.CHAR; self.put('let %s: %s = %s;' % (r, rust(rt), val))
        elif rt[0] == 'map': et = ('pair', rt[1], rt[2]); self.put('let %s: Seq<P2<%s, %s>> = m_pairs(&%s);' % (r, rust(rt[1]), rust(rt[2]), val))
        elif rt[0] == 'set': et = rt[1]; self.put('let %s: Seq<%s> = s_elems(&%s);' % (r, rust(rt[1]), val))
        elif rt == cty.JSON:
            et = cty.JSON; self.put('let %s: Seq<Json> = j_items(&%s);' % (r, val))
            root = self.root_var(rex)
            if root is None or self.mutates(body, root) or nonconst_ref: self.bad(n, 'json range')
        else: self.bad(n, 'range of %r' % (rt,))
        self.put('let mut %s: u64 = 0u64;' % i)
        if nonconst_ref and rt[0] != 'vec': self.bad(n, 'mutating range loop')
        lenx = 'v_len(&%s)' % r
        self.loop_head('while %s < %s' % (i, lenx), k)
        self.ind += 1
        if live is not None and not nonconst_ref and not any(s[0] != 'f' for s in live.steps):
            if rt[0] in ('vec', 'str') and vtp[0] == 'ref' or rt[0] in ('map', 'set'):
                self.unmodified(place_ref(live), val, r, rt, k)
        elem = None
        if rt == cty.JSON and cty.strip(vtp) != cty.JSON: elem = self.from_json('v_at(&%s, %s)' % (r, i), cty.strip(vtp), n); et = cty.strip(vtp)
        nm = self.newlocal(var['name'], et)
        if nonconst_ref:
            self.vars[var['id']] = ('alias', live.idx(i, et))
        elif elem:
            self.put('let mut %s: %s = %s;' % (nm, rust(et), elem))
            self.vars[var['id']] = ('local', nm, et)
        else:
            self.put('let mut %s: %s = v_at(&%s, %s);' % (nm, rust(et), r, i))
            self.vars[var['id']] = ('local', nm, et)
        self.at('loop %d begin' % k)
        def inc(): self.put('%s = %s + 1u64;' % (i, i))
        def cont():
            self.at('loop %d end' % k); inc(); self.put('continue;')
        self.loops.append(Loop(cont))
        self.body(body)
        self.loops.pop()
        self.at('loop %d end' % k)
        inc()
        self.ind -= 1; self.put('}')
        self.at('loop %d after' % k)
        self.ind -= 1; self.put('}')
    def unmodified(self, live, val, r, rt, k):
        """the range expression designates a live container: it must not change while it is iterated"""
        if rt[0] in ('vec', 'str'):
            self.put('assert(%s =~= %s);' % (r, live), ('ob', 'container not modified while iterated (loop %d)' % k))
    def root_var(self, n):
        n = self.skip_lv(n)
        if n['kind'] == 'DeclRefExpr': return n['referencedDecl']['id']
        if n['kind'] in ('MemberExpr',): return self.root_var(n['inner'][0])
        if n['kind'] == 'CXXOperatorCallExpr' and len(n['inner']) > 1: return self.root_var(n['inner'][1])
        return None
    def mutates(self, body, vid):
        """is the loop variable (a non-const reference) written in the body?"""
        def root(n):
            n = self.skip_lv(n)
            if n['kind'] == 'DeclRefExpr': return n['referencedDecl']['id']
            if n['kind'] in ('MemberExpr',): return root(n['inner'][0])
            if n['kind'] == 'CXXOperatorCallExpr' and len(n['inner']) > 1: return root(n['inner'][1])
            if n['kind'] == 'CXXMemberCallExpr': return root(self.skip(n['inner'][0])['inner'][0])
            return None
        def w(n):
            if not isinstance(n, dict): return False
            k = n.get('kind')
            if k == 'BinaryOperator' and n['opcode'] == '=' or k == 'CompoundAssignOperator' or k == 'UnaryOperator' and n['opcode'] in ('++', '--', '&'):
                if root(n['inner'][0]) == vid: return True
            if k == 'CXXOperatorCallExpr' and self.opname(n) in ('operator=', 'operator+=') and root(n['inner'][1]) == vid: return True
            if k == 'CXXMemberCallExpr':
                m = self.skip(n['inner'][0])
                if m['kind'] == 'MemberExpr' and m['name'] in ('push_back', 'emplace_back', 'insert', 'erase', 'clear', 'pop_back', 'resize', 'assign', 'emplace', 'swap', 'append') and root(m['inner'][0]) == vid: return True
            return any(w(c) for c in n.get('inner', []))
        return w(body)

    def decl(self, d):
        if d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'EmptyDecl'): return
        if d['kind'] != 'VarDecl': self.bad(d)
        if d.get('storageClass') == 'static': self.bad(d, 'static local')
        lam = self.lambda_init(d)
        if lam is not None: return self.lambda_decl(d, lam)
        t = cty.of(d)
        if t == ('gamma',): self.gdepth[d['id']] = len(self.loops)
        init = next((c for c in d.get('inner', []) if c and c['kind'] not in ('FullComment',)), None)
        m = re.match(r'(.*)\[(\d+)\]$', d['type'].get('qualType', ''))
        if m:
            t = ('vec', cty.parse(m.group(1)))
            nm = self.newlocal(d['name'], t)
            if init is None or init['kind'] != 'InitListExpr' or len(init['inner']) != int(m.group(2)): self.bad(d, 'array')
            self.put('let mut %s: %s = %s;' % (nm, rust(t), self.initlist(init)))
            self.vars[d['id']] = ('local', nm, t); self.at('decl %s' % nm); return
        if t[0] == 'ref':
            if init is None: self.bad(d)
            tt = t[1]
            if tt[0] in ('vit', 'mit', 'sit'): t = tt
            elif self.is_lvalue(init) and not t[2]:
                p = self.lv(init)
                if p.heap: self.bad(d, 'reference into the heap')
                self.vars[d['id']] = ('alias', p); return
            else:
                nm = self.newlocal(d['name'], tt)
                self.put('let mut %s: %s = %s;' % (nm, rust(tt), self.val(init)))
                self.vars[d['id']] = ('local', nm, tt); self.at('decl %s' % nm); return
        if t[0] == 'vit':
            p, pos = self.vit(init)
            nm = self.newlocal(d['name'], t)
            self.put('let mut %s: i64 = %s;' % (nm, pos))
            self.vars[d['id']] = ('vit', p, nm); return
        if t[0] in ('mit', 'sit'):
            it = self.mit(init)
            if it[0] == 'mitend': self.bad(d)
            nm = cid(d['name'])
            while nm in self.names: nm += '_'
            self.names.add(nm)
            self.put('let mut %s = %s;' % (nm, it[2])); self.vars[d['id']] = ('mit', it[1], nm); return
        if t[0] == 'pair' and t[2] == cty.BOOL and t[1][0] in ('mit', 'sit'):
            self.bad(d, 'insertion result')
        if t[0] == 'ptr':
            if init is not None and self.is_null(init): self.vars[d['id']] = ('ptrnull', t[1]); return
            s = self.skip(init) if init else None
            if s and s['kind'] == 'DeclRefExpr' and s['referencedDecl']['id'] in self.vars: self.vars[d['id']] = self.vars[s['referencedDecl']['id']]; return
            if init: self.vars[d['id']] = ('ptralias', self.deref(init)); return
            self.bad(d)
        nm0 = d['name']
        if init is None or (t[0] not in SC and init['kind'] == 'CXXConstructExpr' and not self.args_of(init)):
            if t[0] == 'cls': v = self.ctor(t[1], [], d)
            elif scalar(t): v = 'undef_%s()' % rust(t)
            else: v = self.default(t)
        else: v = self.val(init)
        nm = self.newlocal(nm0, t)
        self.put('let mut %s: %s = %s;' % (nm, rust(t), v))
        self.vars[d['id']] = ('local', nm, t)
        self.at('decl %s' % nm)

    def lambda_init(self, d):
        n = next((c for c in d.get('inner', []) if c and c['kind'] != 'FullComment'), None)
        while n is not None and n['kind'] in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ImplicitCastExpr') or n is not None and n['kind'] == 'CXXConstructExpr' and n.get('elidable'):
            n = next((c for c in n.get('inner', []) if c), None)
        return n if n is not None and n['kind'] == 'LambdaExpr' else None
    def lambda_decl(self, d, lam):
        """a local lambda: its body is inlined at the calls; by-copy captures are snapshots"""
        rec = lam['inner'][0]
        m = [c for c in rec['inner'] if c.get('kind') == 'CXXMethodDecl' and c['name'] == 'operator()']
        if len(m) != 1: self.bad(lam, 'generic lambda')
        if m[0].get('mutable') or not re.search(r'\)\s*const', m[0]['type']['qualType']): self.bad(lam, 'mutable lambda')
        fields = [c for c in rec['inner'] if c.get('kind') == 'FieldDecl']
        inits = [c for c in lam['inner'][1:] if c and c['kind'] != 'CompoundStmt']
        if len(fields) != len(inits): self.bad(lam, 'captures')
        over = {}
        for fl, i in zip(fields, inits):
            s = self.skip(i)
            if s['kind'] == 'CXXConstructExpr' and self.args_of(s): s = self.skip(self.args_of(s)[0])
            if s['kind'] == 'CXXThisExpr': continue
            if s['kind'] != 'DeclRefExpr': self.bad(lam, 'capture')
            if fl['type']['qualType'].rstrip().endswith('&'): continue
            i0 = s['referencedDecl']['id']; v = self.vars.get(i0)
            if v is None or v[0] not in ('local', 'alias', 'ptrmut', 'ptropt', 'ptralias', 'ptrnull'): self.bad(lam, 'capture of ' + s['referencedDecl'].get('name', ''))
            if v[0] in ('local', 'alias'):
                pl = self.var_place(s); t = self.fresh('cap'); self.put('let %s: %s = %s;' % (t, rust(pl.ty), place_val(pl)))
                over[i0] = ('local', t, pl.ty)
        self.vars[d['id']] = ('lambda', m[0], over)
    def call_lambda(self, v, args, n):
        m = m0 = v[1]
        f = cxxast.Fn(None, m)
        f.name = 'lambda'
        if f.body is None: self.bad(n, 'lambda without a body')
        saved = {k: self.vars.get(k) for k in v[2]}
        self.vars.update(v[2])
        obj = self.inline_stack[-1]['this'] if self.inline_stack else (self.this_place() if self.fn.cls else None)
        try: return self.inline(f, obj, args, n)
        finally: self.vars.update(saved)

    def ret(self, n):
        if self.inline_stack: self.bad(n, 'return')
        inner = n.get('inner')
        rt = self.fn_ret(self.fn)
        if self.fn.kind == 'CXXConstructorDecl': self.bad(n)
        if rt == cty.VOID or not inner:
            self.at('ret'); self.put('return;'); return
        x = inner[0]
        v = self.val(x)
        if self.con and 'ret' in self.con.at:
            self.put(';{'); self.ind += 1
            self.put('let ret__: %s = %s;' % (rust(rt), v)); self.at('ret'); self.put('return ret__;')
            self.ind -= 1; self.put('}')
        else: self.put('return %s;' % v)

    def expr_stmt(self, n):
        """expression evaluated for its effect"""
        k = n['kind']
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr'): return self.expr_stmt(n['inner'][0])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr') and n['castKind'] in ('ToVoid', 'NoOp', 'LValueToRValue'): return self.expr_stmt(n['inner'][0])
        if '_line' in n and not self.inline_stack: self.line = n['_line'] or self.line
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            x = n['inner'][0]; t = vt(x)
            p = self.lv(x); op = '+' if n['opcode'] == '++' else '-'
            if t == cty.F64: self.bad(n)
            one = '1' + rust(t)
            self.assign(p, self.arith(op, place_val(p), one, t, t, n)); return
        if k == 'BinaryOperator' and n['opcode'] == '=':
            a, b = n['inner']
            s = self.skip_lv(a)
            if vt(a)[0] == 'ptr': self.bad(n, 'pointer assignment')
            v = self.val(b)
            if not scalar(vt(a)): v = self.atom(v)
            elif v and self.lhs_effects(a): v = self.atom(v, vt(a))
            p = self.lv(a)
            self.assign(p, v); return
        if k == 'BinaryOperator' and n['opcode'] == ',':
            self.expr_stmt(n['inner'][0]); self.expr_stmt(n['inner'][1]); return
        if k == 'CompoundAssignOperator':
            a, b = n['inner']
            op = n['opcode'][:-1]
            tl = cty.parse(n['computeLHSType']['qualType'] if 'desugaredQualType' not in n['computeLHSType'] else n['computeLHSType']['desugaredQualType'])
            y = self.val(b)
            p = self.lv(a); t = vt(a)
            x = place_val(p)
            if t != tl:
                if tl == cty.F64: x = 'f_of_%s(%s)' % (rust(t), x)
                else: x = self.icast(x, t, tl, n)
            v = self.arith(op, x, y, tl, tl, n, vt(b))
            if t != tl:
                if tl == cty.F64: v = 'f_to_%s(%s)' % (rust(t), v)
                else: v = self.icast(v, tl, t, n)
            self.assign(p, v); return
        if k == 'CXXOperatorCallExpr':
            op = self.opname(n); a = n['inner'][1:]
            ts = [vt(x) for x in a]
            if op == 'operator=':
                s = self.skip_lv(a[0])
                if s['kind'] == 'DeclRefExpr':
                    v = self.vars.get(s['referencedDecl']['id'])
                    if v and v[0] == 'vit':
                        p, pos = self.vit(a[1]); self.same(p, v[1], n); self.put('%s = %s;' % (v[2], pos)); return
                    if v and v[0] == 'mit':
                        it = self.mit(a[1]); self.same(it[1], v[1], n)
                        if it[0] == 'mitend': self.bad(n)
                        self.put('%s = %s;' % (v[2], it[2])); return
                if self.is_null(a[1]): v = '0u64'
                elif ts[0] == cty.STR and ts[1] == cty.CHAR: v = self.tostr(a[1])
                else: v = self.val(a[1])
                v = self.atom(v)
                p = self.lv(a[0])
                self.assign(p, v); return
            if op in ('operator++', 'operator--') and ts[0][0] == 'vit':
                c, pos = self.vit(a[0])
                if not re.fullmatch(r'\w+', pos): self.bad(n)
                self.put('%s = %s %s 1i64;' % (pos, pos, '+' if op == 'operator++' else '-')); return
            if op in ('operator+=', 'operator-=') and ts[0][0] == 'vit':
                c, pos = self.vit(a[0])
                self.put('%s = %s %s %s;' % (pos, pos, op[8], self.val(a[1]))); return
            if op == 'operator+=' and ts[0] == cty.STR:
                y = self.tostr(a[1]); p = self.lv(a[0])
                if ts[1] == cty.CHAR: self.mut(p, 'v_push(&%s, %s)' % (place_ref(p), self.val(a[1])))
                else: self.mut(p, 'v_cat(&%s, &%s)' % (place_ref(p), y))
                return
            if op == 'operator<<': return self.stream_out(n)
            self.val(n); return
        if k == 'CXXThrowExpr':
            self.put('v_throw();'); return
        if k == 'CXXMemberCallExpr':
            m = self.skip(n['inner'][0])
            if m.get('name') == 'close': return
        v = self.val(n)
        if v and v != '()' and '(' in v: self.put('let _ = %s;' % v)
    def lhs_effects(self, a):
        s, l = self.lines, list(self.lines)
        t = self.tmp; self.lines = []; cs, ua, ul, ln, lc = dict(self.calls), set(self.used_at), set(self.used_loops), self.loop_n, list(self.locals)
        try: self.lv(a); r = bool(self.lines)
        finally: self.lines = l; self.tmp = t; self.calls, self.used_at, self.used_loops, self.loop_n, self.locals = cs, ua, ul, ln, lc
        return r
    def stream_out(self, n):
        parts = []
        x = n
        while True:
            x = self.skip(x)
            if x['kind'] == 'CXXOperatorCallExpr' and self.opname(x) == 'operator<<':
                parts.insert(0, x['inner'][2]); x = x['inner'][1]
            else: break
        root = x
        if root['kind'] == 'DeclRefExpr' and root['referencedDecl'].get('name') in ('cout', 'cerr', 'clog'):
            self.gen.note_dropped(self.fn, 'output to std::cout'); return
        while root['kind'] == 'ImplicitCastExpr' and root['castKind'] in ('DerivedToBase', 'UncheckedDerivedToBase', 'NoOp'): root = self.skip_lv(root['inner'][0])
        if vt(root) == cty.OFS:
            p = self.lv(root)
            for a in parts:
                s = self.skip(a)
                while s['kind'] == 'CXXConstructExpr' and len(s.get('inner', [])) == 1: s = self.skip(s['inner'][0])
                if s['kind'] == 'CallExpr' and self.callee(s) == 'setw': continue            # layout of the text only
                if s['kind'] == 'DeclRefExpr' and s['referencedDecl'].get('name') in ('endl', 'flush'): continue
                if vt(a) != cty.JSON: self.bad(n, 'written to a file')
                self.put('f_write(h, &%s, %s);' % (place_ref(p), self.refarg(a)))
            return
        p = self.lv(root)
        for a in parts:
            s = self.skip(a)
            t = vt(a)
            if s['kind'] == 'StringLiteral' or t == cty.STR: v = self.val(a)
            elif t == cty.CHAR: v = self.tostr(a)
            elif t == cty.INT: v = 'dec_i32(%s)' % self.val(a)
            elif t[0] == 'ptr' and s['kind'] == 'StringLiteral': v = self.val(s)
            elif t == ('vec', cty.INT): self.bad(n, 'nested stream')
            else: self.bad(n, 'stream of %r' % (t,))
            self.assign(p, 'v_cat(&%s, &%s)' % (place_ref(p), v))

SC = cty.SCALAR
def of_ref(tr, n): return False
