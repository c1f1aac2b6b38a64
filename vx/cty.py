import re
from cxxast import Unsupported
INT, U64, I64, BOOL, F64, CHAR, VOID, STR, U32 = ('int',), ('u64',), ('i64',), ('bool',), ('f64',), ('char',), ('void',), ('str',), ('u32',)
_s = {'int': INT, 'unsigned long': U64, 'size_t': U64, 'size_type': U64, 'unsigned long long': U64, 'long': I64, 'int64_t': I64,
      'ptrdiff_t': I64, 'difference_type': I64, 'long long': I64, 'bool': BOOL, 'double': F64, 'char': CHAR, 'void': VOID, 'string': STR,
      'unsigned int': U32, 'IntSeq': ('vec', INT), 'basic_string': STR, 'ostream': STR, 'basic_ostream': STR, 'uint64_t': U64}
JSON, OFS, IFS = ('json',), ('ofs',), ('ifs',)
_s.update({'json': JSON, 'ofstream': OFS, 'ifstream': IFS})
ENGINES = ('linear_congruential_engine', 'mersenne_twister_engine', 'subtract_with_carry_engine', 'default_random_engine', 'minstd_rand', 'minstd_rand0', 'mt19937', 'mt19937_64')
def _tok(s):
    return re.findall(r'[A-Za-z_][A-Za-z_0-9]*|::|[<>,*&()\[\]]|\d+|\.\.\.', s)
class _P:
    def __init__(self, s): self.t = _tok(s); self.i = 0; self.s = s
    def pk(self): return self.t[self.i] if self.i < len(self.t) else None
    def nx(self): self.i += 1; return self.t[self.i-1]
    def ty(self):
        const = False; name = []; args = None
        while self.pk() and self.pk() not in ('>', ',', ')', '('):
            x = self.nx()
            if x == 'const': const = True
            elif x in ('typename', 'volatile', 'class', 'struct'): pass
            elif x == '::':
                pass
            elif x == '<':
                a = []
                while True:
                    if self.pk() == '>': self.nx(); break
                    a.append(self.ty())
                    if self.pk() == ',': self.nx()
                    elif self.pk() == '(': raise Unsupported('function type ' + self.s)
                args = a
                if self.pk() == '::':   # vector<..>::size_type
                    self.nx(); n = self.nx()
                    if n in _s: name = [n]; args = None
                    elif n in ('value_type', 'key_type', 'mapped_type', 'reference', 'const_reference', 'element_type'):
                        base = name[-1]
                        r = a[1] if n == 'mapped_type' else (('pair', a[0], a[1]) if 'map' in base and n != 'key_type' else a[0])
                        return self._suffix(('done', r), const)
                    else: name = [name[-1] + '::' + n]
            elif x in ('*', '&'):
                self.i -= 1; break
            elif x.isdigit(): name.append(x)
            else:
                if name and self.i >= 2 and self.t[self.i-2] == '::': name = [x]
                elif name and name[-1] in ('unsigned', 'long'): name.append(x)
                else: name.append(x)
        n = ' '.join(name)
        return self._suffix(('raw', n, args), const)
    def _suffix(self, raw, const):
        if raw[0] == 'done': t = raw[1]
        else: t = self.mk(raw[1], raw[2])
        while self.pk() in ('*', '&', 'const'):
            x = self.nx()
            if x == '*': t = ('ptr', t, const); const = False
            elif x == '&': t = ('ref', t, const)
        return t
    def mk(self, n, a):
        if n in _s: return _s[n]
        if a is not None:
            if n == 'vector': return ('vec', a[0])
            if n in ('unordered_map', 'map'): return ('map', a[0], a[1])
            if n in ('unordered_set', 'set'): return ('set', a[0])
            if n == 'pair': return ('pair', a[0], a[1])
            if n in ('shared_ptr', '__shared_ptr', '__shared_ptr_access'): return ('shared', a[0])
            if n == '__normal_iterator': return ('vit', a[0][1] if a[0][0] == 'ptr' else CHAR)
            if n in ('_Node_iterator', '_Node_const_iterator', '_Node_iterator_base'):
                return ('mit', a[0][1], a[0][2]) if a[0][0] == 'pair' else ('sit', a[0])
            if n in ENGINES: return ('rng',)
            if n == 'gamma_distribution': return ('gamma',)
            if n == 'initializer_list': return ('vec', a[0])
            if n == 'allocator': return ('alloc',)
            if n == 'basic_json': return JSON
            if n == 'basic_ofstream': return OFS
            if n == 'basic_ifstream': return IFS
            return ('cls', n)
        if n in ENGINES: return ('rng',)
        return ('cls', n)
def parse(s):
    s = s.replace('[abi:cxx11]', '')
    p = _P(s); t = p.ty()
    return t
def strip(t):
    while t[0] in ('ref',): t = t[1]
    return t
def of(node):
    t = node.get('type', {})
    q = t.get('desugaredQualType', t.get('qualType'))
    if q is not None and node.get('kind') in ('CXXOperatorCallExpr', 'UnaryOperator') and 'element_type' in q:
        # smart pointer's operator-> / operator*: the pointee of the object it is applied to
        o = strip(of(node['inner'][1]))
        if o[0] == 'shared': return ('ptr', o[1], False) if '*' in q else ('ref', o[1], False)
    if q is None: raise Unsupported('no type on ' + node.get('kind', '?'))
    try: r = parse(q)
    except Unsupported: raise
    except Exception as e: raise Unsupported('type ' + q)
    return r
def vt(node): return strip(of(node))
def rust(t):
    k = t[0]
    if k == 'int': return 'i32'
    if k == 'u64': return 'u64'
    if k == 'u32': return 'u32'
    if k == 'i64': return 'i64'
    if k == 'bool': return 'bool'
    if k == 'f64': return 'F64'
    if k == 'char': return 'i8'
    if k == 'str': return 'Seq<i8>'
    if k == 'vec': return 'Seq<%s>' % rust(t[1])
    if k == 'pair': return 'P2<%s, %s>' % (rust(t[1]), rust(t[2]))
    if k == 'map': return 'Map<%s, %s>' % (rust(t[1]), rust(t[2]))
    if k == 'set': return 'Set<%s>' % rust(t[1])
    if k == 'shared': return 'u64'
    if k == 'ptr': return 'u64'
    if k == 'ref': return rust(t[1])
    if k == 'cls': return t[1]
    if k == 'vit': return 'i64'
    if k == 'void': return '()'
    if k == 'rng': return 'Rng'
    if k == 'gamma': return 'GammaDist'
    if k == 'json': return 'Json'
    if k in ('ofs', 'ifs'): return 'Seq<i8>'
    raise Unsupported('type %r' % (t,))
SCALAR = ('int', 'u64', 'i64', 'u32', 'bool', 'f64', 'char', 'shared', 'vit')
def scalar(t): return t[0] in SCALAR
