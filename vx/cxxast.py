"""Reads clang's JSON AST of the current /repo sources and indexes functions and classes."""
import json, os, re, subprocess, tempfile

class Unsupported(Exception):
    pass

def _docs(text):
    d = json.JSONDecoder(); i = 0
    rx = re.compile(r'^\{', re.M)
    while True:
        m = rx.search(text, i)
        if not m: return
        o, i = d.raw_decode(text, m.start())
        yield o

class _Loc:
    """clang prints file/line only when they change: replay that."""
    def __init__(self): self.file = ''; self.line = 0
    def feed(self, l):
        if not isinstance(l, dict): return
        if 'spellingLoc' in l or 'expansionLoc' in l:
            for k in l:
                if k in ('spellingLoc', 'expansionLoc'): self.feed(l[k])
            return
        if 'file' in l: self.file = l['file']
        if 'line' in l: self.line = l['line']

def _annotate(n, st):
    if not isinstance(n, dict): return
    if 'loc' in n: st.feed(n['loc'])
    if 'range' in n:
        st.feed(n['range'].get('begin')); n['_file'], n['_line'] = st.file, st.line
        st.feed(n['range'].get('end'))
    for k in n:
        if k in ('loc', 'range', 'id', 'kind', 'type'): continue
        v = n[k]
        if isinstance(v, dict) and ('kind' in v or 'loc' in v): _annotate(v, st)
        elif isinstance(v, list):
            for c in v: _annotate(c, st)

_n = 0
def dump(tu_text, filt, incs):
    with tempfile.TemporaryDirectory(prefix='vx') as d:
        tu = os.path.join(d, 'unity.cc'); open(tu, 'w').write(tu_text)
        out = os.path.join(d, 'ast.json')
        with open(out, 'w') as f:
            r = subprocess.run(['clang++', '-std=c++14', '-w', '-fsyntax-only', '-include', 'cstdint', '-include', 'iostream',
                                '-include', 'limits', '-include', 'algorithm'] + incs +
                               ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, tu],
                               stdout=f, stderr=subprocess.PIPE, text=True)
        if r.returncode: raise Unsupported('clang cannot parse the sources: ' + r.stderr[:2000])
        docs = list(_docs(open(out).read()))
    st = _Loc()
    for o in docs: _annotate(o, st)
    return docs

FUNK = ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl')

class Fn:
    def __init__(self, cls, node):
        self.cls, self.node, self.name = cls, node, node['name']
        self.params = [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        self.body = next((c for c in node.get('inner', []) if c.get('kind') == 'CompoundStmt'), None)
        self.inits = [c for c in node.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
        self.kind = node['kind']
        self.type = node['type']['qualType']
        self.const = bool(re.search(r'\)\s*const', self.type))
        self.virtual = node.get('virtual', False)

class Program:
    def __init__(self):
        self.classes = {}       # name -> record node
        self.bases = {}
        self.fns = []           # functions with a body
        self.subs = {}
        self.decls = []         # declarations without a body
        self.seen = set()
    def load(self, tu, filt, incs):
        ids = {}
        docs = dump(tu, filt, incs)
        def reg(n, ctx):
            if not isinstance(n, dict): return
            k = n.get('kind')
            if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                ids[n['id']] = n['name'] if 'name' in n else ctx
                if n.get('completeDefinition') and 'name' in n:
                    self.classes[n['name']] = n
                    self.bases[n['name']] = [b['type']['qualType'].split('::')[-1] for b in n.get('bases', [])]
                ctx = n.get('name', ctx)
            if k in ('CXXRecordDecl', 'NamespaceDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplateDecl', 'LinkageSpecDecl'):
                for c in n.get('inner', []):
                    if k == 'ClassTemplateDecl' and c.get('kind') == 'CXXRecordDecl': continue
                    reg(c, ctx)
            if k in FUNK:
                fns.append((ctx, n))
        fns = []
        for o in docs: reg(o, None)
        for ctx, n in fns:
            cls = ids.get(n.get('parentDeclContextId'), ctx)
            if n.get('isImplicit') and not (n['kind'] == 'CXXConstructorDecl' and not any(c.get('kind') == 'ParmVarDecl' for c in n.get('inner', [])) and any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', []))): continue
            f = Fn(cls if n['kind'] != 'FunctionDecl' else None, n)
            key = (f.cls, f.name, f.type, f.body is not None)
            if key in self.seen: continue
            self.seen.add(key)
            (self.fns if f.body is not None else self.decls).append(f)
    def impl_of(self, cls):
        """The only most-derived implementation of an abstract class."""
        subs = [c for c, b in self.bases.items() if cls in b]
        return subs
