"""Integers the checked sources mention: a change that behaves differently from some size on names that size."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STORE = os.path.join(HERE, 'contracts', 'lits.json')

def mine(repo):
    root = os.path.join(repo, 'core', 'src', 'main', 'cpp'); out = set()
    for d, _, fs in sorted(os.walk(root)):
        for f in fs:
            if not f.endswith(('.cc', '.h', '.cpp', '.hpp')) or f == 'json.h': continue
            t = open(os.path.join(d, f), errors='replace').read()
            t = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"', ' ', t, flags=re.S)
            for a, b in re.findall(r'\b(\d+)[uUlL]*\s*<<\s*(\d+)\b', t):
                if int(b) < 40: out.add(int(a) << int(b))
            for c in re.findall(r"'(\\?[^'\n]|\\x[0-9a-fA-F]+)'", t):
                if len(c) == 1: out.add(ord(c))
            for m in re.findall(r"(?<![\w.])(0[xX][0-9a-fA-F']+|\d[\d']*(?:\.\d*)?(?:[eE][+-]?\d+)?)", t):
                m = m.replace("'", '')
                try: v = int(m, 16) if m[:2] in ('0x', '0X') else int(m, 8) if re.fullmatch(r'0[0-7]+', m) else float(m)
                except ValueError: continue
                if v == int(v) and 0 <= v < 2 ** 40: out.add(int(v))
    return sorted(out)

def fresh(repo, most=30):
    """Those the unchanged sources do not mention."""
    try: known = set(json.load(open(STORE)))
    except (OSError, ValueError): return []
    return [x for x in mine(repo) if x not in known and x > 1][:most]
