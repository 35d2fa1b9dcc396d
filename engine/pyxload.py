"""The Cython kernels as Python, mechanically, on every run.

Dropped: C types of parameters and locals (C int becomes mathematical integer, DTYPE_t becomes real), `nogil`, `inline`,
`not None`, `const`, the boundscheck/wraparound decorators (kernels are therefore checked for index ranges separately),
cimports and the fused-type declaration.  Kept: every statement and expression.  Casts <int>x / <DTYPE_t>x become calls."""
import ast, importlib.abc, re, sys
from . import rt, instrument


def join_lines(src):
    """logical lines: (indent, text)"""
    out, buf, depth = [], '', 0
    instr = None
    for raw in src.split('\n'):
        line = raw
        buf = buf + ('\n' if buf else '') + line
        # crude bracket/backslash/triple-quote tracking, enough for this dialect
        s = re.sub(r'#.*', '', buf) if '"""' not in buf else buf
        if buf.count('"""') % 2:
            continue
        if '"""' not in buf:
            d = sum(s.count(c) for c in '([{') - sum(s.count(c) for c in ')]}')
            if d > 0 or s.rstrip().endswith('\\'):
                continue
        out.append(buf)
        buf = ''
    if buf:
        out.append(buf)
    return out


CTYPE = r'(?:const\s+|unsigned\s+)*(?:int|long|float|double|bint|object|tuple|list|Py_ssize_t|size_t|char|DTYPE_t|np\.\w+|cython\.\w+)(?:\s*\[[^\]]*\])?'


def strip_param(p):
    p = p.strip()
    p = re.sub(r'\s+not\s+None\b', '', p)
    m = re.match(r'^%s\s+(\w+)(\s*=.*)?$' % CTYPE, p, re.S)
    if m:
        return m.group(1) + (m.group(2) or '')
    return p


def split_top(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            d += 1
        if ch in ')]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur); cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def casts(s):
    s = re.sub(r'<\s*int\s*>\s*\(', '__c_int__(', s)
    s = re.sub(r'<\s*int\s*>\s*([A-Za-z_]\w*(?:\[[^\]]*\])?)', r'__c_int__(\1)', s)
    s = re.sub(r'<\s*(?:DTYPE_t|double|float)\s*>\s*\(', '__c_real__(', s)
    s = re.sub(r'<\s*(?:DTYPE_t|double|float)\s*>\s*([A-Za-z_]\w*(?:\[[^\]]*\])?)', r'__c_real__(\1)', s)
    return s


def to_python(src):
    out = []
    skip_indent = None
    for l in join_lines(src):
        ind = re.match(r'\s*', l).group(0).replace('\n', '')
        t = l.strip()
        if skip_indent is not None:
            if t and len(ind) > skip_indent:
                continue
            if t:
                skip_indent = None
        if not t or t.startswith('#'):
            continue
        if re.match(r'(cimport\b|from\s+\S+\s+cimport\b|import cython)', t) or t.startswith('@cython.'):
            continue
        if t.startswith('ctypedef'):
            skip_indent = len(ind)
            continue
        if t.startswith('from __future__'):
            continue
        m = re.match(r'^(cdef|cpdef)\s+(?:inline\s+)?(?:%s\s+)?(\w+)\s*\((.*?)\)\s*((?:nogil|except[^:]*|noexcept)\s*)*:(.*)$' % CTYPE, t, re.S)
        if m:
            params = ', '.join(strip_param(p) for p in split_top(m.group(3)))
            out.append('%sdef %s(%s):%s' % (ind, m.group(2), params, ' ' + casts(m.group(5).strip()) if m.group(5).strip() else ''))
            continue
        m = re.match(r'^def\s+(\w+)\s*\((.*)\)\s*:(.*)$', t, re.S)
        if m:
            params = ', '.join(strip_param(p) for p in split_top(m.group(2)))
            out.append('%sdef %s(%s):%s' % (ind, m.group(1), params, m.group(3)))
            continue
        m = re.match(r'^cdef\s+%s\s+(.*)$' % CTYPE, t, re.S)
        if m:
            done = False
            for part in split_top(m.group(1)):
                if '=' in part:
                    n, e = part.split('=', 1)
                    out.append('%s%s = %s' % (ind, n.strip(), casts(e.strip()))); done = True
            if not done:
                out.append('%spass' % ind)
            continue
        if re.match(r'^cdef\b', t):
            raise SyntaxError('pyx construct not understood: ' + t)
        if re.match(r'^with\s+(nogil|gil)\s*:', t):
            out.append(ind + 'if True:')
            continue
        t = re.sub(r'\bnp\.(float32_t|float64_t)\b', r"'\1'", t)
        out.append(ind + casts(t))
    return '\n'.join(out) + '\n'


class PyxLoader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        src = to_python(open(self.path, encoding='utf-8').read())
        d = module.__dict__
        d['__rt__'] = rt
        d['__c_int__'] = rt.Int
        d['__c_real__'] = lambda x: x
        d['DTYPE_t'] = 'float64_t'
        d['FLT_MAX'] = rt.symreal('FLT_MAX')
        d['DBL_MAX'] = rt.symreal('DBL_MAX')
        d['__source__'] = src
        exec(compile(instrument.transform_source(src, self.path), self.path, 'exec'), d)
        instrument.shadow(module)
