"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang/opt emit for the driver TUs."""
import re

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ()
class IntTy(Ty):
    __slots__ = ('w',)
    def __init__(s, w): s.w = w
    def __repr__(s): return 'i%d' % s.w
class FpTy(Ty):
    __slots__ = ('k',)
    def __init__(s, k): s.k = k
    def __repr__(s): return s.k
class PtrTy(Ty):
    def __repr__(s): return 'ptr'
class VoidTy(Ty):
    def __repr__(s): return 'void'
class OtherTy(Ty):
    __slots__ = ('k',)
    def __init__(s, k): s.k = k
    def __repr__(s): return s.k
class ArrTy(Ty):
    __slots__ = ('n', 'el')
    def __init__(s, n, el): s.n, s.el = n, el
    def __repr__(s): return '[%d x %r]' % (s.n, s.el)
class VecTy(Ty):
    __slots__ = ('n', 'el')
    def __init__(s, n, el): s.n, s.el = n, el
    def __repr__(s): return '<%d x %r>' % (s.n, s.el)
class StructTy(Ty):
    __slots__ = ('els', 'packed', 'name')
    def __init__(s, els, packed=False, name=None): s.els, s.packed, s.name = els, packed, name
    def __repr__(s): return s.name or '{%s}' % ', '.join(map(repr, s.els))
class FnTy(Ty):
    def __init__(s, ret, args, va): s.ret, s.args, s.va = ret, args, va

PTR, VOID = PtrTy(), VoidTy()
_ints = {}
def I(w):
    if w not in _ints: _ints[w] = IntTy(w)
    return _ints[w]
FPS = {k: FpTy(k) for k in ('float', 'double', 'half', 'x86_fp80', 'fp128')}
FPSIZE = {'float': 4, 'double': 8, 'half': 2, 'x86_fp80': 16, 'fp128': 16}

class Named(Ty):
    __slots__ = ('name', 'mod')
    def __init__(s, name, mod): s.name, s.mod = name, mod
    def __repr__(s): return s.name

def res(t):
    while isinstance(t, Named):
        t = t.mod.types[t.name]
    return t

def align_of(t):
    t = res(t)
    if isinstance(t, IntTy):
        b = (t.w + 7) // 8
        a = 1
        while a < b: a *= 2
        return min(a, 16)
    if isinstance(t, FpTy): return FPSIZE[t.k]
    if isinstance(t, PtrTy): return 8
    if isinstance(t, ArrTy): return align_of(t.el)
    if isinstance(t, VecTy): return size_of(t)
    if isinstance(t, StructTy):
        if t.packed or not t.els: return 1
        return max(align_of(e) for e in t.els)
    raise NotImplementedError(repr(t))

def size_of(t):
    t = res(t)
    if isinstance(t, IntTy):
        b = (t.w + 7) // 8
        a = align_of(t)
        return (b + a - 1) // a * a
    if isinstance(t, FpTy): return FPSIZE[t.k]
    if isinstance(t, PtrTy): return 8
    if isinstance(t, ArrTy): return t.n * size_of(t.el)
    if isinstance(t, VecTy):
        el = res(t.el)
        bits = t.n * (el.w if isinstance(el, IntTy) else size_of(el) * 8)
        b = (bits + 7) // 8
        a = 1
        while a < b: a *= 2
        return a
    if isinstance(t, StructTy):
        return struct_layout(t)[1]
    raise NotImplementedError(repr(t))

_lay = {}
def struct_layout(t):
    k = id(t)
    if k in _lay: return _lay[k][0]
    off, offs = 0, []
    for e in t.els:
        a = 1 if t.packed else align_of(e)
        off = (off + a - 1) // a * a
        offs.append(off)
        off += size_of(e)
    a = 1 if (t.packed or not t.els) else max(align_of(e) for e in t.els)
    r = (offs, (off + a - 1) // a * a)
    _lay[k] = (r, t)
    return r

# ---------------------------------------------------------------- lexer
TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9\\]*))
 | (?P<attr>\#\d+)
 | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<hex>0x[HKLMR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+\.\d+(?:e[-+]?\d+)?|-?\d+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[-()\[\]{}<>,=*:|])
)''', re.X)

def lex(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s[i] == ';': break
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            raise SyntaxError('lex: ' + s[i:i+60])
        k = m.lastgroup
        v = m.group(k)
        if k in ('loc', 'glob') and v[1] == '"': v = v[0] + v[2:-1]
        out.append((k, v))
        i = m.end()
    return out

class P:
    def __init__(s, toks, mod): s.t, s.i, s.mod = toks, 0, mod
    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else ('eof', '')
    def pv(s): return s.peek()[1]
    def next(s):
        x = s.t[s.i]; s.i += 1; return x
    def acc(s, v):
        if s.i < len(s.t) and s.t[s.i][1] == v and s.t[s.i][0] != 'str':
            s.i += 1; return True
        return False
    def exp(s, v):
        if not s.acc(v): raise SyntaxError('expected %s got %r in %s' % (v, s.peek(), ' '.join(x[1] for x in s.t)[:300]))

    def type(s):
        k, v = s.next()
        if v == 'void': t = VOID
        elif v == 'ptr':
            t = PTR
            if s.pv() == 'addrspace':
                s.next(); s.exp('('); s.next(); s.exp(')')
        elif k == 'word' and re.fullmatch(r'i\d+', v): t = I(int(v[1:]))
        elif v in FPS: t = FPS[v]
        elif v in ('metadata', 'label', 'token', 'x86_mmx', 'opaque'): t = OtherTy(v)
        elif v == '[':
            n = int(s.next()[1]); s.exp('x'); el = s.type(); s.exp(']'); t = ArrTy(n, el)
        elif v == '<':
            if s.pv() == '{':
                s.next(); els = s.types('}'); s.exp('>'); t = StructTy(els, True)
            else:
                n = int(s.next()[1]); s.exp('x'); el = s.type(); s.exp('>'); t = VecTy(n, el)
        elif v == '{': t = StructTy(s.types('}'))
        elif k == 'loc': t = Named(v, s.mod)
        else: raise SyntaxError('type? %r in %s' % (v, ' '.join(x[1] for x in s.t)[:200]))
        while s.pv() == '(' and s.peek()[0] == 'p' and s.peek(1)[1] != '' and s._fnty_ahead():
            s.next()
            args, va = [], False
            while not s.acc(')'):
                if s.acc('...'): va = True
                else: args.append(s.type())
                s.acc(',')
            t = FnTy(t, args, va)
        return t
    def _fnty_ahead(s):
        return getattr(s, 'allow_fn', False)
    def types(s, end):
        els = []
        while not s.acc(end):
            els.append(s.type()); s.acc(',')
        return els

    # values: ('c', ty, const) | ('l', ty, name)
    def value(s, ty):
        k, v = s.next()
        if k == 'loc': return ('l', ty, v)
        return s.const(ty, k, v)
    def tyval(s):
        ty = s.type()
        s.attrs()
        return s.value(ty)
    def const(s, ty, k, v):
        if k == 'glob': return ('g', ty, v)
        rt = res(ty)
        if v in ('true', 'false'): return ('c', ty, 1 if v == 'true' else 0)
        if v == 'null': return ('null', ty, None)
        if v in ('undef', 'poison'): return ('undef', ty, None)
        if v in ('zeroinitializer', 'none'): return ('zero', ty, None)
        if k in ('num', 'hex'):
            if isinstance(rt, IntTy): return ('c', ty, int(v, 0))
            return ('fp', ty, v)
        if k == 'str':
            return ('agg', ty, [('c', I(8), b) for b in unesc(v[2:-1])])
        if v == '<':
            if s.acc('{'):
                els = []
                while not s.acc('}'):
                    els.append(s.tyval()); s.acc(',')
                s.exp('>')
                return ('agg', ty, els)
            els = []
            while not s.acc('>'):
                els.append(s.tyval()); s.acc(',')
            return ('agg', ty, els)
        if v in ('[', '{'):
            end = {'[': ']', '{': '}'}[v]
            els = []
            while not s.acc(end):
                els.append(s.tyval()); s.acc(',')
            return ('agg', ty, els)
        if v in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'add', 'sub', 'mul', 'trunc', 'icmp', 'select', 'addrspacecast', 'xor', 'shl', 'lshr', 'and', 'or'):
            return s.constexpr_(ty, v)
        if v == 'splat':
            s.exp('('); e = s.tyval(); s.exp(')')
            return ('agg', ty, [e] * rt.n)
        if v in ('blockaddress', 'dso_local_equivalent', 'no_cfi'):
            raise SyntaxError('const ' + v)
        raise SyntaxError('const? %s %r in %s' % (k, v, ' '.join(x[1] for x in s.t)[:200]))
    def constexpr_(s, ty, op):
        flags = set()
        while s.peek()[0] == 'word' and s.pv() in ('inbounds', 'nuw', 'nsw', 'inrange', 'exact'):
            flags.add(s.next()[1])
        s.exp('(')
        if op == 'getelementptr':
            bt = s.type(); s.exp(',')
            ops = []
            while not s.acc(')'):
                s.acc('inrange')
                ops.append(s.tyval()); s.acc(',')
            return ('ce', ty, (op, bt, ops))
        if op in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'addrspacecast'):
            v = s.tyval(); s.exp('to'); t2 = s.type(); s.exp(')')
            return ('ce', ty, (op, t2, [v]))
        ops = []
        pred = None
        if op == 'icmp': pred = s.next()[1]
        while not s.acc(')'):
            ops.append(s.tyval()); s.acc(',')
        return ('ce', ty, (op, pred, ops))

    ATTRW = {'noundef', 'nonnull', 'nocapture', 'readonly', 'readnone', 'writeonly', 'noalias', 'signext', 'zeroext', 'inreg',
             'returned', 'immarg', 'nofree', 'nest', 'swiftself', 'swifterror', 'noext', 'allocptr', 'allocalign', 'writable', 'nofpclass',
             'nosync', 'dead_on_unwind'}
    PATTR = {'dereferenceable', 'dereferenceable_or_null', 'align', 'byval', 'sret', 'byref', 'inalloca', 'elementtype', 'preallocated', 'range', 'captures', 'initializes', 'nofpclass'}
    def attrs(s):
        out = {}
        while True:
            k, v = s.peek()
            if k == 'word' and v in s.PATTR:
                s.next()
                if v == 'align' and s.peek()[0] == 'num':
                    out['align'] = int(s.next()[1])
                elif s.pv() == '(':
                    d, i0 = 0, s.i
                    if v in ('sret', 'byval', 'elementtype', 'byref'):
                        s.next(); out[v] = s.type(); s.exp(')')
                        continue
                    inner = []
                    while True:
                        x = s.next()[1]
                        if x == '(': d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0: break
                        else: inner.append(x)
                    out[v] = inner
            elif k == 'word' and v in s.ATTRW:
                s.next(); out[v] = True
            elif k == 'str' :
                s.next()
                if s.acc('='): s.next()
            elif k == 'attr': s.next()
            else: return out

def unesc(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return out

class Inst:
    __slots__ = ('op', 'dst', 'ty', 'ops', 'x', 'line')
    def __init__(s, op, dst, ty, ops, x, line): s.op, s.dst, s.ty, s.ops, s.x, s.line = op, dst, ty, ops, x, line
    def __repr__(s): return s.line

class Block:
    def __init__(s, name): s.name, s.insts = name, []
class Func:
    def __init__(s, name, ret, params, va): s.name, s.ret, s.params, s.va, s.blocks, s.order = name, ret, params, va, {}, []
    @property
    def is_decl(s): return not s.blocks

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'inbounds', 'nneg', 'samesign', 'nusw'}

class Module:
    def __init__(s):
        s.types, s.funcs, s.globals = {}, {}, {}

def parse(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    # join continued lines (switch, landingpad, invoke)
    while i < len(lines):
        ln = lines[i].strip()
        if not ln or ln[0] == ';' or ln.startswith(('source_filename', 'target ', '!', 'attributes', '$', 'module asm', 'declare_')):
            i += 1; continue
        if ln.startswith('%') and ' = type ' in ln:
            name, rhs = ln.split(' = type ', 1)
            if name[1] == '"': name = '%' + name[2:-1]
            p = P(lex(rhs), m)
            t = p.type()
            if isinstance(t, StructTy): t.name = name
            m.types[name] = t
            i += 1; continue
        if ln.startswith('@'):
            p = P(lex(ln), m)
            name = p.next()[1]; p.exp('=')
            g = {'name': name, 'const': False, 'init': None, 'ty': None, 'alias': None, 'ext': False}
            while True:
                k, v = p.peek()
                if v in ('global', 'constant'):
                    g['const'] = v == 'constant'; p.next(); break
                if v in ('alias', 'ifunc'):
                    g['alias'] = True; p.next(); break
                if v == 'external': g['ext'] = True
                p.next()
                if v in ('thread_local', 'addrspace', 'comdat') and p.pv() == '(':
                    while p.next()[1] != ')': pass
            if g['alias']:
                p.allow_fn = True
                p.type(); p.allow_fn = False; p.exp(',')
                g['alias'] = p.tyval()[2]
                m.globals[name] = g
                i += 1; continue
            g['ty'] = p.type()
            if p.peek()[0] != 'eof' and p.pv() != ',' and not g['ext']:
                try: g['init'] = p.value(g['ty'])
                except Exception: g['init'] = ('undef', g['ty'], None)
            m_al = re.search(r', align (\d+)', ln)
            g['align'] = int(m_al.group(1)) if m_al else None
            m.globals[name] = g
            i += 1; continue
        if ln.startswith(('declare', 'define')):
            isdef = ln.startswith('define')
            f = parse_fhead(ln, m)
            m.funcs[f.name] = f
            i += 1
            if not isdef: continue
            body = []
            while lines[i] != '}':
                body.append(lines[i]); i += 1
            i += 1
            parse_body(f, body, m)
            continue
        i += 1
    return m

def parse_fhead(ln, m):
    p = P(lex(ln), m)
    p.next()
    # skip linkage etc until type
    SK = {'linkonce_odr', 'dso_local', 'internal', 'weak_odr', 'weak', 'private', 'hidden', 'available_externally', 'external', 'linkonce', 'extern_weak', 'protected',
          'local_unnamed_addr', 'unnamed_addr', 'fastcc', 'ccc', 'coldcc', 'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'dllexport'}
    while p.peek()[0] == 'word' and (p.pv() in SK or p.pv() in P.PATTR):
        if p.pv() in P.PATTR: p.attrs()
        else: p.next()
    ret = p.type()
    p.attrs()
    name = p.next()[1]
    p.exp('(')
    params, va, n = [], False, 0
    while not p.acc(')'):
        if p.acc('...'): va = True; continue
        t = p.type(); a = p.attrs()
        if p.peek()[0] == 'loc': nm = p.next()[1]
        else: nm = '%' + str(n)
        n += 1
        params.append((t, nm, a))
        p.acc(',')
    return Func(name, ret, params, va)

def parse_body(f, body, m):
    # numbering of the entry block is implicit
    cur = None
    j = 0
    buf = []
    for ln in body:
        s = ln.strip()
        if not s or s[0] == ';': continue
        mm = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
        if mm:
            lab = mm.group(1)
            if lab[0] == '"': lab = lab[1:-1]
            buf.append(('L', '%' + lab)); continue
        if s.startswith('#dbg'): continue
        buf.append(('I', s))
    # join: switch ... [ ... ], landingpad clauses, invoke 'to label'
    out = []
    k = 0
    while k < len(buf):
        t, s = buf[k]
        if t == 'I':
            if s.startswith('switch ') and not re.search(r'\](, !.*)?$', s):
                while not re.search(r'\](, !.*)?$', buf[k][1].strip()):
                    k += 1; s += ' ' + buf[k][1]
            while k + 1 < len(buf) and buf[k+1][0] == 'I' and re.match(r'(to label |catch |filter |cleanup\b)', buf[k+1][1]) and ('landingpad' in s or 'invoke' in s):
                k += 1; s += ' ' + buf[k][1]
        out.append((t, s)); k += 1
    if out and out[0][0] == 'I':
        # entry label: first unnamed number = number of unnamed params
        cnt = sum(1 for _, nm, _ in f.params if re.fullmatch(r'%\d+', nm))
        cur = Block('%' + str(cnt)); f.blocks[cur.name] = cur; f.order.append(cur.name)
    for t, s in out:
        if t == 'L':
            cur = Block(s); f.blocks[s] = cur; f.order.append(s)
        else:
            try:
                cur.insts.append(parse_inst(s, m))
            except SyntaxError as e:
                cur.insts.append(Inst('unsupported', None, None, [], str(e), s))

def parse_inst(s, m):
    p = P(lex(s), m)
    dst = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dst = p.next()[1]; p.next()
    op = p.next()[1]
    def flags():
        fl = set()
        while p.peek()[0] == 'word' and p.pv() in FLAGS: fl.add(p.next()[1])
        return fl
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    if op in BIN:
        fl = flags()
        a = p.tyval(); p.exp(','); b = p.value(a[1])
        return Inst(op, dst, a[1], [a, b], fl, s)
    if op in ('icmp', 'fcmp'):
        fl = flags()
        pred = p.next()[1]
        a = p.tyval(); p.exp(','); b = p.value(a[1])
        return Inst(op, dst, I(1), [a, b], pred, s)
    if op in CAST:
        flags()
        a = p.tyval(); p.exp('to'); t = p.type()
        return Inst(op, dst, t, [a], None, s)
    if op == 'fneg':
        flags(); a = p.tyval()
        return Inst(op, dst, a[1], [a], None, s)
    if op == 'freeze':
        a = p.tyval()
        return Inst(op, dst, a[1], [a], None, s)
    if op == 'select':
        flags()
        c = p.tyval(); p.exp(','); a = p.tyval(); p.exp(','); b = p.tyval()
        return Inst(op, dst, a[1], [c, a, b], None, s)
    if op == 'phi':
        flags()
        t = p.type(); inc = []
        while True:
            p.exp('['); v = p.value(t); p.exp(','); lab = p.next()[1]; p.exp(']')
            inc.append((v, lab))
            if not p.acc(','): break
            if p.pv() != '[': break
        return Inst(op, dst, t, [], inc, s)
    if op == 'br':
        if p.acc('label'):
            return Inst('br', None, None, [], [p.next()[1]], s)
        c = p.tyval(); p.exp(','); p.exp('label'); a = p.next()[1]; p.exp(','); p.exp('label'); b = p.next()[1]
        return Inst('br', None, None, [c], [a, b], s)
    if op == 'switch':
        v = p.tyval(); p.exp(','); p.exp('label'); d = p.next()[1]; p.exp('[')
        cs = []
        while not p.acc(']'):
            c = p.tyval(); p.exp(','); p.exp('label'); cs.append((c, p.next()[1]))
        return Inst('switch', None, None, [v], (d, cs), s)
    if op == 'ret':
        t = p.type()
        if isinstance(t, VoidTy): return Inst('ret', None, t, [], None, s)
        return Inst('ret', None, t, [p.value(t)], None, s)
    if op == 'unreachable': return Inst(op, None, None, [], None, s)
    if op == 'resume':
        return Inst(op, None, None, [p.tyval()], None, s)
    if op == 'alloca':
        p.acc('inalloca')
        t = p.type(); n = None; al = None
        while p.acc(','):
            if p.acc('align'): al = int(p.next()[1])
            elif p.peek()[0] == 'meta': break
            else: n = p.tyval()
        return Inst(op, dst, t, [n] if n else [], al, s)
    if op == 'load':
        atomic = p.acc('atomic'); vol = p.acc('volatile')
        t = p.type(); p.exp(','); a = p.tyval()
        order = None; al = None
        while p.i < len(p.t):
            k, v = p.next()
            if v == 'align': al = int(p.next()[1])
            elif k == 'word' and v in ('monotonic', 'acquire', 'seq_cst', 'unordered', 'release', 'acq_rel'): order = v
            elif k == 'meta': break
        return Inst('load', dst, t, [a], {'atomic': order if atomic else None, 'align': al}, s)
    if op == 'store':
        atomic = p.acc('atomic'); vol = p.acc('volatile')
        v = p.tyval(); p.exp(','); a = p.tyval()
        order = None; al = None
        while p.i < len(p.t):
            k, w = p.next()
            if w == 'align': al = int(p.next()[1])
            elif k == 'word' and w in ('monotonic', 'release', 'seq_cst', 'unordered'): order = w
            elif k == 'meta': break
        return Inst('store', None, v[1], [v, a], {'atomic': order if atomic else None, 'align': al}, s)
    if op == 'fence':
        return Inst('fence', None, None, [], [x[1] for x in p.t[1:]], s)
    if op in ('atomicrmw', 'cmpxchg'):
        return Inst('unsupported', dst, None, [], op, s)
    if op == 'getelementptr':
        fl = flags()
        t = p.type(); ops = []
        while p.acc(','):
            if p.peek()[0] == 'meta': break
            ops.append(p.tyval())
        return Inst(op, dst, PTR, ops, t, s)
    if op in ('extractvalue',):
        a = p.tyval(); idx = []
        while p.acc(','):
            if p.peek()[0] == 'meta': break
            idx.append(int(p.next()[1]))
        return Inst(op, dst, None, [a], idx, s)
    if op == 'insertvalue':
        a = p.tyval(); p.exp(','); b = p.tyval(); idx = []
        while p.acc(','):
            if p.peek()[0] == 'meta': break
            idx.append(int(p.next()[1]))
        return Inst(op, dst, a[1], [a, b], idx, s)
    if op == 'extractelement':
        a = p.tyval(); p.exp(','); b = p.tyval()
        return Inst(op, dst, res(a[1]).el, [a, b], None, s)
    if op == 'insertelement':
        a = p.tyval(); p.exp(','); b = p.tyval(); p.exp(','); c = p.tyval()
        return Inst(op, dst, a[1], [a, b, c], None, s)
    if op == 'shufflevector':
        a = p.tyval(); p.exp(','); b = p.tyval(); p.exp(','); c = p.tyval()
        return Inst(op, dst, VecTy(res(c[1]).n, res(a[1]).el), [a, b, c], None, s)
    if op == 'landingpad':
        t = p.type()
        clauses = []
        cleanup = False
        while p.i < len(p.t):
            if p.acc('cleanup'): cleanup = True
            elif p.acc('catch'): clauses.append(('catch', p.tyval()))
            elif p.acc('filter'): clauses.append(('filter', p.tyval()))
            else: break
        return Inst(op, dst, t, [], (cleanup, clauses), s)
    if op in ('call', 'invoke'):
        flags()
        SK = {'fastcc', 'ccc', 'coldcc'}
        while p.peek()[0] == 'word' and p.pv() in SK: p.next()
        p.attrs()
        t = p.type()
        fnty = None
        if p.pv() == '(' and p.peek()[0] == 'p':
            # function type
            d = 0
            while True:
                x = p.next()[1]
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if d == 0: break
        p.attrs()
        k, v = p.next()
        if k == 'glob': callee = ('g', PTR, v)
        elif k == 'loc': callee = ('l', PTR, v)
        elif v == 'asm':
            return Inst('asm', dst, t, [], s, s)
        else: callee = p.const(PTR, k, v)
        p.exp('(')
        args = []; aattrs = []
        while not p.acc(')'):
            at = p.type()
            if isinstance(at, OtherTy):
                # metadata argument: skip
                d = 0
                while True:
                    x = p.pv()
                    if x in (',', ')') and d == 0: break
                    if x == '(': d += 1
                    if x == ')': d -= 1
                    p.next()
                args.append(('undef', at, None)); aattrs.append({})
                p.acc(','); continue
            a = p.attrs()
            args.append(p.value(at)); aattrs.append(a)
            p.acc(',')
        p.attrs()
        lab = None
        if op == 'invoke':
            while not p.acc('to'): p.next()
            p.exp('label'); n = p.next()[1]; p.exp('unwind'); p.exp('label'); u = p.next()[1]
            lab = (n, u)
        return Inst(op, dst, t, args, {'callee': callee, 'labels': lab, 'attrs': aattrs}, s)
    return Inst('unsupported', dst, None, [], op, s)

# ---------------------------------------------------------------- CFG / loops
def succs(b):
    t = b.insts[-1]
    if t.op == 'br': return list(t.x)
    if t.op == 'switch': return [t.x[0]] + [l for _, l in t.x[1]]
    if t.op == 'invoke': return list(t.x['labels'])
    return []

class Loop:
    def __init__(s, header, blocks): s.header, s.blocks = header, blocks

def find_loops(f):
    if hasattr(f, 'loops'): return f.loops
    order = []
    seen = set()
    entry = f.order[0]
    st = [(entry, iter(succs(f.blocks[entry])))]
    seen.add(entry)
    while st:
        n, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x); st.append((x, iter(succs(f.blocks[x])))); break
        else:
            order.append(n); st.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for x in succs(f.blocks[b]): preds[x].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for q in preds[b]:
                if q in idom:
                    if new is None: new = q
                    else:
                        a, c = q, new
                        while a != c:
                            while idx[a] > idx[c]: a = idom[a]
                            while idx[c] > idx[a]: c = idom[c]
                        new = a
            if idom.get(b) != new:
                idom[b] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for x in succs(f.blocks[b]):
            if dom(x, b):
                body = loops.setdefault(x, {x})
                w = [b]
                while w:
                    y = w.pop()
                    if y not in body:
                        body.add(y); w.extend(preds[y])
            elif idx[x] <= idx[b]:
                f.irreducible = True
    f.loops = {h: Loop(h, bl) for h, bl in loops.items()}
    return f.loops
