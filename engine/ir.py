"""Parser for the subset of textual LLVM IR (v18, opaque pointers) that clang/opt produce for /repo."""
import re

class IRError(Exception):
    pass

TOK = re.compile(r'''
    \s+ |
    (?P<str>c"(?:[^"])*") |
    (?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
    (?P<md>![-a-zA-Z0-9_.]*(?:\([^()]*\))?) |
    (?P<attr>\#\d+) |
    (?P<num>-?\d+(?:\.\d+e[+-]\d+)?) |
    (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*) |
    (?P<dots>\.\.\.) |
    (?P<p>[()\[\]{}<>,=*:|])
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i] == ';':
                break
            raise IRError("tokenize: %r at %r" % (s, s[i:i+20]))
        i = m.end()
        k = m.lastgroup
        if k:
            t = m.group(k)
            if k == 'id' and t[1] == '"':
                t = t[0] + t[2:-1]
            out.append((k, t))
    return out

# ---- types -------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'fields', 'name', 'packed')
    def __init__(s, k, w=0, n=0, el=None, fields=None, name=None, packed=False):
        s.k = k; s.w = w; s.n = n; s.el = el; s.fields = fields; s.name = name; s.packed = packed
    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.w
        if s.k == 'arr': return '[%d x %r]' % (s.n, s.el)
        if s.k == 'named': return '%' + s.name
        if s.k == 'struct': return '{%s}' % ', '.join(map(repr, s.fields))
        return s.k

PTR = Ty('ptr'); VOID = Ty('void'); I1 = Ty('int', 1); I8 = Ty('int', 8)
I16 = Ty('int', 16); I32 = Ty('int', 32); I64 = Ty('int', 64)

ATTRS0 = set('''noundef nonnull zeroext signext noalias nocapture readonly readnone writeonly returned immarg
inreg nofree nest swiftself swifterror nosync willreturn mustprogress noinline alwaysinline dead_on_unwind writable inrange'''.split())
ATTRS1 = set('sret byval dereferenceable dereferenceable_or_null align byref elementtype allocsize range captures memory'.split())

class P:
    """token cursor"""
    def __init__(s, toks):
        s.t = toks; s.i = 0
    def peek(s, d=0):
        return s.t[s.i + d] if s.i + d < len(s.t) else (None, None)
    def next(s):
        x = s.peek(); s.i += 1; return x
    def eat(s, v):
        if s.peek()[1] == v:
            s.i += 1; return True
        return False
    def expect(s, v):
        if not s.eat(v):
            raise IRError("expected %r got %r in %r" % (v, s.peek(), ' '.join(x[1] for x in s.t)))
    def done(s):
        return s.i >= len(s.t)

    def type(s):
        k, v = s.next()
        if k == 'word':
            if re.match(r'i\d+$', v): t = Ty('int', int(v[1:]))
            elif v == 'ptr': t = PTR
            elif v == 'void': t = VOID
            elif v in ('float', 'double', 'x86_fp80', 'half'): t = Ty('fp', {'float': 32, 'double': 64, 'x86_fp80': 128, 'half': 16}[v])
            elif v in ('label', 'metadata', 'token', 'opaque'): t = Ty(v)
            else: raise IRError("type? %r" % v)
        elif k == 'id' and v[0] == '%':
            t = Ty('named', name=v[1:])
        elif v == '[':
            n = int(s.next()[1]); s.expect('x'); el = s.type(); s.expect(']')
            t = Ty('arr', n=n, el=el)
        elif v == '{':
            fs = []
            while not s.eat('}'):
                fs.append(s.type()); s.eat(',')
            t = Ty('struct', fields=fs)
        elif v == '<':
            if s.peek()[1] == '{':
                s.next(); fs = []
                while not s.eat('}'):
                    fs.append(s.type()); s.eat(',')
                s.expect('>')
                t = Ty('struct', fields=fs, packed=True)
            else:
                n = int(s.next()[1]); s.expect('x'); el = s.type(); s.expect('>')
                t = Ty('vec', n=n, el=el)
        else:
            raise IRError("type? %r %r" % (k, v))
        if s.peek()[1] == '(' and t.k != 'x':  # function type  e.g. i32 (ptr, ...)
            # only treat as function type if inside parens are types
            save = s.i
            try:
                s.next()
                while not s.eat(')'):
                    if s.peek()[0] == 'dots': s.next()
                    else: s.type()
                    s.eat(',')
                if s.peek()[0] == 'id' or s.peek()[1] == '*':
                    return t
            except IRError:
                pass
            s.i = save
        return t

    def skip_attrs(s):
        while True:
            k, v = s.peek()
            if k == 'word' and v in ATTRS0:
                s.next()
            elif k == 'word' and v in ATTRS1:
                s.next()
                if s.peek()[1] == '(':
                    d = 0
                    while True:
                        x = s.next()[1]
                        if x == '(': d += 1
                        if x == ')':
                            d -= 1
                            if d == 0: break
                else:
                    s.next()
            elif k == 'attr':
                s.next()
            else:
                return

    def value(s, ty):
        """operand -> ('reg',name)|('glob',name)|('int',n)|('null',)|('undef',)|('zero',)|('gep',...)|('agg',[...])"""
        k, v = s.next()
        if k == 'id':
            return ('reg', v[1:]) if v[0] == '%' else ('glob', v[1:])
        if k == 'num':
            return ('int', int(v)) if '.' not in v else ('fp', v)
        if k == 'str':
            return ('str', v)
        if k == 'md':
            return ('md', v)
        if v == 'true': return ('int', 1)
        if v == 'false': return ('int', 0)
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if v == 'getelementptr':
            s.eat('inbounds'); s.eat('inrange')
            s.expect('(')
            bt = s.type(); s.expect(',')
            s.type(); base = s.value(PTR); idx = []
            while s.eat(','):
                s.eat('inrange')
                t = s.type(); idx.append((t, s.value(t)))
            s.expect(')')
            return ('gep', bt, base, idx)
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            inner = False
            if v == '<' and s.peek()[1] == '{':
                s.next(); inner = True
            els = []
            end = '}' if inner else close
            while not s.eat(end):
                t = s.type(); els.append((t, s.value(t))); s.eat(',')
            if inner: s.expect('>')
            return ('agg', els)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'sub', 'add', 'trunc'):
            raise IRError("constexpr %s unsupported" % v)
        raise IRError("value? %r %r in %s" % (k, v, ' '.join(x[1] for x in s.t)))

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'text')
    def __init__(s, op, res, ty, a, line, text):
        s.op = op; s.res = res; s.ty = ty; s.a = a; s.line = line; s.text = text

class Block:
    def __init__(s, name):
        s.name = name; s.ins = []

class Function:
    def __init__(s, name):
        s.name = name; s.params = []; s.blocks = {}; s.order = []; s.ret = None

BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor'.split())
CAST = set('zext sext trunc bitcast ptrtoint inttoptr addrspacecast'.split())
SKIPCALL = ('llvm.dbg', 'llvm.lifetime', 'llvm.experimental.noalias')

def parse_instr(text):
    line = None
    m = re.search(r', !dbg !(\d+)', text)
    if m:
        line = int(m.group(1))
    body = re.sub(r', ![a-zA-Z_.]+ !\d+', '', text)
    body = re.sub(r', !\d+(?=,|$)', '', body)
    toks = tokenize(body)
    p = P(toks)
    res = None
    if p.peek()[0] == 'id' and p.peek(1)[1] == '=':
        res = p.next()[1][1:]; p.next()
    op = p.next()[1]
    flags = set()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    if op in BIN:
        while p.peek()[1] in ('nsw', 'nuw', 'exact', 'disjoint'):
            flags.add(p.next()[1])
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Instr(op, res, t, (a, b, flags), line, text)
    if op in CAST:
        p.eat('nneg')
        t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
        return Instr(op, res, t2, (t, a), line, text)
    if op == 'icmp':
        pred = p.next()[1]; t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Instr(op, res, t, (pred, a, b), line, text)
    if op == 'alloca':
        p.eat('inalloca')
        t = p.type()
        return Instr(op, res, t, (), line, text)
    if op == 'load':
        p.eat('volatile'); t = p.type(); p.expect(','); p.type(); a = p.value(PTR)
        return Instr(op, res, t, (a,), line, text)
    if op == 'store':
        p.eat('volatile'); t = p.type(); v = p.value(t); p.expect(','); p.type(); a = p.value(PTR)
        return Instr(op, None, t, (v, a), line, text)
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'): p.next()
        bt = p.type(); p.expect(','); p.type(); base = p.value(PTR); idx = []
        while p.eat(','):
            t = p.type(); idx.append((t, p.value(t)))
        return Instr(op, res, PTR, (bt, base, idx), line, text)
    if op == 'phi':
        t = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); l = p.next()[1][1:]; p.expect(']')
            inc.append((v, l))
            if not p.eat(','): break
        return Instr(op, res, t, (inc,), line, text)
    if op == 'br':
        if p.peek()[1] == 'label':
            p.next(); return Instr(op, None, VOID, (p.next()[1][1:],), line, text)
        p.type(); c = p.value(I1); p.expect(','); p.expect('label'); x = p.next()[1][1:]; p.expect(','); p.expect('label')
        y = p.next()[1][1:]
        return Instr('condbr', None, VOID, (c, x, y), line, text)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next()[1][1:]; p.expect('[')
        cs = []
        while not p.eat(']'):
            t2 = p.type(); c = p.value(t2); p.expect(','); p.expect('label'); cs.append((c, p.next()[1][1:]))
        return Instr(op, None, t, (v, d, cs), line, text)
    if op == 'ret':
        t = p.type()
        return Instr(op, None, t, (() if t.k == 'void' else (p.value(t),)), line, text)
    if op == 'select':
        p.type(); c = p.value(I1); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); t = p.type(); b = p.value(t)
        return Instr(op, res, t, (c, a, b), line, text)
    if op in ('call', 'invoke'):
        p.skip_attrs()
        while p.peek()[1] in ('fastcc', 'ccc'): p.next()
        p.skip_attrs()
        t = p.type()
        callee = p.value(PTR); p.expect('('); args = []
        while not p.eat(')'):
            at = p.type(); p.skip_attrs()
            if at.k == 'metadata':
                p.next(); args.append((at, ('md',)))
            else:
                args.append((at, p.value(at)))
            p.eat(',')
        return Instr('call', res, t, (callee, args), line, text)
    if op == 'unreachable':
        return Instr(op, None, VOID, (), line, text)
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); idx = []
        while p.eat(','): idx.append(int(p.next()[1]))
        return Instr(op, res, t, (v, idx), line, text)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); e = p.value(t2); idx = []
        while p.eat(','): idx.append(int(p.next()[1]))
        return Instr(op, res, t, (v, t2, e, idx), line, text)
    if op == 'freeze':
        t = p.type(); return Instr(op, res, t, (p.value(t),), line, text)
    if op in ('atomicrmw', 'cmpxchg', 'fence', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'fcmp', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
        return Instr(op, res, VOID, (), line, text)        # undecided if a path executes it
    raise IRError("instruction %r: %s" % (op, text))

class Module:
    """text-level view of a .ll file; functions are parsed on demand"""
    def __init__(s, text):
        s.text = text
        s.types = {}
        s.globals = {}
        s.ftext = {}     # name -> (header, [lines])
        s.decls = {}
        s.meta = {}
        s.other = []
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            L = lines[i]
            if L.startswith('define '):
                hdr = L
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                s.ftext[s.fname(hdr)] = (hdr, body)
            elif L.startswith('declare '):
                s.decls[s.fname(L)] = L
            elif L.startswith('%') and ' = type ' in L:
                nm, t = L.split(' = type ', 1)
                nm = nm[1:]
                if nm[0] == '"': nm = nm[1:-1]
                s.types[nm] = t
                s.other.append(L)
            elif L.startswith('@'):
                m = re.match(r'@("[^"]*"|[-\w$.]+) = ', L)
                nm = m.group(1).strip('"')
                s.globals[nm] = L
            elif L.startswith('!'):
                m = re.match(r'!(\d+) = (.*)', L)
                if m: s.meta[int(m.group(1))] = m.group(2)
                s.other.append(L)
            else:
                s.other.append(L)
            i += 1
        s._tyc = {}
        s._lay = {}
        s._fn = {}

    @staticmethod
    def fname(hdr):
        m = re.search(r'@("[^"]*"|[-\w$.]+)\(', hdr)
        return m.group(1).strip('"')

    def named(s, name):
        if name not in s._tyc:
            t = s.types[name]
            if t.strip() == 'opaque':
                s._tyc[name] = Ty('opaque')
            else:
                s._tyc[name] = P(tokenize(t)).type()
        return s._tyc[name]

    def resolve(s, t):
        while t.k == 'named':
            t = s.named(t.name)
        return t

    def align(s, t):
        t = s.resolve(t)
        if t.k == 'int': return max(1, min(8 if t.w <= 64 else 16, (t.w + 7) // 8))
        if t.k == 'ptr': return 8
        if t.k == 'arr': return s.align(t.el)
        if t.k == 'struct': return 1 if t.packed else max([1] + [s.align(f) for f in t.fields])
        if t.k == 'fp': return t.w // 8
        if t.k == 'vec': return s.size(t)
        raise IRError("align %r" % t)

    def size(s, t):
        t = s.resolve(t)
        if t.k == 'int': return 1 if t.w <= 8 else 2 if t.w <= 16 else 4 if t.w <= 32 else 8 if t.w <= 64 else 16
        if t.k == 'ptr': return 8
        if t.k == 'arr': return t.n * s.size(t.el)
        if t.k == 'fp': return t.w // 8
        if t.k == 'struct': return s.layout(t)[1]
        if t.k == 'vec': return t.n * s.size(t.el)
        raise IRError("size %r" % t)

    def layout(s, t):
        key = id(t)
        if key in s._lay: return s._lay[key][:2]
        offs = []; o = 0; al = 1
        for f in t.fields:
            a = 1 if t.packed else s.align(f)
            al = max(al, a)
            o = (o + a - 1) // a * a
            offs.append(o); o += s.size(f)
        o = (o + al - 1) // al * al
        s._lay[key] = (offs, o, t)
        return offs, o

    def line_of(s, dbg):
        """(file, line) for a !dbg reference"""
        try:
            m = s.meta[dbg]
            ln = int(re.search(r'line: (\d+)', m).group(1))
            sc = int(re.search(r'scope: !(\d+)', m).group(1))
            for _ in range(20):
                d = s.meta[sc]
                f = re.search(r'file: !(\d+)', d)
                if f:
                    fn = re.search(r'filename: "([^"]*)"', s.meta[int(f.group(1))]).group(1)
                    return fn, ln
                sc = int(re.search(r'scope: !(\d+)', d).group(1))
        except Exception:
            pass
        return None, None

    def func(s, name):
        if name in s._fn: return s._fn[name]
        hdr, body = s.ftext[name]
        f = Function(name)
        # header: parse params
        i = hdr.index('@')
        j = hdr.index('(', i)
        # parameter list up to matching paren
        d = 0
        for k in range(j, len(hdr)):
            if hdr[k] == '(': d += 1
            if hdr[k] == ')':
                d -= 1
                if d == 0: break
        p = P(tokenize(hdr[j + 1:k]))
        while not p.done():
            if p.peek()[0] == 'dots': p.next(); continue
            t = p.type()
            sret = any(x[1] == 'sret' for x in p.t[p.i:p.i + 6])
            p.skip_attrs()
            nm = p.next()[1][1:]
            f.params.append((t, nm))
            p.eat(',')
        cur = None
        pend = None
        for L in body:
            if not L.strip() or L.lstrip().startswith(';'): continue
            m = re.match(r'^("[^"]*"|[-\w$.]+):', L)
            if m:
                nm = m.group(1).strip('"')
                cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm)
                continue
            if cur is None:
                cur = Block(str(len(f.params))); f.blocks[cur.name] = cur; f.order.append(cur.name)
            t = L.strip()
            if pend is not None:
                pend += ' ' + t
                if t.startswith(']') or ']' in t:
                    cur.ins.append(parse_instr(pend)); pend = None
                continue
            if t.startswith('switch') and ']' not in t:
                pend = t; continue
            if any(x in t for x in SKIPCALL): continue
            if t.startswith('#dbg'): continue
            cur.ins.append(parse_instr(t))
        s._fn[name] = f
        return f
