"""Mechanical extraction: copy /repo's current sources to a scratch directory, compile a harness TU against them with
clang (no optimisation), and cut out one root function at a time with everything it calls inlined except functions that
carry a contract or a library model (those become declarations)."""
import os, re, subprocess, shutil, tempfile, hashlib, atexit
from . import ir as IR

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
OPT = 'opt-18' if shutil.which('opt-18') else '/usr/lib/llvm-18/bin/opt'
FILT = shutil.which('llvm-cxxfilt-18') or shutil.which('c++filt') or 'c++filt'

class BuildError(Exception):
    pass

def scratch():
    d = tempfile.mkdtemp(prefix='succ_verif_')
    pid = os.getpid()
    def rm():
        if os.getpid() == pid: shutil.rmtree(d, ignore_errors=True)
    atexit.register(rm)
    return d

CFG = '''#pragma once
#define SUCCINCT_USE_LIBCXX 0
#define SUCCINCT_USE_INTRINSICS %d
#define SUCCINCT_USE_POPCNT %d
#if SUCCINCT_USE_INTRINSICS == 0
#undef SUCCINCT_USE_INTRINSICS
#endif
#if SUCCINCT_USE_POPCNT == 0
#undef SUCCINCT_USE_POPCNT
#endif
'''

def copy_sources(dst, intrinsics=1, popcnt=0):
    """dst/succinct/<all sources of /repo>, with a generated succinct_config.hpp of the chosen configuration"""
    d = os.path.join(dst, 'succinct')
    os.makedirs(d, exist_ok=True)
    for f in sorted(os.listdir(REPO)):
        if f.endswith(('.hpp', '.cpp', '.h', '.ipp')) and not f.startswith('test_') and f != 'succinct_config.hpp':
            shutil.copyfile(os.path.join(REPO, f), os.path.join(d, f))
    for sub in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, sub)
        if os.path.isdir(p) and not sub.startswith(('.', '_')) and sub not in ('perftest', 'build'):
            shutil.copytree(p, os.path.join(d, sub), dirs_exist_ok=True)
    tmpl = os.path.join(REPO, 'succinct_config.hpp.in')
    txt = open(tmpl).read() if os.path.exists(tmpl) else CFG % (intrinsics, popcnt)
    def sub(m):
        on = {'SUCCINCT_USE_INTRINSICS': intrinsics, 'SUCCINCT_USE_POPCNT': popcnt}.get(m.group(1), 0)
        return ('#define %s 1' % m.group(1)) if on else ('/* #undef %s */' % m.group(1))
    txt = re.sub(r'#cmakedefine01\s+(\w+)', lambda m: '#define %s %d' % (m.group(1), {'SUCCINCT_USE_INTRINSICS': intrinsics, 'SUCCINCT_USE_POPCNT': popcnt}.get(m.group(1), 0)), txt)
    txt = re.sub(r'#cmakedefine\s+(\w+).*', sub, txt)
    txt = re.sub(r'@\w+@', '0', txt)
    open(os.path.join(d, 'succinct_config.hpp'), 'w').write(txt)
    return d

CFLAGS = ['-std=gnu++17', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-gline-tables-only',
          '-fignore-exceptions', '-fno-access-control', '-fno-threadsafe-statics', '-Wno-everything', '-fno-stack-protector']

def compile_ll(src, out, incdir, extra=()):
    cmd = [CLANG] + CFLAGS + ['-fno-crash-diagnostics'] + list(extra) + ['-I' + incdir, '-I' + os.path.join(incdir, 'succinct'), '-S', '-emit-llvm', src, '-o', out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise BuildError(p.stderr[:1500])
    return out

def layouts(src, incdir, extra=()):
    """record layouts: {type name: [(offset, type, field name)]} from clang's own dump"""
    cmd = [CLANG] + CFLAGS + ['-fno-crash-diagnostics', '-Xclang', '-fdump-record-layouts'] + list(extra) + \
          ['-I' + incdir, '-I' + os.path.join(incdir, 'succinct'), '-S', '-emit-llvm', '-o', '/dev/null', src]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise BuildError(p.stderr[:1500])
    return parse_layouts(p.stdout)

def parse_layouts(txt):
    out = {}
    for blk in txt.split('*** Dumping AST Record Layout')[1:]:
        lines = blk.strip('\n').split('\n')
        m = re.match(r'\s*0 \|\s*(class|struct|union) (.*)$', lines[0])
        if not m: continue
        name = re.sub(r' \((empty|primary base|base).*', '', m.group(2)).strip()
        if not ('succinct' in name): continue
        fields = []; size = None
        for L in lines[1:]:
            ms = re.search(r'\[sizeof=(\d+)', L)
            if ms: size = int(ms.group(1)); continue
            m = re.match(r'\s*(\d+) \|(\s+)(.*)$', L)
            if not m: continue
            depth = (len(m.group(2)) - 1) // 2
            decl = m.group(3).strip()
            fields.append((int(m.group(1)), depth, decl))
        out[name] = (size, fields)
    return out

class Layout:
    def __init__(s, raw): s.raw = raw
    def size(s, typ): return s.raw[typ][0]
    def off(s, typ, field):
        for o, d, decl in s.raw[typ][1]:
            if d == 1 and re.search(r'\b%s$' % re.escape(field), decl): return o
        raise KeyError('%s::%s' % (typ, field))

# -------------------------------------------------------------- demangling
_dm = {}
def demangle_all(names):
    todo = [n for n in names if n not in _dm]
    if todo:
        p = subprocess.run([FILT], input='\n'.join(todo) + '\n', capture_output=True, text=True)
        for n, d in zip(todo, p.stdout.split('\n')): _dm[n] = d
    return _dm
def demangle(n):
    if n not in _dm: demangle_all([n])
    return _dm[n]

# -------------------------------------------------------------- per-root extraction
CALL = re.compile(r'@("[^"]*"|[-\w$.]+)')

class TU:
    def __init__(s, path):
        s.path = path
        s.text = open(path).read()
        s.mod = IR.Module(s.text)
        demangle_all(list(s.mod.ftext) + list(s.mod.decls))
        s.refs = {}
    def callees(s, f):
        if f not in s.refs:
            r = []
            for L in s.mod.ftext[f][1]:
                for m in CALL.finditer(L):
                    n = m.group(1).strip('"')
                    if n in s.mod.ftext or n in s.mod.decls: r.append(n)
            s.refs[f] = list(dict.fromkeys(r))
        return s.refs[f]

    def extract(s, root, iscut, workdir, passes='always-inline,function(sroa,simplifycfg,loop-simplify)'):
        """-> Module for root with every non-cut callee inlined"""
        keep = []; cut = set(); seen = set()
        stack = [root]
        while stack:
            f = stack.pop()
            if f in seen: continue
            seen.add(f)
            if f not in s.mod.ftext: cut.add(f); continue
            if f != root and iscut(f): cut.add(f); continue
            keep.append(f)
            stack.extend(s.callees(f))
        lines = []
        lines += [L for L in s.mod.other if not L.startswith('attributes ')]
        gl = set()
        body = []
        for f in keep:
            hdr, b = s.mod.ftext[f]
            if f != root:
                hdr = re.sub(r'^define (?:dso_local )?(?:linkonce_odr |weak_odr |internal |available_externally )*', 'define internal ', hdr)
                hdr = re.sub(r' comdat(\(\$[^)]*\))?', '', hdr)
                hdr = re.sub(r'(\) (?:unnamed_addr |local_unnamed_addr )?)(#\d+)', r'\1alwaysinline \2', hdr, count=0) if '#' in hdr else hdr.replace(' {', ' alwaysinline {')
            else:
                hdr = re.sub(r' comdat(\(\$[^)]*\))?', '', hdr)
                hdr = re.sub(r'^define linkonce_odr ', 'define ', hdr)
            body.append(hdr); body += b; body.append('}'); body.append('')
            for L in [hdr] + b:
                for m in CALL.finditer(L):
                    n = m.group(1).strip('"')
                    if n in s.mod.globals: gl.add(n)
        # globals (transitively)
        todo = list(gl)
        while todo:
            g = todo.pop()
            for m in CALL.finditer(s.mod.globals[g].split(' = ', 1)[1]):
                n = m.group(1).strip('"')
                if n in s.mod.globals and n not in gl: gl.add(n); todo.append(n)
                elif (n in s.mod.ftext or n in s.mod.decls) and n not in keep: cut.add(n)
        for g in sorted(gl):
            lines.append(re.sub(r', comdat(\(\$[^)]*\))?', '', s.mod.globals[g]))
        for c in sorted(cut):
            if c in s.mod.decls: lines.append(s.mod.decls[c])
            else: lines.append(todecl(s.mod.ftext[c][0]))
        attrs = [re.sub(r'\b(noinline|optnone|alwaysinline|optsize|minsize)\b ?', '', L) for L in s.mod.other if L.startswith('attributes ')]
        attrs = [re.sub(r'inlinehint ', '', L) for L in attrs]
        txt = '\n'.join([L for L in lines if not L.startswith('$')] + body + attrs) + '\n'
        h = hashlib.md5((root + s.path).encode()).hexdigest()[:10]
        fin = os.path.join(workdir, 'x_%s_%s_%d.ll' % (re.sub(r'\W', '_', root)[:40], h, os.getpid()))
        open(fin, 'w').write(txt)
        p = subprocess.run([OPT, '-S', '-speculate-one-expensive-inst=false', '-phi-node-folding-threshold=0', '-two-entry-phi-node-folding-threshold=0', '-bonus-inst-threshold=0', '-passes=' + passes, fin, '-o', fin + '.o.ll'], capture_output=True, text=True)
        if p.returncode: raise BuildError('opt: ' + p.stderr[-2000:])
        out = IR.Module(open(fin + '.o.ll').read())
        out.inlined = keep; out.cutset = cut
        return out

def todecl(hdr):
    i = hdr.index('@'); j = hdr.index('(', i)
    d = 0
    for k in range(j, len(hdr)):
        if hdr[k] == '(': d += 1
        if hdr[k] == ')':
            d -= 1
            if d == 0: break
    pre = re.sub(r'^define (?:dso_local |linkonce_odr |weak_odr |internal |available_externally |hidden |noundef |unnamed_addr )*', 'declare ', hdr[:i])
    params = hdr[j + 1:k]
    params = re.sub(r' %("[^"]*"|[-\w$.]+)(?=,|$| *\))', '', params)
    # parameter names at top level: "ptr noundef nonnull %this, i64 %x"
    return pre + hdr[i:j] + '(' + params + ')'
