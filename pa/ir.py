"""IR module wrapper: compile /repo's headers with clang, normalise with opt, export to JSON, load."""
import json, os, subprocess, hashlib, re, uuid

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, '.cache')
OPT = '/usr/lib/llvm-18/bin/opt'
PIPE = ('cgscc(inline),function(sroa,early-cse,simplifycfg),cgscc(inline),'
        'function(sroa,early-cse,simplifycfg,adce,loop-simplify),globaldce')

class BuildError(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode != 0:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), r.stderr.decode(errors='replace')[-3000:]))
    return r.stdout

def exporter():
    src = os.path.join(HERE, 'tool', 'irexport.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, 'irexport-' + h)
    if not os.path.exists(exe):
        flags = sh(['llvm-config-18', '--cppflags']).decode().split()
        tmp = exe + '.%s' % uuid.uuid4().hex
        sh(['clang++', '-O1', '-std=c++17', '-fno-exceptions', '-fno-rtti', '-w'] + flags + [src, '-o', tmp,
            '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
        os.rename(tmp, exe)
    return exe

def build_json(src, repo, cxxflags, work, normalise=True, tag='m', std='c++11'):
    """compile one driver/source file and return the exported JSON (bytes)"""
    bc = os.path.join(work, tag + '.bc'); nb = os.path.join(work, tag + '.n.bc')
    sh(['clang++', '-std=' + std, '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-w', '-I', os.path.join(repo, 'include')]
       + cxxflags + ['-emit-llvm', '-c', src, '-o', bc])
    if normalise:
        sh([OPT, '-inline-threshold=100000000', '-passes=' + PIPE, bc, '-o', nb])
    else:
        nb = bc
    return sh([exporter(), nb])

class Fn:
    __slots__ = ('name', 'dem', 'link', 'decl', 'blocks', 'args', 'loops', 'headers', 'noreturn', 'ret', 'file', 'line', 'sname', 'comdat', 'loopof')
    def __init__(self, j):
        self.name = j['name']; self.dem = j['dem']; self.link = j['link']; self.decl = j['decl']
        self.noreturn = j['noreturn']; self.ret = j['ret']; self.args = j['args']
        self.file = j.get('file'); self.line = j.get('line'); self.sname = j.get('sname'); self.comdat = j['comdat']
        self.blocks = j.get('blocks') or []
        self.loops = []; self.headers = {}
        for l in j.get('loops') or []:
            lp = Loop(l['h'], frozenset(l['b']), l['depth'])
            self.loops.append(lp); self.headers[lp.h] = lp
class Loop:
    __slots__ = ('h', 'b', 'depth')
    def __init__(self, h, b, d): self.h = h; self.b = b; self.depth = d

class Module:
    def __init__(self, data):
        j = json.loads(data)
        self.locs = j['locs']
        self.globals = {g['name']: g for g in j['globals']}
        self.funcs = {f['name']: Fn(f) for f in j['functions']}
    def loc(self, l, full=False):
        """innermost 'file:line:function' of a location id"""
        if l is None or l < 0: return '?'
        parts = self.locs[l].split('|')
        return self.locs[l] if full else parts[0]
    def loc_user(self, l):
        """innermost location inside the repository (not libstdc++ / intrinsics headers)"""
        if l is None or l < 0: return '?'
        for p in self.locs[l].split('|'):
            if 'pandaresampler' in p or 'hiir' in p:
                f, ln, fn = p.rsplit(':', 2)
                return '%s:%s (%s)' % (short(f), ln, fn)
        p = self.locs[l].split('|')[0]
        f, ln, fn = p.rsplit(':', 2)
        return '%s:%s (%s)' % (short(f), ln, fn)

def short(f):
    i = f.find('include/pandaresampler')
    return f[i:] if i >= 0 else os.path.basename(f)
