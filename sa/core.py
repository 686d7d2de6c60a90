"""Fact extraction and indexing for the FLPR static analyses.

Every run parses /repo's current sources with clang (tools/flprx.cc), writes
the resolved AST as JSON into a cache directory keyed by the content of all
inputs, and loads it.  Nothing of FLPR is executed.
"""
import hashlib, json, os, re, subprocess, sys, time, fcntl, gzip, pickle
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FLPR_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANGCPP = '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1'
LLVM = '/usr/lib/llvm-18/lib/libLLVM-18.so'


class Broken(Exception):
    """The analysis cannot answer (anchors vanished, source does not parse)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          text=True, **kw)


def _hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'tools', 'flprx.cc')
    out = os.path.join(BUILD, 'flprx-' + _hash([src])[:12])
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            tmp = out + '.tmp%d' % os.getpid()
            r = sh(['g++', '-O1', '-std=c++17', '-fno-rtti', '-fno-exceptions',
                    '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-w', src,
                    '-o', tmp, CLANGCPP, LLVM])
            if r.returncode:
                raise Broken('cannot build the extractor:\n' + r.stderr[-2000:])
            os.rename(tmp, out)
    return out


def sources():
    fl = os.path.join(REPO, 'src', 'flpr')
    lib = sorted(os.path.join(fl, f) for f in os.listdir(fl)
                 if f.endswith('.cc'))
    ap = os.path.join(REPO, 'apps')
    apps = sorted(os.path.join(ap, f) for f in os.listdir(ap)
                  if f.endswith('.cc'))
    return lib, apps


def all_inputs():
    out = []
    for d in ('src/flpr', 'apps'):
        p = os.path.join(REPO, d)
        for root, _, files in os.walk(p):
            for f in files:
                if f.endswith(('.cc', '.hh', '.l')):
                    out.append(os.path.join(root, f))
    return sorted(out)


def flex(dest):
    """generate scan_fort.hh/.cc from the scanner definition"""
    r = sh(['flex', '-o', os.path.join(dest, 'scan_fort.cc'),
            '--header-file=' + os.path.join(dest, 'scan_fort.hh'),
            os.path.join(REPO, 'src/flpr/scan_fort.l')])
    if r.returncode:
        raise Broken('flex failed: ' + r.stderr[-500:])


def extract():
    tool = build_tool()
    tud = os.path.join(VERIF, 'sa', 'tu')
    insts = sorted(os.path.join(tud, f) for f in os.listdir(tud)
                   if f.endswith('.cc'))
    key = _hash(all_inputs() + insts + [tool], 'v7')
    dest = os.path.join(BUILD, 'facts-' + key)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, 'done')):
            return dest
        # keep the cache small
        for d in os.listdir(BUILD):
            if d.startswith('facts-') and d != 'facts-' + key:
                p = os.path.join(BUILD, d)
                if time.time() - os.path.getmtime(p) > 3600:
                    subprocess.run(['rm', '-rf', p])
        os.makedirs(dest, exist_ok=True)
        flex(dest)
        lib, apps = sources()
        flags = ['-std=c++17', '-I' + REPO + '/src', '-I' + dest,
                 '-I' + REPO, '-I' + REPO + '/apps', '-w', '-UNDEBUG']
        jobs = [(s, s) for s in lib + apps] + \
               [(i, i) for i in insts] + \
               [(os.path.join(dest, 'scan_fort.cc'),) * 2]

        def run(j):
            s = j[0]
            out = os.path.join(dest, os.path.basename(s) + '.json')
            r = sh([tool, REPO + '/:' + dest + '/:' + tud, out, s, '--'] +
                   flags)
            if r.returncode or not os.path.exists(out):
                msg = '%s does not compile:\n%s' % (s, r.stderr[-3000:])
                if s in insts:      # only the checks that use it need it
                    if os.path.exists(out):
                        os.remove(out)
                    open(out[:-5] + '.err', 'w').write(msg)
                    return None
                return msg
            return None
        with ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(run, jobs) if e]
        if errs:
            raise Broken('\n'.join(errs))
        open(os.path.join(dest, 'done'), 'w').write('ok')
    return dest


class Fn(dict):
    __slots__ = ()

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


def rel(loc):
    """repo-relative file:line:col"""
    if loc and loc.startswith(REPO + '/'):
        return loc[len(REPO) + 1:]
    return loc


class Facts:
    def __init__(self, only=None):
        self.dir = extract()
        self.fns = {}        # key -> Fn
        self.byq = {}        # qualified name -> [Fn]
        self.records = {}    # printed name -> record
        self.recq = {}
        self.enums = {}
        self.globals = []
        self.files = set()
        self.tus = []
        for o in only or ():
            e = os.path.join(self.dir, o + '.err')
            if os.path.exists(e):
                raise Broken(open(e).read())
        for f in sorted(os.listdir(self.dir)):
            if not f.endswith('.json'):
                continue
            if only and not any(f == o + '.json' for o in only):
                continue
            with open(os.path.join(self.dir, f)) as fh:
                d = json.load(fh)
            tu = f[:-5]
            self.tus.append(tu)
            for fn in d['functions']:
                fn = Fn(fn)
                fn['tu'] = tu
                self.files.add(fn['file'])
                k = fn['key']
                if k in self.fns:
                    if fn.get('lambda'):
                        self.fns[(tu, k)] = fn
                    continue
                self.fns[k] = fn
                if fn.get('lambda'):
                    self.fns[(tu, k)] = fn
                self.byq.setdefault(fn['q'], []).append(fn)
            for r in d['records']:
                self.records.setdefault(r['n'], r)
                self.recq.setdefault(r['q'], []).append(r) \
                    if r['n'] not in [x['n'] for x in self.recq.get(r['q'], [])] \
                    else None
            for e in d['enums']:
                self.enums.setdefault(e['q'], e)
            for g in d['globals']:
                g['tu'] = tu
                if not any(x['q'] == g['q'] and x['l'] == g['l']
                           for x in self.globals):
                    self.globals.append(g)
        self._tags = None

    # ---- Syntax_Tags
    def tags(self):
        if self._tags is None:
            for q, e in self.enums.items():
                if q.endswith('Syntax_Tags::Tags'):
                    self._tags = {v: n for n, v in reversed(e['e'])}
                    self._tagv = {n: v for n, v in e['e']}
                    break
            else:
                raise Broken('enum Syntax_Tags::Tags not found')
        return self._tags

    def tagv(self, name):
        self.tags()
        return self._tagv[name]

    def fn(self, key, tu=None):
        if tu is not None and (tu, key) in self.fns:
            return self.fns[(tu, key)]
        return self.fns.get(key)

    def need(self, q):
        l = self.byq.get(q)
        if not l:
            raise Broken('anchor %s not found' % q)
        return l


def walk(n):
    """all dict nodes below n (pre-order)"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(reversed(list(x.values())))
        elif isinstance(x, list):
            st.extend(reversed(x))
