"""Deductive-verification engine: compiles a harness together with the REAL sources of /repo into a
goto program, instruments code contracts (goto-instrument --dfcc), discharges every obligation with
CBMC back ends (SAT / cvc5 / z3) and, on a failed obligation, replays the counterexample natively."""
import json, os, re, shutil, subprocess, sys, time, threading, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
HARN = os.path.join(VERIF, 'harness')
SOLVER_ARGS = {'sat': [], 'cadical': ['--sat-solver', 'cadical'], 'cvc5': ['--cvc5'], 'z3': ['--z3']}

class Job:
    def __init__(self, id, src, entry, **kw):
        self.id, self.src, self.entry = id, src, entry
        self.defs = list(kw.get('defs', []))        # -D options
        self.link = list(kw.get('link', []))        # further repo sources linked as separate units
        self.m32 = kw.get('m32', False)             # wasm32 data model (runtime library)
        self.enforce = list(kw.get('enforce', []))  # functions whose contract is enforced (proved)
        self.replace = list(kw.get('replace', []))  # functions replaced by their (elsewhere proved) contract
        self.loops = dict(kw.get('loops', {}))      # {file: [(func, loop index, annotation)]}
        self.unwind = kw.get('unwind')              # global unwind bound (with unwinding assertions)
        self.unwindset = list(kw.get('unwindset', []))
        self.checks = kw.get('checks', 'mem')       # mem | none | full
        self.solvers = list(kw.get('solvers', ['sat', 'cvc5']))
        self.timeout = kw.get('timeout', 120)
        self.bounded = kw.get('bounded')            # None: a proof; else text stating the bound
        self.funcs = list(kw.get('funcs', self.enforce))  # real functions under contract here
        self.fallback = kw.get('fallback')          # dict of overrides (a bounded stand-in) or None
        self.hunt = list(kw.get('hunt', []))        # further overrides of the stand-in, tried only to find a failing input
        self.native = kw.get('native', True)        # replay supported
        self.what = kw.get('what', '')
        self.remove_bodies = list(kw.get('remove_bodies', []))
        self.unreachable = list(kw.get('unreachable', []))  # functions proved not to be called (body replaced by assert(false))
        self.extra = list(kw.get('extra', []))      # extra cbmc args
        self.tier = kw.get('tier', 'quick')
        self.ignore = list(kw.get('ignore', []))    # regexes over property names that are not obligations
        self.restrict = list(kw.get('restrict', []))# goto-instrument --restrict-function-pointer
        self.kw = dict(kw)
    def derive(self, **over):
        kw = dict(self.kw); kw.update(over); kw.pop('fallback', None); kw.pop('hunt', None)
        for k in ('id', 'src', 'entry'): kw.pop(k, None)
        return Job(over.get('id', self.id + '.bounded'), over.get('src', self.src), over.get('entry', self.entry), **kw)

class Result:
    def __init__(self, job):
        self.job = job; self.status = None; self.obligations = 0; self.discharged = 0; self.failed = []
        self.reach = 0; self.solver = ''; self.solver_s = 0.0; self.why = ''; self.output = ''
        self.inputs = {}; self.confirmed = None; self.replay_out = ''; self.fallback_of = None; self.props = []

import ctypes, signal
_libc = ctypes.CDLL(None)
def die_with_parent(): _libc.prctl(1, signal.SIGKILL)

def sh(cmd, timeout=None, cwd=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env, start_new_session=True, preexec_fn=die_with_parent)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.communicate()
        return -999, 'timeout'

# ---------------------------------------------------------------- source preparation
from extract import prepare_sources, annotate_loops, ExtractError

class Engine:
    def __init__(self, prop):
        self.prop = prop
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % prop, dir='/tmp')
        self.src = os.path.join(self.dir, 'src')
        prepare_sources(REPO, self.src)
        self.lock = threading.Lock()
        self.n = 0; self.objs = {}
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
    def srcdir_for(self, job, wd):
        """verbatim copy of the sources, plus loop invariants inserted for this job"""
        if not job.loops: return self.src
        d = os.path.join(wd, 'src')
        shutil.copytree(self.src, d, symlinks=True)
        for f, anns in job.loops.items():
            p = os.path.join(d, f)
            t = open(p, encoding='latin-1').read()
            t = annotate_loops(t, anns)
            open(p, 'w', encoding='latin-1').write(t)
        return d
    def cc_args(self, job, srcd):
        a = ['-I', HARN]
        if job.m32: a += (['-DVF_WIDE'] if job.m32 == 'wide' else ['-m32']) + ['-nostdinc', '-I', os.path.join(HARN, 'libshim'), '-I', os.path.join(srcd, 'lib', 'inc'), '-I', os.path.join(srcd, 'lib', 'src')]
        else: a += ['-I', srcd]
        return a + ['-D' + d for d in job.defs]
    def compiled(self, job, srcd):
        """goto-cc of harness + real sources, shared by the jobs that differ in the entry function only"""
        key = json.dumps([job.src, job.defs, job.link, job.m32, sorted(job.loops.items())])
        with self.lock:
            ent = self.objs.setdefault(key, [threading.Lock(), None])
            k = list(self.objs).index(key)
        with ent[0]:
            if ent[1] is None:
                obj = os.path.join(self.dir, 'c%d.gb' % k)
                srcs = [os.path.join(HARN, job.src)] + [os.path.join(srcd, s) if not s.startswith('@') else os.path.join(HARN, s[1:]) for s in job.link]
                rc, out = sh(['goto-cc', '-DVF_PROVE'] + self.cc_args(job, srcd) + srcs + ['-o', obj], timeout=120)
                ent[1] = (obj, '') if rc == 0 else (None, 'goto-cc: ' + out[-3000:])
        return ent[1]
    def build(self, job, wd, srcd):
        a = os.path.join(wd, 'a.gb')
        obj, err = self.compiled(job, srcd)
        if obj is None: return None, err
        rc, out = sh(['goto-cc', '--function', job.entry, obj, '-o', a], timeout=120)
        if rc != 0: return None, 'goto-cc: ' + out[-3000:]
        cur = a
        if job.restrict:
            r = os.path.join(wd, 'r.gb')
            cmd = ['goto-instrument']
            for s in job.restrict: cmd += ['--restrict-function-pointer', s]
            rc, out = sh(cmd + [cur, r], timeout=120)
            if rc != 0: return None, 'restrict: ' + out[-2000:]
            cur = r
        blob = open(a, 'rb').read() if job.unreachable or job.remove_bodies else b''
        unreachable = [n for n in job.unreachable if n.encode() in blob]
        remove_bodies = [n for n in job.remove_bodies if n.encode() in blob]
        if remove_bodies:
            r = os.path.join(wd, 'rb.gb'); cmd = ['goto-instrument']
            for s in remove_bodies: cmd += ['--remove-function-body', s]
            rc, out = sh(cmd + [cur, r], timeout=120)
            if rc != 0: return None, 'remove-body: ' + out[-2000:]
            cur = r
        if unreachable:
            r = os.path.join(wd, 'ur.gb'); r2 = os.path.join(wd, 'ur2.gb'); cmd = ['goto-instrument']
            for s in unreachable: cmd += ['--remove-function-body', s]
            rc, out = sh(cmd + [cur, r], timeout=120)
            if rc != 0: return None, 'remove-body: ' + out[-2000:]
            rc, out = sh(['goto-instrument', '--generate-function-body', '|'.join(unreachable), '--generate-function-body-options', 'assert-false-assume-false', r, r2], timeout=120)
            if rc != 0: return None, 'generate-body: ' + out[-2000:]
            cur = r2
        if job.enforce or job.replace or job.loops:
            b = os.path.join(wd, 'b.gb')
            cmd = ['goto-instrument', '--dfcc', job.entry]
            for f in job.enforce:
                if f.startswith('rec:'): cmd += ['--enforce-contract-rec', f[4:]]
                else: cmd += ['--enforce-contract', f]
            for f in job.replace: cmd += ['--replace-call-with-contract', f]
            if job.loops: cmd += ['--apply-loop-contracts']
            rc, out = sh(cmd + [cur, b], timeout=300)
            if rc != 0: return None, 'goto-instrument: ' + out[-3000:]
            cur = b
        else:
            b = os.path.join(wd, 'b.gb')
            rc, out = sh(['goto-instrument', '--drop-unused-functions', '--slice-global-inits', cur, b], timeout=120)
            if rc != 0: return None, 'goto-instrument: ' + out[-3000:]
            cur = b
        return cur, ''
    def cbmc_args(self, job):
        a = []
        if job.checks == 'none': a += ['--no-standard-checks', '--unwinding-assertions']
        elif job.checks == 'mem': a += ['--no-signed-overflow-check', '--no-undefined-shift-check', '--no-pointer-primitive-check', '--unwinding-assertions']
        elif job.checks == 'memdiv': a += ['--no-undefined-shift-check', '--no-pointer-primitive-check', '--unwinding-assertions']
        elif job.checks == 'full': a += ['--unwinding-assertions']
        if job.unwind: a += ['--unwind', str(job.unwind)]
        for u in job.unwindset: a += ['--unwindset', u]
        return a + job.extra
    def solve(self, job, gb, extra, timeout):
        """staged portfolio; returns (parsed json result list or None, solver, seconds, raw)"""
        procs = []; t0 = time.time(); outs = {}
        stage = 0; res = None; raws = ''
        nxt = t0
        try:
            while True:
                now = time.time()
                if stage < len(job.solvers) and now >= nxt:
                    s = job.solvers[stage]; stage += 1; nxt = now + 6
                    f = tempfile.NamedTemporaryFile(dir=os.path.dirname(gb), delete=False)
                    p = subprocess.Popen(['cbmc'] + (['--json-ui'] if '--trace' in extra else ['--verbosity', '6']) + SOLVER_ARGS[s] + self.cbmc_args(job) + extra + [gb],
                                         stdout=f, stderr=subprocess.DEVNULL, start_new_session=True, preexec_fn=die_with_parent)
                    procs.append((s, p, f, now))
                for it in list(procs):
                    s, p, f, ts = it
                    if p.poll() is not None:
                        procs.remove(it); f.close()
                        raw = open(f.name, encoding='utf8', errors='replace').read()
                        os.unlink(f.name)
                        r = parse_cbmc(raw) if '--trace' in extra else parse_text(raw)
                        if r is not None and not any(x.get('status') in ('ERROR', 'UNKNOWN') for x in r):
                            return r, s, time.time() - ts, raw
                        raws += '[%s rc=%s] ' % (s, p.returncode) + raw[-1500:] + '\n'
                        nxt = now
                if not procs and stage >= len(job.solvers): return None, '', time.time() - t0, raws or 'no answer'
                if now - t0 > timeout: return None, '', now - t0, raws + 'timeout after %ds' % timeout
                time.sleep(0.03)
        finally:
            for s, p, f, ts in procs:
                try: os.killpg(p.pid, 9)
                except OSError: pass
                p.wait()
    def run(self, job):
        R = Result(job)
        with self.lock: self.n += 1; k = self.n
        wd = os.path.join(self.dir, 'j%d' % k); os.makedirs(wd)
        try:
            try: srcd = self.srcdir_for(job, wd)
            except ExtractError as e:
                R.status = 'structural'; R.why = 'annotation: %s' % e; return R
            gb, err = self.build(job, wd, srcd)
            if gb is None:
                R.status = 'structural'; R.why = err; return R
            res, solver, secs, raw = self.solve(job, gb, [], job.timeout)
            R.solver, R.solver_s = solver, secs
            if res is None:
                R.status = 'unknown'; R.why = raw[-1500:]; return R
            unw = []
            for x in res:
                name, d, st = x['property'], x.get('description', ''), x['status']
                if d.startswith('REACH '):
                    if st == 'FAILURE': R.reach += 1
                    else: R.status = 'vacuous'; R.why = 'unreachable: ' + d
                    continue
                if any(re.search(i, name) or re.search(i, d) for i in job.ignore): continue
                if job.checks == 'memdiv' and re.search(r'arithmetic overflow on signed (\+|-|\*|unary|shl|type)', d): continue
                R.obligations += 1
                if st == 'SUCCESS': R.discharged += 1
                elif '.unwind.' in name or 'recursion unwinding' in d: unw.append(x)
                else: R.failed.append({'property': name, 'description': d, 'loc': (x.get('sourceLocation') or {})})
            R.props = [x['property'] for x in res if not x.get('description', '').startswith('REACH ')]
            if R.status == 'vacuous' and not R.failed: return R
            R.status = None
            if R.failed:
                R.status = 'failed'
                self.explain(job, R, gb, wd, srcd)
            elif unw:
                R.status = 'structural'; R.why = 'unwinding bound insufficient: ' + ', '.join(x['property'] for x in unw[:4])
            elif R.obligations == 0 or R.reach == 0:
                R.status = 'vacuous'; R.why = 'no obligations' if not R.obligations else 'no reachability mark'
            else: R.status = 'ok'
            return R
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    def explain(self, job, R, gb, wd, srcd):
        """counterexample inputs for the failed obligations and native replay on the real code"""
        order = sorted(R.failed, key=lambda f: 0 if f['description'].startswith('CHECK') else 1 if 'postcondition' in f['property'] else 2)
        for f in order[:4]:
            res, s, secs, raw = self.solve(job, gb, ['--trace', '--property', f['property']], min(job.timeout, 60))
            R.solver_s += secs
            if not res: continue
            tr = next((x.get('trace') for x in res if x['property'] == f['property'] and x.get('trace')), None)
            if tr is None: continue
            inp = trace_inputs(tr)
            if not R.inputs: R.inputs = inp; R.failed_named = f
            if not job.native: return
            ok, out = self.replay(job, inp, wd, srcd)
            R.replay_out = out
            if ok:
                R.confirmed = True; R.inputs = inp; R.failed_named = f
                return
        R.confirmed = False
    def replay(self, job, inputs, wd, srcd):
        inf = os.path.join(wd, 'inputs.txt')
        with open(inf, 'w') as fh:
            for k, v in inputs.items(): fh.write('%s %s\n' % (k, v))
        from replay import build_native
        return build_native(self, job, inf, wd, self.src)

def parse_cbmc(raw):
    try: js = json.loads(raw)
    except Exception: return None
    for o in js:
        if isinstance(o, dict) and 'result' in o: return o['result']
    return None

def parse_text(raw):
    """plain-text results (the JSON interface would build a trace of every reachability mark)"""
    out = []; fl = ''; done = False
    if '** Results:' not in raw: return None
    for ln in raw[raw.index('** Results:'):].split('\n'):
        m = re.match(r'(\S+) function (\S+)$', ln)
        if m: fl = m.group(1); continue
        m = re.match(r'\[([^\]]+)\] (?:file (\S+) )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$', ln)
        if m: out.append({'property': m.group(1), 'description': m.group(4), 'status': m.group(5), 'sourceLocation': {'file': m.group(2) or fl, 'line': m.group(3) or ''}})
        elif ln.startswith('['): return None   # never skip an obligation silently
        m = re.match(r'\*\* (\d+) of (\d+) failed', ln)
        if m: done = int(m.group(2)) == len(out)
    return out if done else None

def val_bytes(v):
    """little-endian hex of a CBMC trace value"""
    if v is None: return None
    if 'binary' in v:
        b = v['binary']
        n = len(b)
        if n % 8: b = b.rjust((n + 7) // 8 * 8, '0'); n = len(b)
        return bytes(int(b[i:i+8], 2) for i in range(0, n, 8))[::-1].hex()
    if 'elements' in v:
        return ''.join(val_bytes(e['value']) or '' for e in v['elements'])
    if v.get('name') == 'boolean' or isinstance(v.get('data'), bool): return '01' if v.get('data') in (True, 'TRUE', 'true') else '00'
    return None

def trace_inputs(tr):
    scal, arr = {}, {}
    for st in tr:
        if st.get('stepType') != 'assignment': continue
        lhs = st.get('lhs', '')
        m = re.match(r'^(in_\w+)(?:\[(\d+)l*\])?$', lhs, re.I)
        if not m: continue
        hx = val_bytes(st.get('value'))
        if hx is None: continue
        if m.group(2) is None: scal[m.group(1)] = hx
        else: arr.setdefault(m.group(1), {})[int(m.group(2))] = hx
    for n, d in arr.items():
        w = max(len(x) for x in d.values())
        base = scal.get(n, '')
        k = max(max(d) + 1, len(base) // w if base else 0)
        scal[n] = ''.join(d.get(i, base[i*w:(i+1)*w] or '0' * w) for i in range(k))
    return scal
