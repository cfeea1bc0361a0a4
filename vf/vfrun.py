"""Runs contract proof units over /repo's current sources with CBMC.

A unit is one harness + contracts file in /verif/units, the real /repo sources it
is linked with, the functions whose contract is enforced/replaced
(goto-instrument --dfcc), and the bounds used for the loops that are unrolled
(always with unwinding assertions, so an unrolled loop is complete or reported).
"""
import copy
import json, os, re, resource, shlex, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(REPO, 'src')
MEM = int(os.environ.get('VF_MEM_GB', '9')) << 30

# every automatic check CBMC generates for these classes is an obligation
CHECKS = ['--no-standard-checks', '--pointer-check', '--bounds-check', '--undefined-shift-check',
          '--signed-overflow-check', '--div-by-zero-check']
# language-level undefinedness that need not be observable: must be confirmed natively to count
SOFT = re.compile(r'\.(overflow|undefined-shift|pointer_arithmetic|division-by-zero|pointer)\.\d+$')
UNWIND = re.compile(r'\.(unwind|recursion)\.\d+$|\.no-body\.|recursion unwinding')


class Unit:
    def __init__(self, name, file, srcs, defs=(), enforce=(), replace=(), unwind=8, unwindset=(), cbmc=(),
                 kind='proof', timeout=300, cuts=(), dfcc=None, native_srcs=None, restrict=(), hang=False,
                 contracts=(), bound=None, weight=1, union=False, reach=True, tier='quick', native=True,
                 cflags=(), entry='harness', checks=None, slow=None, replace_note=None, inc=(), drop=(), alts=()):
        self.__dict__.update(locals())
        del self.__dict__['self']
        self.contracts = list(contracts) or list(enforce)   # functions this unit puts under contract


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.RLIM_INFINITY))
    except Exception:
        pass


def sh(cmd, timeout, cwd=None, env=None):
    t = time.time()
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env,
                             preexec_fn=lambda: (os.setsid(), limits()) and None)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except Exception:
                pass
            out, _ = p.communicate()
            rc = 'timeout'
    except Exception as e:
        return 'error', str(e), time.time() - t
    return rc, out.decode('utf-8', 'replace'), time.time() - t


DEF = re.compile(r'^(?!static\b)[A-Za-z_][A-Za-z0-9_ \t\*]*?\b([A-Za-z_]\w*)[ \t]*\(([^;{}]*)\)\s*\{', re.M)
NOTSRC = re.compile(r'_test\.|\.dummy\.|\.test\.|_checkmk|^_module')


def src_defs():
    """non-static functions defined in each library source of the current tree"""
    out = {}
    for f in sorted(os.listdir(SRC)):
        if f.endswith('.c') and not NOTSRC.search(f):
            txt = re.sub(r'/\*.*?\*/|//[^\n]*', ' ', open(os.path.join(SRC, f), errors='replace').read(), flags=re.S)
            out[f] = {m.group(1) for m in DEF.finditer(txt)} - {'if', 'while', 'for', 'switch'}
    return out


class Ctx:
    """scratch area of one check run"""
    def __init__(self, scratch):
        self.scratch = scratch
        self.inc = os.path.join(scratch, 'inc')
        os.makedirs(scratch, exist_ok=True)
        shutil.copytree(os.path.join(REPO, 'include'), self.inc)
        self.notes = []
        p = os.path.join(self.inc, 'metac/backend/entry.h')
        s = open(p).read()
        m = re.search(r'struct\s+metac_entry\s*\{', s)
        # CBMC 6.11 loses points-to information for pointers read out of this union (reads become
        # "invalid object"): the verified text gives every arm its own storage.  Harness builders
        # fill all arms that share an initial "type" field.  Native replay uses the untouched header.
        if m and len(re.findall(r'\bunion\s*\{', s[m.start():])) == 1:
            s = s[:m.start()] + re.sub(r'\bunion(\s*\{)', r'struct\1', s[m.start():], count=1)
            open(p, 'w').write(s)
        else:
            self.notes.append('struct metac_entry: union layout not recognised, header used as is')
        open(os.path.join(scratch, 'vfin.c'), 'w').write('unsigned long vf_in;\n')
        self.defs = src_defs()
        self.base = json.load(open(os.path.join(VERIF, 'vf', 'baseline.json')))
        self.lock = threading.Lock()
        self.lib = None

    def moved(self, u):
        """sources to link in addition because code of the unit's sources was moved there since the contracts were written"""
        have = set(u.srcs) | set(u.inc)
        mine = {f for x in have for f in self.base.get(x, [])}
        known = {f for v in self.base.values() for f in v}
        return [x for x, fs in self.defs.items() if x not in have and (x not in self.base or fs & mine or
                (fs - known and have & set(self.base)))]

    def archive(self):
        """all library sources, for functions a native build needs from files it does not name"""
        with self.lock:
            if self.lib is None:
                d = os.path.join(self.scratch, 'lib')
                os.makedirs(d)
                objs = []
                ps = []
                for f in self.defs:
                    o = os.path.join(d, f + '.o')
                    ps.append(subprocess.Popen(['gcc', '-g', '-O0', '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-ffunction-sections', '-fdata-sections',
                                                '-I' + os.path.join(REPO, 'include'), '-I' + SRC, '-c', os.path.join(SRC, f), '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
                    objs.append(o)
                for q in ps:
                    q.wait()
                self.lib = os.path.join(d, 'all.a')
                subprocess.run(['ar', 'rcs', self.lib] + [o for o in objs if os.path.exists(o)], stdout=subprocess.DEVNULL)
            return self.lib

    def incs(self, unit):
        inc = os.path.join(REPO, 'include') if unit.union else self.inc
        return ['-I' + os.path.join(VERIF, 'vf'), '-I' + os.path.join(VERIF, 'units'), '-I' + inc, '-I' + SRC]


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.status = 'undecided'      # discharged | failed | undecided
        self.why = ''
        self.obligations = 0
        self.discharged = 0
        self.failed = []               # (id, description, location)
        self.soft = []
        self.reach = {}
        self.solver_s = 0.0
        self.wall_s = 0.0
        self.out = ''
        self.cmd = ''
        self.confirmed = None          # (replay file, text)
        self.dir = None
        self.notes = []


LINE = re.compile(r'^\[([^\]]+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$')


def build(ctx, u, d, defs=()):
    os.makedirs(d, exist_ok=True)
    base = ['-DVF_CBMC'] + ctx.incs(u) + list(u.defs) + list(u.cflags)
    objs = []
    log = ''
    files = [os.path.join(VERIF, 'units', u.file)]
    from cuts import apply_cuts
    cutmap, cnotes, err = apply_cuts(ctx, u, d)
    if err:
        return None, 'loop annotation: ' + err, cnotes
    for s in u.srcs:
        files.append(cutmap.get(s) or os.path.join(SRC, s))
    more = ctx.moved(u)
    if more:
        cnotes = cnotes + ['also linked, holds moved or new code: ' + ', '.join(more)]
        files += [os.path.join(SRC, s) for s in more]
    base += inc_defs(u, cutmap)
    for i, f in enumerate(files):
        o = os.path.join(d, '%d_%s.gb' % (i, os.path.basename(f)))
        extra = ['-I' + d] if cutmap else []
        rc, out, _ = sh(['goto-cc'] + extra + base + list(defs) + ['-c', f, '-o', o], 120)
        log += out
        if rc != 0:
            return None, 'goto-cc %s failed: %s' % (f, out[-2000:]), cnotes
        # callees checked against their contract: the harness stands in for them
        gone = [x for x in u.drop if i > 0 and x in ctx.defs.get(os.path.basename(f), ())]
        if gone:
            o2 = o + '.d'
            rc, out, _ = sh(['goto-instrument'] + [y for x in gone for y in ('--remove-function-body', x)] + [o, o2], 60)
            if rc != 0:
                return None, 'goto-instrument failed: ' + out[-2000:], cnotes
            o = o2
        objs.append(o)
    a = os.path.join(d, 'a.gb')
    v = os.path.join(d, 'vfin.gb')
    rc, out, _ = sh(['goto-cc', '-c', os.path.join(ctx.scratch, 'vfin.c'), '-o', v], 60)
    rc, out, _ = sh(['goto-cc', '--function', u.entry] + objs + [v, '-o', a], 120)
    if rc != 0:
        return None, 'link failed: ' + out[-2000:], cnotes
    if u.restrict:
        b = os.path.join(d, 'r.gb')
        rc, out, _ = sh(['goto-instrument'] + list(u.restrict) + [a, b], 120)
        if rc != 0:
            return None, 'goto-instrument failed: ' + out[-2000:], cnotes
        a = b
    if u.enforce or u.replace:
        b = os.path.join(d, 'b.gb')
        cmd = ['goto-instrument', '--dfcc', u.entry]
        for f in u.enforce:
            cmd += ['--enforce-contract', f]
        for f in u.replace:
            cmd += ['--replace-call-with-contract', f]
        rc, out, _ = sh(cmd + [a, b], 300)
        if rc != 0:
            return None, 'goto-instrument --dfcc failed: ' + out[-2000:], cnotes
        a = b
    return a, '', cnotes


def inc_defs(u, cutmap={}):
    """sources the harness includes (to reach static functions and private types): #include SRC_name"""
    return ['-DSRC_%s="%s"' % (s[:-2], cutmap.get(s) or os.path.join(SRC, s)) for s in u.inc]


def cbmc_cmd(u, a, unwind):
    cmd = ['cbmc', a] + (list(u.checks) if u.checks is not None else CHECKS) + ['--no-malloc-may-fail', '--unwind', str(unwind), '--unwinding-assertions']
    if '--sat-solver' not in u.cbmc and '--cvc5' not in u.cbmc:
        cmd += ['--sat-solver', 'cadical']
    if u.unwindset:
        cmd += ['--unwindset', ','.join(u.unwindset)]
    return cmd + list(u.cbmc)


def run_unit(ctx, u, deadline):
    """alts: other invariants for the same contract; the contract holds when one set of invariants is inductive"""
    r = run_unit1(ctx, u, deadline)
    for i, alt in enumerate(u.alts):
        if r.status == 'discharged':
            break
        v = copy.copy(u)
        v.defs = list(u.defs) + list(alt)
        v.name = '%s alternative %d' % (u.name, i + 1)
        q = run_unit1(ctx, v, deadline)
        if q.status == 'discharged':
            q.unit = u
            q.notes.append('with alternative invariants ' + ' '.join(alt))
            return q
    return r


def run_unit1(ctx, u, deadline):
    r = Result(u)
    t0 = time.time()
    d = os.path.join(ctx.scratch, re.sub(r'[^A-Za-z0-9_.-]', '_', u.name))
    r.dir = d
    try:
        a, err, notes = build(ctx, u, d)
        r.notes += notes
        if a is None:
            r.why = err
            return r
        unwind = u.unwind
        for attempt in (0, 1, 2):
            left = min(u.timeout, deadline - time.time())
            if left < 5:
                r.why = 'no time left'
                return r
            cmd = cbmc_cmd(u, a, unwind)
            r.cmd = ' '.join(shlex.quote(c) for c in cmd)
            rc, out, el = sh(cmd, left)
            r.out = out
            r.solver_s += el
            r.failed, r.soft = [], []
            if rc == 'timeout':
                r.why = 'cbmc exceeded %d s' % left
                return r
            if rc not in (0, 10):
                r.why = 'cbmc ended with %s: %s' % (rc, out[-400:])
                return r
            parse(r, out)
            uw = [f for f in r.failed if UNWIND.search(f[0])]
            real = [f for f in r.failed if not UNWIND.search(f[0])]
            if uw and not real and attempt < 2:
                unwind = unwind * 2 + 2
                r.notes.append('unwind raised to %d' % unwind)
                continue
            break
        if uw and not real:
            r.status = 'undecided'
            r.why = 'loops not covered by unwind %d: %s' % (unwind, ', '.join(f[0] for f in uw))
            r.failed, r.soft = [], []
            return r
        r.failed = real
        ent = [f for f in real if f[1].startswith('VF:entry invariant of')]
        if ent:
            # the loop starts in another state than the invariant describes (its variables play other roles): no statement about the code
            r.status = 'undecided'
            r.why = ent[0][1][3:] + ' does not fit the loop as written'
            r.failed, r.soft = [], []
            return r
        unreached = [k for k, v in r.reach.items() if not v and r.unit.reach]
        if r.obligations == 0:
            r.why = 'no obligations generated'
            return r
        if r.failed:
            r.status = 'failed'
        elif unreached:
            r.status = 'undecided'
            r.why = 'vacuity guard: not reachable: ' + ', '.join(unreached)
        else:
            r.status = 'discharged'
        return r
    finally:
        r.wall_s = time.time() - t0
        r.unwind_used = locals().get('unwind', u.unwind)


def parse(r, out):
    r.obligations = r.discharged = 0
    r.failed, r.soft, r.reach = [], [], {}
    loc = ''
    for ln in out.splitlines():
        m = LINE.match(ln)
        if not m:
            if ' function ' in ln:
                loc = ln.strip()
            continue
        pid, line, desc, st = m.groups()
        if desc.startswith('VFREACH:'):
            k = desc[8:]
            r.reach[k] = r.reach.get(k, False) or st == 'FAILURE'
            continue
        if 'assertion.' in pid and 'undefined function should be unreachable' in desc:
            pass
        r.obligations += 1
        if st == 'SUCCESS':
            r.discharged += 1
        else:
            item = (pid, desc, '%s line %s' % (loc, line), st)
            (r.soft if SOFT.search(pid) else r.failed).append(item)


# ---------------------------------------------------------------- native replay

def native_build(ctx, u, d, tag='', opt='-O0'):
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, 'replay' + tag)
    srcs = [os.path.join(SRC, s) for s in (u.native_srcs if u.native_srcs is not None else u.srcs)]
    srcs += [os.path.join(SRC, s) for s in ctx.moved(u)]
    cmd = ['gcc', '-g', opt, '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-ffunction-sections', '-fdata-sections',
           '-I' + os.path.join(VERIF, 'vf'), '-I' + os.path.join(VERIF, 'units'), '-I' + os.path.join(REPO, 'include'), '-I' + SRC]
    cmd += list(u.defs) + list(u.cflags) + inc_defs(u) + [os.path.join(VERIF, 'units', u.file), os.path.join(VERIF, 'vf', 'native.c')] + srcs
    cmd += [ctx.archive(), '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', '-lm', '-o', exe]
    rc, out, _ = nsh(cmd, 120)
    return (exe if rc == 0 else None), out, cmd


def nsh(cmd, timeout, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env,
                           start_new_session=True)
        return p.returncode, p.stdout.decode('utf-8', 'replace'), 0
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf-8', 'replace'), 0


def inputs_from_trace(js):
    vals = []
    try:
        data = json.loads(js)
    except Exception:
        return None
    for item in data:
        for key in ('result',):
            if key in item:
                for pr in item[key]:
                    if pr.get('status') == 'FAILURE' and 'trace' in pr and not pr.get('description', '').startswith('VFREACH'):
                        return vals_of(pr['trace'])
        if 'trace' in item:
            return vals_of(item['trace'])
    return None


def vals_of(trace):
    vals = []
    for s in trace:
        if s.get('stepType') == 'assignment' and s.get('lhs') == 'vf_in' and not s.get('hidden', False) \
                and s.get('sourceLocation', {}).get('function') == 'vf_u64':
            b = s['value'].get('binary')
            vals.append(int(b, 2) if b else int(re.sub(r'[^0-9]', '', s['value'].get('data', '0')) or 0))
    return vals


ASAN = 'exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1'


def run_native(u, exe, inp, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS=ASAN)
    rc, out, _ = nsh([exe, inp], timeout, env)
    bad = None
    if rc == 42:
        bad = 'contract violated'
    elif rc == 99:
        bad = 'memory error (AddressSanitizer)'
    elif rc == 'timeout':
        bad = 'does not terminate' if u.hang else None
    elif isinstance(rc, int) and rc < 0:
        bad = 'crash (signal %d)' % -rc
    return bad, rc, out


def run_sampled(ctx, u, deadline, seed, count=20000, secs=20):
    """native pseudo-random execution of a harness: bounded stand-in where CBMC cannot decide, and last-resort refuter"""
    r = Result(u)
    t0 = time.time()
    r.dir = os.path.join(ctx.scratch, re.sub(r'[^A-Za-z0-9_.-]', '_', u.name) + '_s')
    exe, out, ncmd = native_build(ctx, u, r.dir)
    if exe is None:
        r.why = 'native build failed: ' + out[-400:]
        return r
    env = dict(os.environ, ASAN_OPTIONS=ASAN)
    rc, out, _ = nsh([exe, '--rand', str(seed), str(count), str(secs)], secs * 3 + 20, env)
    r.cmd = ' '.join(ncmd) + ' && replay --rand %d %d' % (seed, count)
    r.out = out
    m = re.search(r'^INPUTS:(.*)$', out, re.M)
    if rc == 0:
        n = int(re.search(r'SAMPLED (\d+)', out).group(1))
        r.sampled = n
        r.status = 'sampled' if n else 'undecided'
        r.why = '%d pseudo-random executions, no violation' % n
    elif rc in (42, 99) or (isinstance(rc, int) and rc < 0) or (rc == 'timeout' and u.hang):
        r.status = 'failed'
        bad = 'contract violated' if rc == 42 else 'memory error (AddressSanitizer)' if rc == 99 else 'crash or hang (%s)' % rc
        k = re.search(r'CONTRACT-VIOLATED: (.*)', out)
        f = ('native', k.group(1) if k else bad, '', 'FAILURE')
        r.failed = [f]
        r.confirmed = (f, [int(x) for x in m.group(1).split()] if m else [], bad, rc, out, ncmd)
    else:
        r.why = 'native run ended with %s' % rc
    r.wall_s = time.time() - t0
    return r


def replay(ctx, r, deadline, maxprops=6):
    """get a counterexample for each failed obligation and run it on the real code"""
    u = r.unit
    if not u.native:
        return
    exe, out, ncmd = native_build(ctx, u, r.dir)
    if exe is None:
        r.notes.append('native replay does not build: ' + out[-500:])
        return
    a = os.path.join(r.dir, 'b.gb' if (u.enforce or u.replace) else ('r.gb' if u.restrict else 'a.gb'))
    order = sorted(r.failed + r.soft, key=lambda f: (0 if 'VF:' in f[1] else 1 if 'postcondition' in f[0] else 2))
    for f in order[:maxprops]:
        left = min(u.timeout, deadline - time.time())
        if left < 5:
            return
        cmd = cbmc_cmd(u, a, getattr(r, 'unwind_used', u.unwind)) + ['--property', f[0], '--trace', '--json-ui']
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=lambda: (os.setsid(), limits()) and None)
            js = p.communicate(timeout=left)[0].decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            continue
        vals = inputs_from_trace(js)
        if vals is None:
            continue
        inp = os.path.join(r.dir, 'inputs_%s.txt' % re.sub(r'\W', '_', f[0]))
        open(inp, 'w').write('\n'.join(str(v) for v in vals) + '\n')
        bad, rc, out = run_native(u, exe, inp)
        if bad:
            r.confirmed = (f, vals, bad, rc, out, ncmd)
            return
        r.notes.append('obligation %s: counterexample does not reproduce natively (rc=%s)' % (f[0], rc))
