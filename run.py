#!/usr/bin/env python3
"""Runs the checks.  usage: run.py PROPERTY [quick|thorough] | run.py --unit NAME | run.py --setup

For every unit of the property:
  1. goto-cc compiles the real files of /repo together with the unit's contracts
     (nothing is extracted or rewritten; callees are replaced by their contracts
     at link level with goto-instrument --replace-calls where the unit says so);
  2. cbmc generates and discharges every obligation (deciding step);
  3. the same contracts are compiled natively (gcc, ASan+UBSan) against the same
     files: a bounded stand-in, used to find and replay a concrete failing input.
Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: nothing could be decided.
"""
import sys, os, re, json, subprocess, time, shutil, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
from registry import UNITS, PROPS

INC = ['-I' + HERE + '/include', '-I' + HERE + '/lib'] + ['-I%s/src/%s' % (REPO, d) for d in (
    'common', 'lve', 'tool', 'decryptors/include', 'decryptors/default/src', 'encrypt_decrypt',
    'license_managers/include', 'obfuscators/include', 'embedfile', 'packagetool')]
MEM_KB = 9 * 1024 * 1024

def sh(cmd, timeout, env=None, mem=MEM_KB, cwd=None):
    """returns (rc, stdout, stderr, seconds); rc None on timeout"""
    t = time.time()
    full = ['bash', '-c', 'ulimit -v %d; exec "$@"' % mem, 'x'] + cmd if mem else cmd
    p = subprocess.Popen(full, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
                         start_new_session=True, text=True, errors='replace')
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e, time.time() - t
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return None, o, e, time.time() - t

def redirect_flags(u):
    r = ['-Dmalloc=vp_malloc', '-Dcalloc=vp_calloc', '-Drealloc=vp_realloc', '-Dstrdup=vp_strdup'] if u.get('alloc', True) else []
    if not u.get('release'): r += ['-D%s=%s' % (n, 'vp_cleanse_t' if 'memset' in u.get('redirect', []) else 'vp_cleanse') for n in ('OPENSSL_cleanse', 'explicit_bzero')]
    for x in u.get('redirect', []):
        r.append('-D' + (x if '=' in x else '%s=vp_%s' % (x, x)))
    return r

class Result(dict):
    __getattr__ = dict.get

def compile_cbmc(u, d):
    """repo files and contracts to goto binary; returns (path or None, log, missing)"""
    objs, log = [], ''
    mode = ['-DVP_CBMC_MODE', '-DVP_PROOF', '-DVP_ENTRY=' + u['entry']] + u.get('defs', []) + u.get('proof_defs', [])
    mode += ['-DSEMLA_VERIF'] + (['-DVP_LOOPS_H="%s/%s"' % (HERE, u['loops_h'])] if u.get('loops_h') else [])
    jobs = []
    for f in u['repo']:
        o = os.path.join(d, f.replace('/', '_') + '.gb')
        extra = u.get('file_defs', {}).get(f, []) + u.get('proof_file_defs', {}).get(f, [])
        jobs.append((['goto-cc', '-c', '-o', o] + mode + redirect_flags(u) + extra + INC + [REPO + '/src/' + f], o))
    for f in ['lib/vp.c', 'lib/libc_models.c'] + u.get('lib', []) + [u['harness']]:
        o = os.path.join(d, 'V_' + f.replace('/', '_') + '.gb')
        jobs.append((['goto-cc', '-c', '-o', o] + mode + INC + [os.path.join(HERE, f)], o))
    for c, o in jobs:
        rc, so, se, _ = sh(c, 120)
        if rc != 0:
            return None, ' '.join(c) + '\n' + so + se
        objs.append(o)
    g = os.path.join(d, 'u.gb')
    rc, so, se, _ = sh(['goto-cc', '-o', g] + objs, 120)
    if rc != 0:
        return None, so + se
    log = so + se
    for k, v in u.get('replace', {}).items():
        g2 = os.path.join(d, 'r_%s.gb' % k)
        rc, so, se, _ = sh(['goto-instrument', '--replace-calls', '%s:%s' % (k, v), g, g2], 120)
        if rc != 0:
            return None, so + se
        g = g2
    if u.get('late'):
        # linked after the replacement: the harness reaches the real body of a recursive function through it
        o = os.path.join(d, 'late.gb'); g2 = os.path.join(d, 'l.gb')
        rc, so, se, _ = sh(['goto-cc', '-c', '-o', o] + mode + INC + [os.path.join(HERE, u['late'])], 120)
        if rc == 0: rc, so, se, _ = sh(['goto-cc', '-o', g2, g, o], 120)
        if rc != 0: return None, so + se
        g = g2
    for a in u.get('instrument', []):
        g2 = g + 'i.gb'
        rc, so, se, _ = sh(['goto-instrument'] + a + [g, g2], 300)
        log += so + se
        if rc != 0:
            return None, so + se
        g = g2
    return g, log

def parse_json(o):
    try:
        return json.loads(o)
    except Exception:
        pass
    # truncated (killed): nothing usable
    return None

def parse_text(o):
    """the Results section of cbmc's output (no traces are built in this mode)"""
    if '** Results:' not in o: return None
    res, fn, fl = [], '', ''
    for l in o.split('** Results:', 1)[1].splitlines():
        m = re.match(r'\[([^\]]+)\] (?:file (\S+) )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$', l)
        if m:
            res.append({'property': m.group(1), 'description': m.group(4), 'status': m.group(5), 'sourceLocation': {'file': m.group(2) or fl, 'line': m.group(3) or '?', 'function': fn}})
            continue
        m = re.match(r'(.*) function (\S+)$', l)
        if m: fl, fn = m.group(1), m.group(2)
    return res

def cbmc_run(u, g, unwind, extra, timeout):
    cmd = ['cbmc', g, '--function', u['entry'], '--drop-unused-functions', '--no-malloc-may-fail',
           '--unwind', str(unwind), '--verbosity', '8'] + (['--json-ui'] if '--trace' in extra else []) + extra + u.get('cbmc', [])
    uw = dict(u.get('unwindset', {}))
    if uw:
        rc, so, se, _ = sh(['goto-instrument', '--show-loops', g], 60)
        loops = set(re.findall(r'^Loop ([^:\s]+):', so, re.M))
        ok = ['%s:%d' % (k, v) for k, v in uw.items() if k in loops or '.' not in k]
        if ok:
            cmd += ['--unwindset', ','.join(ok)]
    rc, so, se, t = sh(cmd, timeout, mem=u.get('mem', MEM_KB))
    return cmd, rc, so, se, t

def goto_bodies(g):
    rc, so, se, _ = sh(['goto-instrument', '--show-goto-functions', g], 120)
    b, tree = {}, set()
    for m in re.finditer(r'^(\S+) /\* (\S+) \*/$(.*?)(?=^\S+ /\* |\Z)', so, re.M | re.S):
        f = re.search(r'// \d+ file (\S+) line', m.group(3))
        if f and f.group(1).startswith(REPO + '/'): tree.add(m.group(2))
        b[m.group(2)] = [l.strip() for l in m.group(3).splitlines() if l.strip() and not l.strip().startswith('//')]
    return b, tree

def effects(lines):
    """(declared, assigned, called) of a piece of a goto function"""
    decl, asg, calls = set(), set(), set()
    for l in lines:
        l = re.sub(r'"(?:[^"\\]|\\.)*"', '""', re.sub(r'^\d+: ', '', l))
        t = re.match(r'DECL (\S+)', l)
        if t: decl.add(t.group(1))
        t = re.match(r'ASSIGN (.*?) := ', l)
        if t and t.group(1).startswith('*'): asg.add('*' + (re.findall(r'[A-Za-z_][\w:$!@]*', re.sub(r'cast\(|signedbv|unsignedbv|pointer', ' ', t.group(1))) or ['?'])[0])
        elif t: asg.add(re.sub(r'[\[.].*', '', t.group(1)))
        t = re.match(r'CALL (?:(\S+) := )?(.*)', l)
        if t:
            if t.group(1): asg.add(t.group(1))
            asg |= set(re.findall(r'address_of\(([\w:$!@]+)', l)) | set(re.findall(r'&([\w:$!@]+)', l))
            asg |= {x for x in re.findall(r'([\w:$]+)\[\(', l)}
            c = re.match(r'(\w+)\(', t.group(2))
            if c: calls.add(c.group(1))
    return decl, asg, calls

def frame_check(u, g):
    """every variable assigned in the body of a loop under an invariant has to be in the havoc set of that
    loop (mechanical frame condition); what the code of the tree that the body calls assigns beyond its own
    variables counts too.  Returns (what cannot be handled, {loop: variables to be havocked as well})"""
    bad, more = [], {}
    if not u.get('loops'): return bad, more
    bodies, own = goto_bodies(g)
    for loop, (fn, havoc) in u.get('loops', {}).items():
        body = bodies.get(fn, [])
        hook = [i for i, l in enumerate(body) if 'vp_ph_' + loop in l]
        if not hook: bad.append('loop %s: no invariant in %s' % (loop, fn)); continue
        label = {}
        for i, l in enumerate(body):
            t = re.match(r'(\d+): ', l)
            if t: label[t.group(1)] = i
        end = max([i for i, l in enumerate(body) for t in [re.search(r'GOTO (\d+)$', l)] if t and i > hook[-1] and label.get(t.group(1), i) <= hook[0]] or [-1])
        if end < 0: bad.append('loop %s: no back edge' % loop); continue
        start = min(label[re.search(r'GOTO (\d+)$', body[i]).group(1)] for i in [end])
        decl, asg, calls = effects(body[start:end + 1])
        names = {x.split('::')[-1].lstrip('*') if not x.startswith('*') else '*' + x.split('::')[-1] for x in asg - decl}
        names = {n for n in names if not n.startswith(('vp_ph_', 'return_value', 'tmp_', 'g_', '$'))}
        extra = {n for n in names - set(havoc) if n.lstrip('*') not in havoc}
        seen, todo, far = set(), [c for c in calls], set()
        while todo:
            c = todo.pop()
            if c in seen or c not in own or c.startswith(('vp_', 'ct_')) or c not in bodies: continue
            seen.add(c); d2, a2, c2 = effects(bodies[c]); todo += list(c2)
            far |= {x for x in a2 if not x.startswith(('*', 'vp_', 'g_', 'return_value', '__CPROVER', '$')) and '::' not in x and x not in havoc}
            far |= {x for x in a2 - d2 if x.startswith(c + '::') and re.match(r'\w+::\d', x)}      # its static variables
        far -= extra
        if any(x.startswith('*') for x in extra): bad.append('loop %s: frame: %s not in the havoc set' % (loop, ','.join(sorted(extra))))
        elif any('::' in x for x in far): bad.append('loop %s: frame: %s, of a function called' % (loop, ','.join(sorted(far))))
        elif extra | far: more[loop] = sorted(extra | far)
    return bad, more

def bounded(u, d, r, why, timeout):
    """bounded stand-in, where a loop has lost its invariant: the loops are unwound a few times instead.  What it
    finds is a failing path of the code itself; that it finds nothing is no proof"""
    k = u.get('bounded', 4)
    v = dict(u); v['loops_h'] = None; v['proof_defs'] = u.get('proof_defs', []) + ['-DVP_UNWOUND']
    g, log = compile_cbmc(v, d)
    r['status'] = 'limit'; r['limits'] = why
    if g is None: r['log'] = log[-2000:]; return r
    fns = {fn for fn, _ in u['loops'].values()}
    rc, so, se, _ = sh(['goto-instrument', '--show-loops', g], 60)
    v['unwindset'] = dict(u.get('unwindset', {}), **{l: k for l in re.findall(r'^Loop ([^:\s]+):', so, re.M) if l.rsplit('.', 1)[0] in fns})
    unwind = max(u.get('unwind', 10), k + 2)
    cmd, rc, so, se, t = cbmc_run(v, g, unwind, [], timeout)
    r['seconds'] += t; r['cmd'] = ' '.join(cmd); res = parse_text(so)
    if rc not in (0, 10) or res is None: r['limits'] = why + ['bounded stand-in: ' + ('timeout' if rc is None else 'tool exit %s' % rc)]; return r
    nobody = sorted(set(re.findall(r'no body for (?:function|callee) ([A-Za-z_0-9$]+)', so + se)) - set(u.get('nobody_ok', [])) - {'nondet_vp_ulong'})
    if nobody: r['limits'] = why + ['no body: ' + ','.join(nobody)]; return r
    for p in res:
        desc, st = p.get('description', ''), p.get('status')
        if desc.startswith('COVER:'): r['covers'] += 1; r['covers_hit'] += st == 'FAILURE'
        if desc.startswith(('COVER:', 'UNSUPPORTED:')) or 'unwinding assertion' in desc or st != 'FAILURE': continue
        if u.get('ids') and NAMED.match(desc) and not re.search(u['ids'], desc): r.setdefault('other', []).append(desc); continue
        loc = p.get('sourceLocation', {})
        r['failed'].append({'property': p['property'], 'description': desc, 'status': st, 'where': '%s:%s %s' % (loc.get('file', '?'), loc.get('line', '?'), loc.get('function', ''))})
    r['limits'] = why + ['bounded stand-in (loops unwound %d times)' % (k - 1)]; r['bounded'] = r['covers_hit'] > 0
    if not r['bounded']: r['limits'].append('vacuous')
    r['real'] = r['failed']; r['unwind'] = unwind
    if r['failed']: r['status'] = 'failed'
    return r

LOST = re.compile(r'^loop \w+: invariant (holds initially|preserved)$')
NAMED = re.compile(r'^[a-z0-9]+\.[a-z0-9.-]+$')
def prove_more(u, d, timeout, more):
    """the body of a loop assigns variables its invariant does not know of: those that do not change from one
    iteration to the next keep their value (an obligation of its own), the others are anything at the head"""
    keep = {x for xs in more.values() for x in xs}
    for _ in range(4):
        r = prove(u, d, timeout, keep)
        drop = {f['description'][11:] for f in r['failed'] if f['description'].startswith('unchanged: ')}
        if r['status'] == 'nocompile' and keep: keep = set(); continue
        if not drop: break
        keep -= drop
    if r['status'] == 'nocompile': return bounded(u, d, r, ['loop %s: frame: %s not in the havoc set' % (l, ','.join(xs)) for l, xs in more.items()], timeout)
    # a counter that is anything may overflow
    loose = {x for xs in more.values() for x in xs} - keep
    r['failed'] = [f for f in r['failed'] if not ('overflow' in f['description'] and loose & set(re.findall(r'\w+', f['description'])))]
    if r['status'] == 'failed':
        r['real'] = [f for f in r['failed'] if f['status'] == 'FAILURE']
        if not r['real']: r['status'] = 'limit'; r['limits'].append('variables outside the invariant: ' + ', '.join(sorted(loose)))
    return r

def prove(u, d, timeout, keep=None):
    r = Result(unit=u['name'], status='error', obligations=0, discharged=0, failed=[], limits=[], covers=0, covers_hit=0, seconds=0.0, cmd='', log='')
    g, log = compile_cbmc(u, d)
    if g is None:
        r['status'] = 'nocompile'; r['log'] = log[-4000:]; r['limits'] = ['compile']
        if u.get('loops'):   # a variable of an invariant is gone
            b = bounded(u, d, Result(r, failed=[]), ['an invariant does not compile'], timeout)
            if b['status'] == 'failed' or b.get('bounded'): return b
        return r
    bad, more = frame_check(u, g)
    if more and not bad and keep is None: return prove_more(u, d, timeout, more)
    if keep is not None:
        r['more'] = more; v = dict(u); v['proof_defs'] = list(u.get('proof_defs', []))
        for l, xs in more.items():
            h = [x for x in xs if x not in keep]; k = [x for x in xs if x in keep]
            if h: v['proof_defs'].append('-DVP_MORE_%s=%s' % (l, ' '.join('__CPROVER_havoc_object(&%s);' % x for x in h)))
            if k: v['proof_defs'] += ['-DVP_KEEP0_%s=%s' % (l, ' '.join('extern long long vp_keep_%s; vp_keep_%s = (long long)%s;' % (x, x, x) for x in k)),
                                      '-DVP_KEEP1_%s=%s' % (l, ' '.join('extern long long vp_keep_%s; __CPROVER_assert(vp_keep_%s == (long long)%s, "unchanged: %s");' % (x, x, x, x) for x in k))]
        v['lib'] = u.get('lib', []) + [os.path.join(d, 'keep.c')]
        open(os.path.join(d, 'keep.c'), 'w').write(''.join('long long vp_keep_%s;\n' % x for x in sorted(keep)))
        g, log = compile_cbmc(v, d)
        if g is None: r['status'] = 'nocompile'; r['limits'] = ['compile']; return r
    if u.get('loops') and (bad or os.environ.get('VP_FORCE_BOUNDED')): return bounded(u, d, r, bad, timeout)
    unwind = u.get('unwind', 10)
    for attempt in (0, 1):
        cmd, rc, so, se, t = cbmc_run(u, g, unwind, [], timeout)
        r['seconds'] += t; r['cmd'] = ' '.join(cmd)
        res = parse_text(so)
        if rc is None or res is None or rc not in (0, 10):
            r['status'] = 'limit'; r['limits'] = ['timeout' if rc is None else 'tool exit %s' % rc]; r['log'] = (so[-1500:] + se[-1500:])
            return r
        txt = so + se
        nobody = sorted(set(re.findall(r'no body for (?:function|callee) ([A-Za-z_0-9$]+)', txt)) - set(u.get('nobody_ok', [])) - {'nondet_vp_ulong'})
        r['failed'], r['limits'], r['other'] = [], [], []
        r['obligations'] = r['discharged'] = r['covers'] = r['covers_hit'] = 0
        uwf = False
        for p in res:
            desc, st = p.get('description', ''), p.get('status')
            if desc.startswith('COVER:'):
                r['covers'] += 1; r['covers_hit'] += st == 'FAILURE'
                if st != 'FAILURE': r['limits'].append('vacuous: ' + desc)
                continue
            if desc.startswith('UNSUPPORTED:') or 'unwinding assertion' in desc:
                if st != 'SUCCESS':
                    r['limits'].append(desc if desc.startswith('UNS') else p['property'] + ' ' + desc)
                    uwf = uwf or 'unwinding' in desc
                r['obligations'] += 1; r['discharged'] += st == 'SUCCESS'
                continue
            r['obligations'] += 1
            if st == 'SUCCESS': r['discharged'] += 1
            elif u.get('ids') and NAMED.match(desc) and not re.search(u['ids'], desc):
                r.setdefault('other', []).append(desc)   # an obligation of another property
            else:
                loc = p.get('sourceLocation', {})
                r['failed'].append({'property': p['property'], 'description': desc, 'status': st,
                                    'where': '%s:%s %s' % (os.path.relpath(loc.get('file', '?'), REPO) if loc.get('file', '').startswith(REPO) else loc.get('file', '?'), loc.get('line', '?'), loc.get('function', ''))})
        if nobody: r['limits'].append('no body: ' + ','.join(nobody)); r['nobody'] = nobody
        if uwf and attempt == 0 and not [f for f in r['failed'] if f['status'] == 'FAILURE']:
            unwind = unwind * 2; continue
        break
    real = [f for f in r['failed'] if f['status'] == 'FAILURE']
    hard = [x for x in r['limits'] if not x.startswith('vacuous')]
    r['real'] = real
    if real: r['status'] = 'failed'
    if real and u.get('loops') and not u.get('deep') and all(LOST.match(f['description']) for f in real):
        # the invariant does not fit the loop as it is now: is it the loop, or only the invariant?
        b = bounded(u, d, Result(r, failed=[], limits=[], covers=0, covers_hit=0), [f['description'] + ': does not fit' for f in real], timeout)
        if b['status'] == 'failed' or b.get('bounded'): b['seconds'] += 0; return b
    if real: pass
    elif r['limits'] or r['failed']: r['status'] = 'limit'
    elif r['obligations'] == 0: r['status'] = 'limit'; r['limits'] = ['no obligations']
    else: r['status'] = 'proved'
    r['gb'] = g; r['unwind'] = unwind
    return r

def build_native(u, d):
    objs = []
    cc = ['gcc', '-g', '-O1', '-w', '-U_FORTIFY_SOURCE', '-fno-builtin', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment,shift',
          '-D_GNU_SOURCE', '-DVP_BOUNDED', '-DVP_ENTRY=' + u['entry']] + u.get('defs', []) + u.get('native_defs', [])
    san = ['-fsanitize=address,undefined']
    if u.get('release'):   # as the release build compiles it
        cc = ['gcc', '-g', '-O2', '-w', '-D_GNU_SOURCE', '-DVP_BOUNDED', '-DVP_ENTRY=' + u['entry']]; san = u['release']
    jobs = []
    for f in u.get('native_repo', u['repo']):
        o = os.path.join(d, 'n_' + f.replace('/', '_') + '.o')
        jobs.append((cc + redirect_flags(u) + u.get('file_defs', {}).get(f, []) + u.get('native_file_defs', {}).get(f, []) + INC + ['-c', REPO + '/src/' + f, '-o', o], o))
    for f in ['lib/vp.c'] + u.get('lib', []) + [u['harness']]:
        o = os.path.join(d, 'n_V_' + f.replace('/', '_') + '.o')
        jobs.append((cc + INC + ['-c', os.path.join(HERE, f), '-o', o], o))
    log = ''
    for c, o in jobs:
        rc, so, se, _ = sh(c, 120, mem=0)
        if rc != 0: return None, ' '.join(c) + '\n' + se[-3000:]
        objs.append(o)
    b = os.path.join(d, 'native')
    rc, so, se, _ = sh(['gcc'] + san + ['-o', b] + objs + u.get('native_libs', []), 120, mem=0)
    if rc != 0 and 'undefined reference' in se:
        # code moved to another file of the tree: offer the other files too (first definition wins)
        rest = []
        for f in sorted(subprocess.run(['bash', '-c', 'cd %s/src && ls common/*.c lve/*.c tool/*.c embedfile/*.c encrypt_decrypt/*.c decryptors/default/src/*.c packagetool/*.c 2>/dev/null' % REPO], capture_output=True, text=True).stdout.split()):
            if f in u.get('native_repo', u['repo']): continue
            o = os.path.join(d, 'x_' + f.replace('/', '_') + '.o')
            if sh(cc + redirect_flags(u) + ['-Dmain=vp_repo_main_%d' % len(rest)] + INC + ['-c', REPO + '/src/' + f, '-o', o], 120, mem=0)[0] == 0: rest.append(o)
        a = os.path.join(d, 'librest.a'); sh(['ar', 'rcs', a] + rest, 60, mem=0)
        rc, so, se, _ = sh(['gcc'] + san + ['-Wl,-z,muldefs', '-o', b] + objs + [a] + u.get('native_libs', []), 120, mem=0)
    if rc != 0: return None, se[-3000:]
    return b, ''

NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_odr_violation=0:quarantine_size_mb=8:allocator_may_return_null=1:max_allocation_size_mb=2048:abort_on_error=0:detect_stack_use_after_return=0:handle_abort=1',
            UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1')

def why(so, se):
    m = re.search(r'VP_FAIL (.*)', so)
    if m: return m.group(1)
    m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)', se)
    return m.group(1)[:200] if m else 'abnormal end'

def sample(u, d, binary, seed, n, timeout):
    """bounded stand-in: n samples; returns dict(status, failing seed)"""
    chunks = 4
    def one(k):
        cur = os.path.join(d, 'cur%d' % k)
        e = dict(NENV, VP_SEED=str(seed * 16 + k), VP_N=str(max(1, n // chunks)), VP_CUR=cur)
        rc, so, se, t = sh([binary], timeout, env=e, mem=0, cwd=d)
        idx = 0
        try: idx = int.from_bytes(open(cur, 'rb').read(8), 'little')
        except Exception: pass
        return k, rc, so, se, t, idx
    tot = rej = 0; limits = []
    with ThreadPoolExecutor(chunks) as ex:
        rs = list(ex.map(one, range(chunks)))
    for k, rc, so, se, t, idx in rs:
        if rc == 0:
            m = re.search(r'samples=(\d+) passed=(\d+)', so)
            if m: tot += int(m.group(2))
        elif rc is None: tot += idx; limits.append('time limit after %d samples' % idx)
        elif rc == 6: limits.append(so.strip()[:200])
        else:
            # reproduce with the choices recorded
            rec = os.path.join(d, 'choices.txt')
            e = dict(NENV, VP_SEED=str(seed * 16 + k), VP_ONLY=str(idx), VP_RECORD=rec)
            rc2, so2, se2, _ = sh([binary], 60, env=e, mem=0, cwd=d)
            if rc2 in (0, 3, 6, None) or not os.path.exists(rec): limits.append('not reproduced: ' + why(so2, se2)); continue
            return {'status': 'failed', 'why': why(so2, se2), 'choices': rec, 'out': (so2 + se2)[-6000:], 'samples': tot}
    return {'status': 'ok' if (not limits or tot) else 'limit', 'samples': tot, 'limits': limits}

def trace_replay(u, d, binary, pr):
    """take the verifier's counterexample (sizes bounded) and replay it natively"""
    if not u.get('trace_replay', True): return None
    gd = os.path.join(d, 'tr'); os.makedirs(gd, exist_ok=True)
    v = dict(u); v['defs'] = [x for x in u.get('defs', [])] ; v['proof_defs'] = u.get('proof_defs', []) + ['-DVP_TRACE_SMALL']
    g, _ = compile_cbmc(v, gd)
    if g is None: return None
    for f in pr['real'][:2]:
        cmd, rc, so, se, t = cbmc_run(v, g, pr['unwind'], ['--trace', '--property', f['property']], 200)
        js = parse_json(so)
        if not js: continue
        for m in js:
            if isinstance(m, dict) and 'result' in m:
                for p in m['result']:
                    if p.get('status') != 'FAILURE' or 'trace' not in p: continue
                    vals = []
                    for s in p['trace']:
                        if s.get('stepType') == 'assignment' and s.get('lhs') == 'vp_nd_log':
                            b = s.get('value', {}).get('binary')
                            if b is not None and not s.get('hidden_init'): vals.append(int(b, 2))
                    vals = vals[1:] if vals else vals   # static initialisation of the log
                    tf = os.path.join(d, 'choices.txt')
                    open(tf, 'w').write('\n'.join(map(str, vals)) + '\n')
                    rc2, so2, se2, _ = sh([binary], 60, env=dict(NENV, VP_TRACE=tf), mem=0, cwd=d)
                    if rc2 not in (0, 3, 5, 6, None):
                        return {'status': 'failed', 'why': why(so2, se2), 'choices': tf, 'out': (so2 + se2)[-6000:]}
    return None

def run_unit(name, tier, seed, ids=None):
    u = dict(UNITS[name]); u['name'] = name; u['ids'] = ids
    d = tempfile.mkdtemp(prefix='vp_' + name + '_')
    out = Result(unit=name, functions=u.get('functions', []), assumptions=u.get('assumptions', []))
    try:
        missing = [f for f in u['repo'] if not os.path.exists(REPO + '/src/' + f)]
        if missing:
            out.update(verdict='undecided', reason='missing ' + ','.join(missing), proof=Result(status='nocompile', obligations=0, discharged=0, seconds=0, limits=['missing file'], failed=[]), native={'status': 'none', 'samples': 0})
            return out
        if u.get('native_only'):
            pr = Result(status='none', obligations=0, discharged=0, seconds=0.0, limits=[], failed=[], covers=0, covers_hit=0)
        else:
            pr = prove(u, d, u.get('timeout', 500) * (1 if tier == 'quick' else 2))
        out['proof'] = pr
        nat = {'status': 'none', 'samples': 0}; binary = None
        if u.get('native', True):
            binary, err = build_native(u, d)
            if binary:
                n = u.get('samples', 40000) * (1 if tier == 'quick' else 10)
                if pr['status'] not in ('proved', 'none'): n *= 5
                nat = sample(u, d, binary, seed, n, u.get('native_timeout', 60) * (1 if tier == 'quick' else 4))
            else: nat = {'status': 'nobuild', 'samples': 0, 'log': err}
        if nat['status'] != 'failed' and pr['status'] == 'failed' and binary and not pr.get('nobody'):
            r2 = trace_replay(u, d, binary, pr)
            if r2: r2['samples'] = nat.get('samples', 0); nat = r2
        if nat['status'] == 'failed' and ids and NAMED.match(nat['why']) and not re.search(ids, nat['why']):
            pr.setdefault('other', []).append(nat['why']); nat = {'status': 'other', 'samples': nat.get('samples', 0)}   # an obligation of another property
        if nat['status'] == 'failed':
            out['verdict'] = 'violation'; out['input'] = True
            keep = os.path.join(HERE, 'replays', name); shutil.rmtree(keep, ignore_errors=True); os.makedirs(keep)
            shutil.copy(nat['choices'], keep + '/choices.txt')
            nat['choices'] = keep + '/choices.txt'
        elif pr['status'] == 'proved' or pr['status'] == 'none' and nat['samples']: out['verdict'] = 'held'
        elif pr['status'] == 'failed' and not pr.get('nobody'):
            out['verdict'] = 'violation'; out['input'] = False
        elif nat['status'] == 'ok' and nat['samples'] > 0 or pr.get('bounded'): out['verdict'] = 'held-bounded'
        else: out['verdict'] = 'undecided'
        out['native'] = nat
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)

def known(prop):
    p = os.path.join(HERE, 'known_findings.jsonl')
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                j = json.loads(l)
                if j.get('property') == prop and j.get('kind') == 'known': r.append(j)
    return r

def check(prop, tier, seed):
    t0 = time.time()
    names = [n for n in PROPS[prop]['units'] if tier == 'thorough' or not UNITS[n].get('thorough_only')]
    order = sorted(names, key=lambda n: -UNITS[n].get('cost', 10))
    with ThreadPoolExecutor(int(os.environ.get('VP_JOBS', '4'))) as ex:
        rs = {n: f for n, f in [(n, ex.submit(run_unit, n, tier, seed, PROPS[prop].get('ids', {}).get(n))) for n in order]}
        rs = [rs[n].result() for n in names]
    viol = [r for r in rs if r['verdict'] == 'violation']
    und = [r for r in rs if r['verdict'] == 'undecided']
    bnd = [r for r in rs if r['verdict'] == 'held-bounded']
    for r in rs:
        p = r['proof']
        print('%-22s %-12s obligations %d/%d covers %d/%d %.1fs  samples %d %s' % (r['unit'], r['verdict'], p.get('discharged', 0), p.get('obligations', 0),
              p.get('covers_hit', 0) or 0, p.get('covers', 0) or 0, p['seconds'], r['native'].get('samples', 0), '; '.join((p.get('limits') or [])[:4] + ['obligation of another property fails: ' + x for x in (p.get('other') or [])[:3]])))
        if r['verdict'] in ('undecided', 'held-bounded') and p.get('log'): print('   ' + p['log'][-1500:])
        if r['native'].get('log'): print('   native: ' + r['native']['log'][-1500:])
    for k in known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    ob = sum(r['proof'].get('obligations', 0) for r in rs); di = sum(r['proof'].get('discharged', 0) for r in rs)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': ob, 'discharged': di,
                       'checker_cmd': next((r['proof'].get('cmd') for r in rs if r['proof'].get('cmd')), ''),
                       'trusted_base': ['CBMC 6.11.0 (symbolic execution, bit-vector encoding, built-in SAT solver)', 'goto-cc front end', 'lib/vp.c, lib/libc_models.c and the dependency contracts written in the units (listed under assumptions)'],
                       'back_end': 'cbmc 6.11.0, SAT (MiniSat 2.2.1)',
                       'functions_under_contract': sorted({f for r in rs for f in r['functions']}),
                       'units': [{'unit': r['unit'], 'verdict': r['verdict'], 'obligations': r['proof'].get('obligations', 0), 'discharged': r['proof'].get('discharged', 0),
                                  'vacuity_covers': r['proof'].get('covers', 0), 'vacuity_covers_reached': r['proof'].get('covers_hit', 0),
                                  'solver_s': round(r['proof']['seconds'], 2), 'limits': r['proof'].get('limits', []), 'failed_obligations_of_other_properties': r['proof'].get('other', []),
                                  'bounded_stand_in_samples': r['native'].get('samples', 0)} for r in rs],
                       'units_proved': sum(r['proof'].get('status') == 'proved' for r in rs),
                       'units_bounded_only': [r['unit'] for r in bnd] + [r['unit'] for r in rs if UNITS[r['unit']].get('native_only')],
                       'solver_s': round(sum(r['proof']['seconds'] for r in rs), 2)},
          'assumptions': sorted({a for r in rs for a in r['assumptions']}),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if bnd or und: ev['level'] = 'other'; ev['coverage']['explanation'] = 'bounded stand-in only for: ' + ', '.join(r['unit'] for r in bnd + und)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open(HERE + '/evidence/%s.json' % prop, 'w'), indent=1)
    if viol:
        viol.sort(key=lambda r: not r['input'])
        r = viol[0]
        os.makedirs(HERE + '/replays', exist_ok=True)
        rp = HERE + '/replays/%s.txt' % prop
        with open(rp, 'w') as f:
            for r in viol:
                f.write('property %s  unit %s\n' % (prop, r['unit']))
                f.write('failed obligations (verifier: %s):\n' % r['proof'].get('cmd', ''))
                for x in r['proof'].get('failed', [])[:40]: f.write('  %s  %s  [%s] %s\n' % (x['property'], x['description'], x['where'], x['status']))
                if r['input']:
                    f.write('replayed against the real code: %s\nchoices: %s\n  (build: run.py --native %s; run with VP_TRACE=choices.txt)\n%s\n' % (r['native']['why'], r['native']['choices'], r['unit'], r['native']['out']))
                    f.write('choice values: %s\n' % open(r['native']['choices']).read().replace('\n', ' ')[:4000])
                else: f.write('no failing input found by the verifier trace replay or the bounded search\n%s\n' % r['proof'].get('log', ''))
        for r in viol:
            w = r['native'].get('why') if r['input'] else ', '.join(x['description'] for x in r['proof']['real'][:5])
            print('  unit %s: %s' % (r['unit'], w))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if viol[0]['input'] else ' no-failing-input-found'))
        return 1
    if und and len(und) == len(rs):
        print('UNDECIDED: ' + ', '.join(r['unit'] for r in und)); return 2
    return 0

def main():
    a = sys.argv[1:]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a[0] == '--setup':
        for t in ('cbmc', 'goto-cc', 'goto-instrument', 'gcc'):
            if not shutil.which(t): print('missing', t); return 1
        os.makedirs(HERE + '/evidence', exist_ok=True); return 0
    if a[0] == '--unit':
        for n in a[1:]:
            r = run_unit(n, 'quick', seed)
            p = r['proof']
            print(n, r['verdict'], 'proof', p['status'], '%d/%d' % (p.get('discharged', 0), p.get('obligations', 0)), 'covers', p.get('covers_hit'), p.get('covers'), '%.1fs' % p['seconds'], p.get('limits'))
            for f in p.get('failed', [])[:25]: print('   ', f['status'], f['property'], f['description'], f['where'])
            if p.get('log'): print(p['log'][-1500:])
            print('   native', {k: v for k, v in r['native'].items()})
        return 0
    if a[0] == "--native":
        d = '/tmp/vp_native_' + a[1]; os.makedirs(d, exist_ok=True)
        print(build_native(dict(UNITS[a[1]], name=a[1]), d)); return 0
    return check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'), seed)
if __name__ == '__main__':
    sys.exit(main())
