#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--entry NAME]

Decides property ID of /repo's working tree: lowers harness/ID.cpp together with
the library's real headers to LLVM IR, runs every entry point through the symbolic
executor (build/dsym), replays counterexamples natively, validates sampled path
models against natively compiled code, and writes evidence/ID.json.
Exit 0: held on everything explored; 1: VIOLATION; 2: no verdict."""
import argparse, concurrent.futures as cf, fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
ap = argparse.ArgumentParser()
ap.add_argument('id')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
ap.add_argument('--entry')
ap.add_argument('--jobs', type=int, default=int(os.environ.get('VP_JOBS') or os.cpu_count() or 8))
ap.add_argument('-v', action='store_true')
opt = ap.parse_args()
if opt.tier not in ('quick', 'thorough'): opt.tier = 'quick'
seed = int(os.environ.get('VERIF_SEED') or 1)
ID = opt.id
SRC = f'{V}/harness/{ID}.cpp'
BUDGET = float(os.environ.get('VP_BUDGET') or (780 if opt.tier == 'quick' else 7200))
t0 = time.time()
def left(): return BUDGET - (time.time() - t0)
def say(*a): print(*a, flush=True)
def run(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace'), (e.stderr or b'').decode(errors='replace')

# ---------------------------------------------------------------- the harness
entries, assumes, flags, opts = [], [], [], {}
for line in open(SRC):
    m = re.match(r'//@(\w+)\s*(.*?)\s*$', line)
    if not m: continue
    k, rest = m.groups()
    if k in ('entry', 'deep'):
        head, _, bound = rest.partition('::')
        w = head.split()
        e = {'name': w[0], 'deep': k == 'deep', 'bound': bound.strip(), 'reach': [], 'max_instr': 5000000}
        for x in w[1:]:
            a, _, b = x.partition('=')
            if a == 'reach': e['reach'] = b.split(',')
            elif a == 'max_instr': e['max_instr'] = int(b)
            else: sys.exit(f'bad entry option {x}')
        entries.append(e)
    elif k == 'assume': assumes.append(rest)
    elif k == 'flags': flags += rest.split()
    elif k == 'native': opts['native'] = rest.split()
    elif k == 'native_all': opts['native_all'] = rest.split()
if opt.tier == 'thorough': flags.append('-DVP_DEEP')
entries = [e for e in entries if (opt.tier == 'thorough' or not e['deep']) and (not opt.entry or opt.entry == e['name'])]

findings = []
kf = f'{V}/known-findings.jsonl'
if os.path.exists(kf):
    for l in open(kf):
        if l.strip():
            j = json.loads(l)
            if j.get('status') == 'known' and j.get('property') == ID: findings.append(j)

tmp = tempfile.mkdtemp(prefix=f'vp.{ID}.')
evid = {'property': ID, 'tier': opt.tier, 'seed': seed, 'level': 'model_checking'}
def by_name(fs):  # demangled functions without template and call arguments, with the number of instances
    n = {}
    for f in fs:
        d, out, i = 0, '', 0
        while i < len(f):
            if d == 0 and f.startswith('operator', i):
                m = re.match(r'operator(<<=?|>>=?|<=|>=|->\*?|\(\)|[<>]|[^\w\s<(]+)?', f[i:]); out += m.group(0); i += len(m.group(0)); continue
            c = f[i]
            if c == '<': d += 1
            elif c == '>': d -= 1
            elif d == 0:
                if c == '(':
                    if f.startswith('(anonymous namespace)', i): i += 21; continue
                    break
                out += c
            i += 1
        k = out.split(' ')[-1] if 'operator ' not in out else out
        n[k] = n.get(k, 0) + 1
    return sorted(k + (f' ({v} instances)' if v > 1 else '') for k, v in n.items())
results, samples, validated, notes, hidden = [], [], 0, [], []

def finish(code, violations=0, extra=None):
    shutil.rmtree(tmp, ignore_errors=True)
    cov = {
        'states': sum(r['forks'] + 1 for r in results),
        'transitions': sum(r['instructions'] for r in results),
        'traces_validated_against_impl': validated,
        'samples': samples[:12],
        'exhaustive': bool(results) and all(r['complete'] for r in results) and len(results) == len(entries),
        'explanation': 'states: symbolic states (path forks + 1 per entry); transitions: LLVM instructions executed symbolically; '
                       'every branch, assertion and memory access on symbolic data was decided by Z3 (QF_BV) under its path condition, '
                       'or by a model / syntactic implication / cached verdict of an earlier query',
        'paths': sum(r['paths'] for r in results),
        'queries': sum(r['queries'] for r in results),
        'solver_calls': sum(r['solver_calls'] for r in results),
        'solver_sat': sum(r['sat'] for r in results),
        'solver_unsat': sum(r['unsat'] for r in results),
        'solver_s': round(sum(r['solver_s'] for r in results), 3),
        'decided_by_domain_evaluation': sum(r['domain_decided'] for r in results),
        'integer_encoded_solver_calls': sum(r['integer_encoded'] for r in results),
        'assertions_checked': sum(r['asserts'] for r in results),
        'assertions_needing_solver': sum(r['assert_queries'] for r in results),
        'memory_accesses_checked': sum(r['memory_checks'] for r in results),
        'paths_cut_by_assumptions': sum(r['assume_killed'] for r in results),
        'bounds': {e['name']: e['bound'] for e in entries},
        'per_entry': [{k: r[k] for k in ('entry', 'paths', 'forks', 'instructions', 'queries', 'solver_calls', 'solver_s', 'max_path_instr', 'complete', 'wall_s')} | {'reach': r['reach']} for r in results],
        'functions_encoded': by_name({f for r in results for f in r['functions']}),
    }
    if notes: cov['notes'] = notes
    if extra: cov.update(extra)
    evid.update(coverage=cov, assumptions=assumes, wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(f'{V}/evidence', exist_ok=True)
    with open(f'{V}/evidence/{ID}.json.{os.getpid()}', 'w') as f: json.dump(evid, f, indent=1)
    os.replace(f'{V}/evidence/{ID}.json.{os.getpid()}', f'{V}/evidence/{ID}.json')
    sys.stdout.flush()
    os._exit(code)

def inconclusive(msg, extra=None):
    say(f'INCONCLUSIVE property={ID}: {msg}')
    notes.append(msg)
    finish(2, extra=extra)

# ----------------------------------------------------------------- build
INC = [f'-I{REPO}', f'-I{V}/harness']
def build_engine():
    os.makedirs(f'{V}/build', exist_ok=True)
    with open(f'{V}/build/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return run(['bash', f'{V}/setup.sh'])
rc, o, e = build_engine()
if rc: inconclusive('engine does not build: ' + e[-600:])
with open(f'{tmp}/entries.inc', 'w') as f:
    for en in entries: f.write(f'X({en["name"]})\n')
# what clang rejects by default and g++ (which builds the library) only warns about
LENIENT = ['-Wno-' + w for w in 'c++11-narrowing c++11-narrowing-const-reference invalid-constexpr address-of-temporary argument-outside-range elaborated-enum-base elaborated-enum-class enum-constexpr-conversion increment-bool initializer-overrides int-conversion non-pod-varargs out-of-line-declaration register reserved-user-defined-literal return-type static-float-init dynamic-exception-spec'.split()]
rc, o, e = run([LLVM + 'clang++', '-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-rtti', '-fno-threadsafe-statics',
                '-gline-tables-only', '-emit-llvm', '-c', *INC, *flags, *LENIENT, '-w', SRC, '-o', f'{tmp}/h0.bc'])
if rc: inconclusive('harness does not compile against the library: ' + '\n'.join([l for l in e.splitlines() if 'error' in l][:5]))
rc, o, e = run([LLVM + 'opt', '-passes=sroa', f'{tmp}/h0.bc', '-o', f'{tmp}/h1.bc'])
if rc: inconclusive('opt failed: ' + e[-400:])
rc, o, e = run([LLVM + 'llvm-link', f'{tmp}/h1.bc', f'{V}/build/support.bc', '-o', f'{tmp}/h.bc'])
if rc: inconclusive('llvm-link failed: ' + e[-400:])

NAT = {
    'plain': ['g++', '-O1'],
    'asan': ['g++', '-O0', '-g', '-fsanitize=address', '-fsanitize=signed-integer-overflow,shift,bounds,alignment,integer-divide-by-zero,unreachable,return', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'msan': [LLVM + 'clang++', '-O0', '-g', '-fsanitize=memory', '-fno-omit-frame-pointer'],
}
if 'native' in opts: NAT['plain'] = ['g++', *opts['native']]
for k in NAT: NAT[k] += opts.get('native_all', [])
def native(kind):
    exe = f'{tmp}/nat.{kind}'
    if os.path.exists(exe): return exe
    cmd = NAT[kind] + ['-std=c++11', '-fno-exceptions', '-fno-rtti', '-w', *(LENIENT if 'clang' in NAT[kind][0] else []), *INC, *flags, f'-I{tmp}', SRC, f'{V}/harness/rt.cpp', '-o', exe]
    rc, o, e = run(cmd)
    if rc: raise RuntimeError('native build failed: ' + e[-600:])
    return exe

def replay(entry, inputs, kind, fill=None, timeout=10):
    """(failed?, description)"""
    f = tempfile.NamedTemporaryFile('w', dir=tmp, suffix='.txt', delete=False)
    f.write(' '.join(map(str, inputs)) + '\n'); f.close()
    env = {'PATH': os.environ.get('PATH', ''), 'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1', 'UBSAN_OPTIONS': 'print_stacktrace=1'}
    if fill is not None: env['VP_FILL'] = str(fill)
    rc, o, e = run(['bash', '-c', 'ulimit -c 0; ulimit -s 65536; ' + ('' if kind in ('asan', 'msan') else 'ulimit -v 8000000; ') + 'exec "$0" "$@"', native(kind), entry, f.name], timeout=timeout, env=env)
    tag = f'{kind}' + (f' fill={fill}' if fill is not None else '')
    if rc == 0: return False, o.strip()
    if rc == 43: return False, 'assumption not met natively'
    if rc == 2: return False, 'bad invocation: ' + e[-200:]
    if rc == 42: return True, f'[{tag}] ' + o.strip().splitlines()[-1]
    if rc == 'timeout': return True, f'[{tag}] does not terminate within {timeout} s'
    m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|WARNING: MemorySanitizer[^\n]*|runtime error: [^\n]*|Assertion [^\n]*failed[^\n]*)', e)
    return True, f'[{tag}] exit {rc}: ' + (m.group(1) if m else e.strip()[-200:])

def confirm(entry, inputs):
    for kind, fills in (('asan', (0xbe, 0x00, 0xff, 0x01)), ('plain', (0xbe, 0x00)), ('msan', (None,))):
        for fl in fills:
            try: bad, d = replay(entry, inputs, kind, fl)
            except RuntimeError as x: notes.append(str(x)); break
            if bad: return d
    return None

def known(v, entry):
    for k in findings:
        m = k.get('match', {})
        if m.get('entry', entry) == entry and re.search(m.get('msg', ''), v['msg']) and re.search(m.get('stack', ''), v['stack']): return k
    return None

def report(entry, v, how):
    d = f'{V}/evidence/replay/{ID}'
    os.makedirs(d, exist_ok=True)
    with open(f'{d}/{entry}.inputs.txt', 'w') as f: f.write(' '.join(map(str, v['inputs'])) + '\n')
    with open(f'{d}/{entry}.replay.sh', 'w') as f:
        f.write(f'''#!/bin/bash
# {ID} {entry}: {v["kind"]}: {v["msg"]}
# Runs the solver's counterexample on the real code (exits non-zero while it fails).
# inputs: {' '.join(f"{n}={x}" for n, x in zip(v["names"], v["inputs"]))}
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
echo 'X({entry})' > $t/entries.inc
{' '.join(NAT["asan"])} -std=c++11 -fno-exceptions -fno-rtti -w {' '.join(INC + flags)} -I$t {SRC} {V}/harness/rt.cpp -o $t/r || exit 2
ASAN_OPTIONS=detect_leaks=0 VP_FILL=190 timeout 10 $t/r {entry} {d}/{entry}.inputs.txt
''')
    with open(f'{d}/{entry}.json', 'w') as f: json.dump({'entry': entry, 'reproduced': how, **v}, f, indent=1)
    say(f'{ID}/{entry}: {v["kind"]}: {v["msg"]} at {v["loc"]}')
    for l in v['stack'].splitlines()[:12]: say('    ' + l[:200])
    say('  inputs: ' + ' '.join(f'{n}={x}' for n, x in zip(v['names'], v['inputs']))[:1500])
    say('  native replay: ' + how)
    say(f'VIOLATION property={ID} replay={d}/{entry}.replay.sh')

# ------------------------------------------------------------------- explore
pool = cf.ThreadPoolExecutor(1)
plain = pool.submit(native, 'plain')

def dsym(en, budget, maxv):
    out = f'{tmp}/{en["name"]}.json'
    rc, o, e = run([f'{V}/build/dsym', f'{tmp}/h.bc', '--entry', en['name'], '--jobs', str(opt.jobs), '--seed', str(seed), '--samples', '3',
                    '--deadline', f'{budget:.0f}', '--max-instr', str(en['max_instr']), '--max-violations', str(maxv), '--out', out], timeout=budget + 60)
    if rc != 0: return None, f'engine exit {rc}: {e[-500:]}'
    return json.load(open(out)), None

pending = None
for i, en in enumerate(entries):
    if left() < 5: inconclusive(f'time budget exhausted before entry {en["name"]}')
    r, err = dsym(en, max(5, left() - 20), 1 if not findings else 40)
    if r is None: pending = pending or f'{en["name"]}: {err}'; continue
    results.append(r)
    if opt.v: say(f'  {en["name"]}: paths {r["paths"]} forks {r["forks"]} instr {r["instructions"]} solver {r["solver_calls"]}/{r["solver_s"]}s int {r["integer_encoded"]} domain {r["domain_decided"]} asserts {r["asserts"]} maxpath {r["max_path_instr"]} wall {r["wall_s"]} complete {r["complete"]} {r["incomplete"]} reach {r["reach"]} killed {r["assume_killed"]}')
    vs = r['violations']
    tries = 0
    while vs:
        fresh = [v for v in vs if not known(v, en['name'])]
        for v in vs:
            k = known(v, en['name'])
            if k and k not in hidden:
                hidden.append(k); say(f'KNOWN-FINDING: property={ID} {k["what"]}')
        if not fresh: r['complete'] = not r['incomplete']; break
        for v in fresh:
            how = confirm(en['name'], v['inputs'])
            if how:
                report(en['name'], v, how)
                finish(1, violations=1, extra={'counterexample': v})
        tries += 1
        if tries > 1 or findings:
            pending = pending or f'{en["name"]}: solver counterexample did not reproduce natively: {fresh[0]["kind"]}: {fresh[0]["msg"]} at {fresh[0]["loc"]} inputs {fresh[0]["inputs"]}'
            break
        r2, err = dsym(en, max(5, min(left() - 20, 120)), 25)
        if r2 is None: pending = pending or f'{en["name"]}: {err}'; break
        vs = r2['violations']
    if not vs and r['incomplete'] and not pending: pending = f'{en["name"]}: exploration incomplete: {"; ".join(r["incomplete"][:4])}'
    if not vs and not r['incomplete']:
        miss = [l for l in en['reach'] if l not in r['reach']]
        if miss and not pending: pending = f'{en["name"]}: vacuous: never reached {miss}'
        if r['paths'] == 0 and not pending: pending = f'{en["name"]}: no path ran to its end'
# replay sampled path models on natively compiled code
try: plain.result()
except RuntimeError as x: pending = pending or str(x)
if not pending:
    for r in results:
        for s in r['samples'][:24]:
            bad, d = replay(r['entry'], s['inputs'], 'plain', 0xbe)
            if bad and 'does not terminate' in d: bad, d = replay(r['entry'], s['inputs'], 'plain', 0xbe, timeout=60)
            if bad:
                how = confirm(r['entry'], s['inputs']) or d
                v = {'kind': 'native', 'msg': 'a path the engine accepted fails natively: ' + d, 'loc': '?', 'stack': '', 'inputs': s['inputs'], 'names': s['names']}
                if known(v, r['entry']): continue
                report(r['entry'], v, how)
                finish(1, violations=1, extra={'counterexample': v})
            if f'HASH {s["hash"]}' not in d:
                pending = pending or f'{r["entry"]}: engine and native run disagree on inputs {s["inputs"]}: {s["hash"]} vs {d[-60:]}'
            else:
                validated += 1
        for s in r['samples'][:2]:
            samples.append({'entry': r['entry'], 'inputs': ' '.join(f'{n}={x}' for n, x in zip(s['names'], s['inputs'])), 'outcome_hash': s['hash']})
if pending: inconclusive(pending)
say(f'OK property={ID} tier={opt.tier}: {sum(r["paths"] for r in results)} paths, {sum(r["queries"] for r in results)} queries ({sum(r["solver_calls"] for r in results)} solver calls), '
    f'{sum(r["asserts"] for r in results)} assertions, {validated} path models replayed natively, {time.time() - t0:.1f} s')
finish(0)
