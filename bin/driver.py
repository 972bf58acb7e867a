import sys, os, re, json, subprocess, time, glob, hashlib, fcntl, threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
B = os.path.join(V, 'build')
VTOOL = os.path.join(B, 'tools', 'release', 'vtool')
HARNESS = os.path.join(B, 'harness', 'debug', 'harness')
MACROS = '''#[allow(unused_macros)] macro_rules! sq { [$($e:expr),* $(,)?] => { ::verus_builtin_macros::verus_proof_macro_exprs!(seq_push!($($e),*)) } }
#[allow(unused_macros)] macro_rules! seq_push { ($($e:expr),*) => { Seq::empty()$(.push($e))* } }
'''


def run(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b'').decode() if isinstance(x.stdout, bytes) else (x.stdout or ''), 'timeout'


def read(p):
    with open(os.path.join(V, p)) as f:
        return f.read()


def specs():
    return sorted(glob.glob(os.path.join(V, 'spec', '*.rs')))


def build_tool():
    rc, o, e = run(['cargo', 'build', '--release', '--offline'], cwd=os.path.join(V, 'tools'), env={'CARGO_TARGET_DIR': os.path.join(B, 'tools'), 'RUSTFLAGS': '-Awarnings'}, timeout=800)
    if rc:
        raise RuntimeError('the extraction tool does not build:\n' + e[-3000:])


def build_harness():
    """The search/replay program, compiled against /repo's current tree. None if it does not build."""
    gen = os.path.join(B, 'gen')
    os.makedirs(gen, exist_ok=True)
    rc, o, e = run([VTOOL, 'spec', 'exec'] + specs())
    if rc:
        raise RuntimeError('contract language: ' + e)
    p = os.path.join(gen, 'spec_exec.rs')
    if not os.path.exists(p) or open(p).read() != o:
        open(p, 'w').write(o)
    rc, o, e = run(['cargo', 'build', '--offline'], cwd=os.path.join(V, 'harness'), env={'CARGO_TARGET_DIR': os.path.join(B, 'harness'), 'VERIF_GEN': gen, 'RUSTFLAGS': '-Awarnings'}, timeout=800)
    return None if rc == 0 else e[-4000:]


class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, '.lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def extract():
    rc, o, e = run([VTOOL, 'gen', REPO, '--spec'] + specs() + ['--ct'] + sorted(glob.glob(os.path.join(V, 'contracts', '*.ct'))))
    if rc:
        raise RuntimeError('extraction: ' + e[-2000:])
    return json.loads(o)


def closure(obl, roots):
    seen, todo = [], list(roots)
    while todo:
        k = todo.pop(0)
        if k in seen or k not in obl:
            continue
        seen.append(k)
        todo += obl[k].get('used', []) + obl[k].get('loops', [])
    return seen


def lemma_files():
    return [f for f in sorted(glob.glob(os.path.join(V, 'proofs', '*.rs'))) if not f.endswith('prelude.rs')]


FN = re.compile(r'^\s*(?:pub )?(?:open |closed |broadcast |uninterp )*(proof|spec|axiom) fn (\w+)', re.M)


def verus(text, tag, rlimit, timeout, extra=()):
    """Runs the verifier; returns (failures [(line, fn, kind, message)], summary, seconds, times, raw output)."""
    d = os.path.join(B, 'verus')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, tag + '.rs')
    open(path, 'w').write(text)
    t = time.time()
    rc, o, e = run(['verus', path, '--num-threads', '8', '--rlimit', str(rlimit), '--output-json', '--time'] + list(extra), cwd=d, timeout=timeout)
    dt = time.time() - t
    raw = e
    lines = text.split('\n')
    fails = []
    for blk in re.split(r'\n(?=error)', '\n' + e):
        if not blk.strip().startswith('error') or blk.strip().startswith('error: aborting'):
            continue
        m = re.search(re.escape(tag) + r'\.rs:(\d+):\d+', blk)
        name, line = '?', 0
        if m:
            line = int(m.group(1))
            for l in reversed(lines[:line]):
                f = re.match(r'\s*(?:pub )?(?:open |closed |broadcast |uninterp )*(?:proof|spec|axiom) fn (\w+)', l)
                if f:
                    name = f.group(1)
                    break
        first = blk.strip().split('\n')[0]
        kind = 'rlimit' if 'Resource limit' in first else 'failed' if re.search(r'(postcondition|precondition|assertion|invariant|decreases|termination|recommend)', first) else 'compile'
        fails.append((line, name, kind, blk.strip()))
    try:
        js = json.loads(o)
        res = js['verification-results']
        times = js.get('times-ms', {})
    except Exception:
        js, res, times = None, None, {}
    if rc == 124:
        fails.append((0, '?', 'rlimit', 'the verifier ran out of its %d s' % timeout))
    return fails, res, dt, times, raw


def theorem_files():
    return [f for f in lemma_files() if os.path.basename(f).startswith('theorems')]


def modname(f):
    return 'm_' + os.path.basename(f)[:-3]


def public(t):
    t = re.sub(r'^(\s*)(broadcast )?proof fn', r'\1pub \2proof fn', t, flags=re.M)
    t = re.sub(r'^(\s*)spec fn', r'\1pub open spec fn', t, flags=re.M)
    return re.sub(r'^(\s*)broadcast group', r'\1pub broadcast group', t, flags=re.M)


USE = 'use super::*; use vstd::prelude::*;'


def library(lemma_roots, all_theorems=False):
    """Prelude, contract language and lemma library; the theorem files a property needs, a module each."""
    rc, spec, e = run([VTOOL, 'spec', 'verus'] + specs())
    th = {f: read(f) for f in theorem_files()}
    fns = {f: set(m.group(2) for m in FN.finditer(t)) for f, t in th.items()}
    need = set(th) if all_theorems else {f for f in th if fns[f] & set(lemma_roots)}
    while True:
        more = {g for f in need for g in th if g not in need and any(re.search(r'\b%s\b' % n, th[f]) for n in fns[g])}
        if not more:
            break
        need |= more
    text = 'use vstd::prelude::*;\nfn main() {}\n' + MACROS + 'verus! {\n' + read('proofs/prelude.rs') + spec
    text += ''.join(read(f) for f in lemma_files() if f not in th)
    for f in sorted(need):
        text += 'pub mod %s { %s %s\n%s\n}\n' % (modname(f), USE, ' '.join('use super::%s::*;' % modname(g) for g in sorted(need) if g != f), public(th[f]))
    return text


SETS = ['g_all', 'g_more', 'g_class', 'g_base', 'g_gram', 'g_render', '']


def variants(body, text):
    """Other ways to ask the same question: a failing proof is believed only when none of them succeeds.
    They differ in the lemmas and the hiding offered to the solver, never in the statement."""
    uses = re.search(r'^  broadcast use [^;]*;\n', text, re.M)
    out = []
    if uses:
        for u in SETS:
            t = re.sub(r'^  broadcast use [^;]*;\n', '  broadcast use %s;\n' % u if u else '', text, flags=re.M)
            if t != text:
                out.append(t)
    nohide = re.sub(r'^  hide\([^)]*\);\n', '', text, flags=re.M)
    if nohide != text:
        out.append(nohide)
    noitem = re.sub(r'^  assert forall\|.*by \{ o_\w+_item\d+\(.*\n', '', nohide, flags=re.M)
    if noitem != nohide:
        out.append(noitem)
    return out


def prove(obl, sel, tag, seed, deadline, lemma_roots):
    """Discharges the obligations in sel (a module each) and the lemma library; returns a report."""
    base = library(lemma_roots)
    status = {}          # obligation -> proved | failed | undecided
    detail = {}
    todo = [k for k in sel if obl[k].get('ok')]
    for k in sel:
        if not obl[k].get('ok'):
            status[k] = 'undecided'
            detail[k] = 'not extracted: ' + str(obl[k].get('error'))
    secs, smt, n = 0.0, 0, 0
    lemma_fails = {}
    attempt = 0
    total = None
    how = {}

    def attempt_one(mods, rl, alone):
        nonlocal secs, smt, attempt
        text = base
        spans = []
        for name, body, ob in mods:
            lo = text.count('\n') + 1
            text += 'mod %s { %s\n%s\n%s\n}\n' % (name, USE, body, ob)
            spans.append((lo, text.count('\n') + 1, name))
        text += '}\n'
        text = text.replace('seq![', 'sq![')
        left = max(30, deadline - time.time())
        extra = []
        if alone:
            for name, _, _ in mods:
                extra += ['--verify-only-module', name]
        r = verus(text, '%s_%d' % (tag, attempt), rl, left, extra)
        attempt += 1
        secs += r[2]
        smt += (r[3].get('smt', {}) or {}).get('total', 0)
        by = {}
        for line, f, kind, msg in r[0]:
            nm = next((nm for lo, hi, nm in spans if lo <= line < hi), None)
            if nm is None:
                lemma_fails[f] = (kind, msg)
            elif nm not in by or by[nm][0] != 'failed':
                by[nm] = (kind, f, msg)
        return by, r

    # first pass; drops what the verifier does not accept at all
    by = {}
    while todo:
        by, (fails, res, dt, times, raw) = attempt_one([('ob_' + k, obl[k]['body'], obl[k]['obligation']) for k in todo], 30, False)
        if total is None and res:
            total = res
        bad = [k for k in todo if by.get('ob_' + k, ('',))[0] == 'compile']
        for k in bad:
            status[k] = 'undecided'
            detail[k] = 'not accepted by the verifier: ' + by['ob_' + k][2][:600]
        if not bad and (res is None or res.get('encountered-vir-error') or (res.get('encountered-error') and not res.get('verified'))):
            for k in todo:
                status[k] = 'undecided'
                detail[k] = 'verifier gave no result: ' + (fails[0][3] if fails else raw)[-600:]
            todo = []
            break
        todo = [k for k in todo if k not in bad]
        if bad and (attempt >= 8 or time.time() > deadline - 30):
            for k in todo:
                status[k] = 'undecided'
                detail[k] = 'no time left'
            todo = []
        if not bad:
            break
    for k in todo:
        if 'ob_' + k not in by:
            status[k] = 'proved'
    again = [k for k in todo if 'ob_' + k in by]
    for k in again:
        kind, f, msg = by['ob_' + k]
        status[k] = 'failed' if kind == 'failed' else 'undecided'
        detail[k] = f + ': ' + msg[:3000]
    # once more with more room and in other ways, before believing a failure
    for rl, vs in ((120, lambda k: [obl[k]['obligation']]), (60, lambda k: variants(obl[k]['body'], obl[k]['obligation']))):
        if not again or time.time() > deadline - 60:
            break
        mods = [('v%d_%s' % (i, k), obl[k]['body'], t) for k in again for i, t in enumerate(vs(k))]
        if not mods:
            break
        by, (fails, res, dt, times, raw) = attempt_one(mods, rl, True)
        if res is None or res.get('encountered-vir-error'):
            continue
        for k in list(again):
            rs = [by.get(nm) for nm, _, _ in mods if nm.split('_', 1)[1] == k]
            if any(r is None for r in rs):
                status[k] = 'proved'
                how[k] = 'proved on a further attempt'
                detail.pop(k, None)
                again.remove(k)
            elif rl == 120 and rs[0][0] == 'failed':
                status[k] = 'failed'
                detail[k] = rs[0][1] + ': ' + rs[0][2][:3000]
    return dict(status=status, detail=detail, secs=secs, smt_ms=smt, lemma_fails=lemma_fails, total=total, attempts=attempt, how=how)


def canary(tag):
    """Vacuity guard: with everything in scope, the verifier must refuse to prove false."""
    text = library([], True) + 'proof fn canary(i: Str, j: Str, c: char, cfg: Cfg, e: Seq<Ev>) ensures false { broadcast use g_all; let a = s_document(i, cfg); let b = blen(i); let d = c_alpha(c); let f = x_lower(i); let g = s_normalize_end_tags(e); }\n}\n'
    text = text.replace('seq![', 'sq![')
    fails, res, dt, times, raw = verus(text, tag + '_canary', 10, 120, ['--verify-function', 'canary', '--verify-root'])
    return any(f[1] == 'canary' for f in fails)


def scan_trusted():
    out = []
    for f in [os.path.join(V, 'proofs', 'prelude.rs')] + lemma_files():
        for n, l in enumerate(open(f), 1):
            if re.search(r'\b(axiom fn|assume\(|admit\(|external_body|assume_specification|uninterp)\b', l):
                out.append('%s:%d %s' % (os.path.basename(f), n, l.strip()))
    return out


def sr_died(p):
    try:
        return json.load(open(p)).get('died')
    except Exception:
        return None


def known(prop):
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) (\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main(a):
    prop = a[0]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(a) > 1 and a[1] in ('quick', 'thorough'):
        tier = a[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import props
    P = props.P[prop]
    budget = 800 if tier == 'quick' else 3300
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(B, 'replay'), exist_ok=True)
    with Lock():
        build_tool()
        herr = build_harness()
    notes = []
    try:
        obl = extract()['obligations']
    except Exception as x:
        obl = {}
        notes.append(str(x))
    # ---- deciding step: the verifier
    roots = P['obligations']
    own = set(P.get('own', roots))
    sel = closure(obl, roots)
    missing = [r for r in roots if r not in obl]
    R = dict(status={}, detail={}, secs=0, smt_ms=0, lemma_fails={}, total=None, attempts=0, how={})
    vac = None
    if sel:
        R = prove(obl, sel, prop, seed, t0 + budget * 0.6, P.get('lemmas', []))
        vac = canary(prop)
    proved = [k for k in sel if R['status'].get(k) == 'proved']
    failed = [k for k in sel if R['status'].get(k) == 'failed']
    undec = [k for k in sel if R['status'].get(k) == 'undecided'] + missing
    lem_needed = P.get('lemmas', [])
    lem_ok = [l for l in lem_needed if l not in R['lemma_fails']]
    # ---- falsifier / bounded stand-in: the compiled crate against the executable contracts
    own_failed = [k for k in failed if k in own]
    sr = None
    secs = (60 if tier == 'quick' else 1200)
    if failed or undec:
        secs = 180 if tier == 'quick' else 1500
    seen = None
    if herr is None:
        so = os.path.join(B, 'replay', prop + '.search.json')
        stier = 'thorough' if (tier == 'thorough' or failed or undec) else 'quick'
        left = max(20, budget - (time.time() - t0) - 40)
        rc, o, e = run([HARNESS, 'search', prop, str(seed), stier, str(min(secs, left)), so], timeout=min(secs, left) + 200)
        if sr_died(so):
            notes.append('the search process died (' + sr_died(so) + ')')
        if rc in (0, 1) and os.path.exists(so):
            sr = json.load(open(so))
        else:
            notes.append('the search ended with %s: %s' % (rc, e[-400:]))
    else:
        notes.append('the search program does not build against this tree: ' + herr[-600:])
    viol = sr.get('violation') if sr else None
    axioms = library = None
    if herr is None:
        rc, o, e = run([HARNESS, 'axioms'], timeout=120)
        axioms = o.strip()
        if rc:
            notes.append('an axiom about the Unicode tables does not hold here: ' + axioms)
        rc, o, e = run([HARNESS, 'library', 'thorough'], timeout=120)
        library = o.strip() or 'not finished'
        if rc:
            notes.append('a contract assumed for std or nom does not agree with the library: ' + library)
    kf = known(prop)
    listed = []
    if viol:
        h = hashlib.sha256(json.dumps(viol['case'], sort_keys=True).encode()).hexdigest()[:16]
        for k, what in kf:
            if k == h:
                listed.append(what)
                viol = None
    replay = os.path.join(B, 'replay', prop + '.json')
    out_lines = ['KNOWN-FINDING: property=%s %s' % (prop, w) for w in listed]
    code = 0
    n_viol = 0
    if viol:
        json.dump({'property': prop, 'case': viol['case'], 'what': viol['what'], 'failed_obligations': {k: R['detail'].get(k) for k in failed},
                   'replay': '%s replay %s' % (HARNESS, replay)}, open(replay, 'w'), indent=1)
        out_lines.append('property %s: %s' % (prop, viol['what'][:500]))
        for k in failed:
            out_lines.append('obligation of %s failed' % obl[k]['key'])
        out_lines.append('VIOLATION property=%s replay=%s' % (prop, replay))
        code, n_viol = 1, 1
    elif own_failed:
        json.dump({'property': prop, 'failed_obligations': {k: {'function': obl[k]['key'], 'where': '%s:%s' % (obl[k].get('file'), obl[k].get('lines')), 'contract': obl[k]['obligation'], 'extracted': obl[k]['body'], 'verifier': R['detail'].get(k)} for k in own_failed},
                   'searched': sr and {'evaluations': sr['evaluations'], 'stages': sr['stages']}}, open(replay, 'w'), indent=1)
        for k in own_failed:
            out_lines.append('obligation of %s failed: %s' % (obl[k]['key'], (R['detail'].get(k) or '')[:300].replace('\n', ' ')))
        out_lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
        code, n_viol = 1, 1
    # ---- evidence
    assumed = sorted({x for k in sel for x in obl[k].get('assumed', [])})
    dropped = sorted({x for k in sel for x in obl[k].get('dropped', [])})
    inl = sorted({x for k in sel for x in obl[k].get('inlined', [])})
    cov = {
        'evaluations': sr['evaluations'] if sr else 0,
        'distinct_nontrivial': sr['distinct_nontrivial'] if sr else 0,
        'rule': P.get('rule', 'inputs of the stages listed under bounded_search; non-trivial = the property had something to say about the input'),
        'samples': (sr or {}).get('samples', [])[:6],
        'bounded_search': (sr or {}).get('stages', []),
    }
    total = R['total'] or {}
    if sel:
        cov.update({
            'obligations': len(sel) + len(missing) + len(lem_needed),
            'discharged': len(proved) + len(lem_ok),
            'checker_cmd': 'verus %s/verus/%s_0.rs --rlimit 30 (Verus 0.2026.09.13, Z3)' % (B, prop),
            'trusted_base': ['Verus and Z3', 'the extraction (tools/): each function is re-read from /repo on this run and printed as one Verus expression'] + assumed + scan_trusted() + P.get('trusted', []),
            'functions_under_contract': {k: {'function': obl[k].get('key'), 'at': '%s:%s' % (obl[k].get('file'), obl[k].get('lines')), 'result': R['status'].get(k)} for k in sel},
            'discharged_on_a_further_attempt': R.get('how', {}),
            'property_lemmas': {l: ('proved' if l in lem_ok else 'not proved') for l in lem_needed},
            'smt_queries_verified': total.get('verified'), 'verifier_seconds': round(R['secs'], 1), 'smt_ms': R['smt_ms'], 'verifier_runs': R['attempts'],
            'inlined_functions': inl, 'dropped_by_extraction': dropped, 'vacuity_guard_ok': vac, 'axioms_checked_over_every_character': axioms, 'assumed_library_contracts_compared_with_the_library': library,
        })
    if P['level'] == 'other' or 'explanation' in P:
        cov['explanation'] = P.get('explanation', '')
    if undec:
        cov['not_decided_on_this_tree'] = {k: R['detail'].get(k, 'no such contract') for k in undec}
    if failed:
        cov['failed_obligations'] = {k: (R['detail'].get(k) or '')[:1500] for k in failed}
    if R['lemma_fails']:
        cov['lemma_failures'] = {k: v[1][:600] for k, v in R['lemma_fails'].items()}
    if notes:
        cov['notes'] = notes
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': P['level'], 'coverage': cov, 'assumptions': P.get('assumptions', []) + assumed + dropped, 'wall_s': round(time.time() - t0, 2), 'violations': n_viol}
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d of %d obligations discharged, %d of %d property lemmas, %d cases searched, %.0f s%s' % (prop, len(proved), len(sel), len(lem_ok), len(lem_needed), cov['evaluations'], time.time() - t0, ''.join('; not decided here: ' + k for k in undec[:4])))
    for f in failed:
        if f not in own:
            print('note: the proof rests on %s, whose own obligation failed; the property itself was searched and no counterexample was found' % obl[f]['key'] if not viol else '')
    for l in out_lines:
        print(l)
    return code
