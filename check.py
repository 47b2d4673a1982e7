#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Deciding step: Verus accepts every obligation generated from /repo's current source for the units of the property.
Next to it: a bounded native run of the real code (labelled bounded), which also supplies failing inputs.
Exit 0: held on everything explored. Exit 1 + VIOLATION line otherwise. See DESIGN.md for the verdict rules.
"""
import sys, os, re, json, subprocess, time, hashlib, glob, concurrent.futures as cf, tempfile, shutil
V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
sys.path.insert(0, os.path.join(V, 'verus'))
import extract

RLIMIT = '120'
VERUS_TIMEOUT = 240
# diagnostics of the verifier that say: an obligation was generated, decided, and not discharged
FAILED = re.compile(r'postcondition not satisfied|precondition not satisfied|precondition not met|invariant not satisfied|assertion failed|'
                    r'possible arithmetic underflow/overflow|possible division by zero|possible bit shift underflow/overflow|decreases not satisfied|'
                    r'recommendation not met|split assertion failure|unable to prove|constructed value may fail|unwrap.*may fail|loop must have a decreases|'
                    r'failed this postcondition|none of the .* satisfied|index in bounds')
RLIM = re.compile(r'[Rr]esource limit|rlimit|timed out|Could not verify', )

def sh(cmd, timeout=None, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return -99, (e.stdout or b'').decode(errors='replace'), (e.stderr or b'').decode(errors='replace')

# ------------------------------------------------------------------------------------------------ Verus
def parse_errors(stderr):
    """[(message, [lines], block text)] of error blocks."""
    out = []
    for blk in re.split(r'(?m)^(?=(?:error|note|warning)(?:\[E\d+\])?: )', stderr):
        m = re.match(r'error(\[E\d+\])?: (.*)', blk)
        if not m or m.group(2).startswith('aborting due to'): continue
        lines = [int(x) for x in re.findall(r'-->\s+\S+?:(\d+):\d+', blk)]
        # lines shown in the gutter
        lines += [int(x) for x in re.findall(r'(?m)^\s*(\d+) [|/]', blk)]
        out.append((m.group(2), bool(m.group(1)), lines, blk.strip()))
    return out

def run_verus(path, extra=(), rlimit=RLIMIT, errors='5'):
    return sh(['verus', os.path.basename(path), '--triggers-mode', 'silent', '--output-json', '--time-expanded', '--rlimit', rlimit, '--multiple-errors', errors, *extra],
              timeout=VERUS_TIMEOUT, cwd=os.path.dirname(path))

def verify_unit(unit, work):
    """-> dict(unit, failed=[(fn, message, text)], undecided=[(fn, reason)], functions=[...], verified=n, smt_ms, assumptions=[...])"""
    res = {'unit': unit, 'failed': [], 'undecided': [], 'functions': [], 'verified': 0, 'smt_ms': 0, 'vacuous': [], 'trusted': [], 'rewrites': []}
    drop = {}
    for attempt in range(6):
        try:
            text, infos, hdr, spans = extract.render(unit, REPO, drop)
        except extract.LostAnchor as e:
            k = getattr(e, 'block', None)
            if k is None or k in drop:
                res['undecided'].append((getattr(e, 'fn', '*'), 'lost anchor: %s' % e)); return res
            drop[k] = 'lost anchor: %s' % e
            continue
        path = os.path.join(work, unit + '.rs')
        open(path, 'w').write(text)
        rc, out, err = run_verus(path)
        if rc == -99:
            res['undecided'].append(('*', 'verifier timeout')); return res
        try: j = json.loads(out)
        except ValueError: j = None
        errs = parse_errors(err)
        def block_of(lines):
            for l in lines:
                for (k, a, b) in spans:
                    if a <= l <= b and not infos[k].get('item_only'): return k
            return None
        hard = [e for e in errs if not FAILED.search(e[0]) and not RLIM.search(e[0])]
        if hard or j is None or 'verification-results' not in (j or {}):
            # not accepted as a program: give up the block the message points at, keep the rest
            ks = {block_of(e[2]) for e in hard} - {None} - set(drop)
            if not ks:
                res['undecided'].append(('*', 'unit not accepted: ' + (hard[0][0] if hard else err.strip()[-300:]))); return res
            for k in ks:
                drop[k] = 'not accepted by the verifier: ' + next(e[0] for e in hard if block_of(e[2]) == k)
            continue
        vr = j['verification-results']
        res['verified'] = vr.get('verified', 0)
        for m in j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            res['smt_ms'] += m.get('time', 0)
            for f in m.get('function-breakdown', []):
                res['functions'].append({'function': f['function'], 'ms': f['time'], 'rlimit': f['rlimit'], 'ok': f['success']})
        for e in errs:
            k = block_of(e[2])
            fn = infos[k]['name'] if k is not None else '(lemma)'
            if RLIM.search(e[0]): res['undecided'].append((fn, e[0]))
            elif k is None: res['undecided'].append((fn, e[0]))
            else: res['failed'].append((fn, e[0], e[3], infos[k]))
        break
    else:
        res['undecided'].append(('*', 'too many functions lost'))
        return res
    for k, why in drop.items(): res['undecided'].append((infos[k]['name'], why))
    res['infos'] = [i for n, i in enumerate(infos) if n not in drop]
    res['dropped'] = list(drop)
    res['trusted'] = scan_trusted(text, unit)
    res['text'] = text
    # vacuity: with `assert(false)` behind every extracted body nothing of it may verify
    if not res['failed'] and res['verified'] > 0:
        res['vacuous'] = vacuity(unit, work, drop)
    return res

def vacuity(unit, work, drop):
    text, infos, hdr, spans = extract.render(unit, REPO, drop, probe=True)
    path = os.path.join(work, unit + '_probe.rs')
    open(path, 'w').write(text)
    rc, out, err = run_verus(path, rlimit='20', errors='0')
    try: j = json.loads(out)
    except ValueError: return []
    bad = []
    errs = parse_errors(err)
    if any(not FAILED.search(e[0]) and not RLIM.search(e[0]) for e in errs): return ['probe not accepted: ' + str([e[0] for e in errs if not FAILED.search(e[0])][:2])]
    hit = set()
    for e in errs:
        for l in e[2]:
            for (k, a, b) in spans:
                if a <= l <= b: hit.add(k)
    for (k, a, b) in spans:
        if k in drop or infos[k].get('item_only') or infos[k].get('noprobe'): continue
        if k not in hit: bad.append(infos[k]['name'])
    return bad

def scan_trusted(text, unit):
    r = []
    for m in re.finditer(r'#\[verifier::external_body\]\s*((?:pub )?(?:proof )?fn\s+\w+|pub struct\s+\w+|struct\s+\w+)', text): r.append('%s: trusted body: %s' % (unit, m.group(1)))
    for m in re.finditer(r'(?m)^\s*// ASSUMED:? (.*)$', text): r.append('%s: assume: %s' % (unit, m.group(1)))
    n = len(re.findall(r'\bassume\s*\(', text)) + len(re.findall(r'\badmit\s*\(', text))
    k = len(re.findall(r'// ASSUMED', text))
    if n > k: r.append('%s: %d assume statements without comment' % (unit, n - k))
    for m in re.finditer(r'assume_specification[^\[]*\[\s*([^\]]+?)\s*\]', text): r.append('%s: assumed contract of %s' % (unit, m.group(1)))
    for m in re.finditer(r'(?s)/// ASSUMED contract on a dependency \(([^)]*)\)', text): r.append('%s: assumed contract: %s' % (unit, m.group(1)))
    return r

def units_of(prop):
    r = []
    for f in sorted(glob.glob(os.path.join(V, 'verus/units/*.vrs'))):
        m = re.search(r'(?m)^//@ unit-props (.*)$', open(f).read())
        if m and prop in m.group(1).split(): r.append(os.path.basename(f)[:-4])
    return r

# ------------------------------------------------------------------------------------------------ native
# further native runs of a property: (crate, target directory, binary)
EXTRA = {'C22': [('harness_core', 'target_core', 'bdsp_harness_core')]}

def build_harness(crate='harness', target='target', bins=()):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(V, target), CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    env['RUSTFLAGS'] = '--cfg bdsp_verif'
    rc, out, err = sh(['cargo', 'build', '--release', '--offline'] + [a for b in bins for a in ('--bin', b)], cwd=os.path.join(V, crate), env=env, timeout=840)
    return rc, err

def run_native(prop, tier, seed, work, extra=(), timeout=600, exe=None):
    out = os.path.join(work, 'native-%s.json' % hashlib.md5(' '.join(extra).encode()).hexdigest()[:6])
    if os.path.exists(out): os.unlink(out)
    exe = exe or os.path.join(V, 'target/release/bdsp_%s' % prop.lower())
    rc, so, se = sh([exe, prop, '--out', out, '--tier', tier, '--seed', str(seed), *extra], timeout=timeout, cwd=work)
    rep = None
    if os.path.exists(out):
        try: rep = json.load(open(out))
        except ValueError: rep = None
    return rc, rep, se

def known(prop):
    fixed, find = [], []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                m = re.match(r'finding: property=\S+ case=/(.*?)/ (.*)', l)
                find.append((re.compile(m.group(1)), m.group(2)))
            elif l.startswith('fixed: property=%s ' % prop): fixed.append(l)
    return fixed, find

def main():
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else None) or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vf-%s-' % prop)
    try: return decide(prop, tier, seed, t0, work)
    finally: shutil.rmtree(work, ignore_errors=True)

def decide(prop, tier, seed, t0, work):
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(V, 'replay'), exist_ok=True)
    replays = []
    extra_reps = []
    def replay(name, body):
        p = os.path.join(V, 'replay', '%s-%s.json' % (prop, re.sub(r'[^A-Za-z0-9_.-]+', '_', name)[:80]))
        json.dump(body, open(p, 'w'), indent=1)
        replays.append(p)
        return p
    units = units_of(prop)
    ex = cf.ThreadPoolExecutor(max_workers=5)
    futs = [ex.submit(verify_unit, u, work) for u in units]
    rc, berr = build_harness(bins=('bdsp_%s' % prop.lower(),))
    if rc != 0:
        print('harness does not build against /repo:\n' + berr[-3000:]); ex.shutdown(cancel_futures=True)
        return 2
    # ---- bounded native run
    rc, rep, se = run_native(prop, tier, seed, work, timeout=500)
    viol = []          # (id, msg)
    for (crate, target, exe) in EXTRA.get(prop, []):
        rc1, berr = build_harness(crate, target)
        if rc1 != 0:
            print('harness %s does not build against /repo:\n%s' % (crate, berr[-3000:])); ex.shutdown(cancel_futures=True)
            return 2
        path = os.path.join(V, target, 'release', exe)
        rc1, rep1, se1 = run_native(prop, tier, seed, work, ('--time', '250'), timeout=500, exe=path)
        if rc1 != 0 or rep1 is None: viol.append((crate + ': ?', 'the process ended abnormally (status %s)' % rc1))
        else:
            viol += [(crate + ': ' + v['id'], v['msg']) for v in rep1['violations']]
            extra_reps.append((crate, rep1))
    aborted = False
    if rc != 0 or rep is None:
        # the process died (abort, signal): find the case
        aborted = True
        rc2, rep2, se2 = run_native(prop, tier, seed, work, ('--trace',), timeout=500)
        last = [l for l in se2.split('\n') if l.startswith('CASE ')]
        if rc2 != 0 or rep2 is None:
            viol.append((last[-1][5:] if last else '?', 'the process ended abnormally (status %s)%s' % (rc2, ': does not terminate' if rc2 == -99 else '')))
        else: rep = rep2
    if rep is not None: viol += [(v['id'], v['msg']) for v in rep['violations']]
    vres = [f.result() for f in futs]
    failed = [(r['unit'],) + f for r in vres for f in r['failed'] if not f[3].get('props') or prop in f[3]['props'].split(',')]
    undecided = [(r['unit'],) + u for r in vres for u in r['undecided']]
    fixed, find = known(prop)
    def is_known(i, m):
        return next((w for (rx, w) in find if rx.search(i)), None)
    if failed and not [v for v in viol if not is_known(*v)] and tier == 'quick':
        # a proof broke: look harder for a failing input
        rc3, rep3, _ = run_native(prop, 'thorough', seed + 1, work, ('--time', '200'), timeout=300)
        if rep3 is not None: viol += [(v['id'], v['msg']) for v in rep3['violations']]
    new = [v for v in viol if not is_known(*v)]
    for (rx, w) in find:
        if any(rx.search(v[0]) for v in viol): print('KNOWN-FINDING: property=%s %s' % (prop, w))
        else: print('note: listed finding not reproduced: %s' % w)
    if rep is not None:
        for crate, r1 in extra_reps:
            rep['evaluations'] += r1['evaluations']; rep['distinct_nontrivial'] += r1['distinct_nontrivial']
            rep['groups'].update({crate + ': ' + k: n for k, n in r1['groups'].items()})
    lines = []
    if new:
        groups = {}
        for i, m in new: groups.setdefault(i.split()[0], []).append((i, m))
        for g, vs in list(groups.items())[:5]:
            p = replay(g, {'property': prop, 'case': vs[0][0], 'observed': vs[0][1], 'more': vs[1:10],
                           'replay': '%s %s --only "%s" --out /dev/stdout --tier %s --seed %d' % (os.path.join(V, 'target/release/bdsp_%s' % prop.lower()), prop, vs[0][0], tier, seed),
                           'failed_obligations': [{'unit': f[0], 'function': f[1], 'obligation': f[2], 'verifier': f[3]} for f in failed]})
            lines.append('VIOLATION property=%s replay=%s' % (prop, p))
    elif failed:
        byfn = {}
        for f in failed: byfn.setdefault((f[0], f[1]), []).append(f)
        for (u, fn), fs in list(byfn.items())[:5]:
            p = replay('%s-%s' % (u, fn), {'property': prop, 'unit': u, 'function': fn, 'file': fs[0][4]['file'], 'line': fs[0][4].get('line'),
                       'failed_obligations': [f[2] for f in fs], 'verifier_output': [f[3] for f in fs],
                       'note': 'no failing input found by the bounded native run; the obligation is discharged on the unchanged tree'})
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
    # ---- evidence
    nfun = [i for r in vres for i in r.get('infos', []) if not i.get('item_only')]
    seen = set(); funs = []
    for i in nfun:
        key = (i['file'], i['name'])
        if key in seen: continue
        seen.add(key)
        funs.append('%s: %s%s' % (i['file'], i['fn'], (' (closure %s)' % i['lifted_closure']) if i.get('lifted_closure') else ''))
    discharged = sum(r['verified'] for r in vres)
    obligations = discharged + len({(f[0], f[1]) for f in failed}) + len(undecided)
    trusted = sorted({t for r in vres for t in r['trusted']})
    vac = [(r['unit'], v) for r in vres for v in r['vacuous']]
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': 'verus <unit>.rs --rlimit %s (Verus 0.2026.09.13, Z3); units: %s; rendered from /repo on this run by verus/extract.py' % (RLIMIT, ' '.join(units)),
        'trusted_base': ['Verus, Z3, rustc front end', 'the extractor verus/extract.py and the rewrites it lists'] + trusted,
        'functions_under_contract': funs,
        'extraction_rewrites': sorted({'%s: %s' % (i['name'], w) for i in nfun for w in i['rewrites']}),
        'verifier_ms': {r['unit']: r['smt_ms'] for r in vres},
        'slowest_queries': sorted([(f['ms'], f['function']) for r in vres for f in r['functions']], reverse=True)[:5],
        'not_proved_on_this_run': ['%s/%s: %s' % u for u in undecided],
        'failed_obligations': ['%s/%s: %s' % (f[0], f[1], f[2]) for f in failed],
        'vacuity_probe': {'rule': 'assert(false) behind every extracted body has to fail', 'vacuous': ['%s/%s' % v for v in vac]},
        'evaluations': rep['evaluations'] if rep else 0,
        'distinct_nontrivial': rep['distinct_nontrivial'] if rep else 0,
        'rule': 'BOUNDED native stand-in on the real crate (not counted as proved): deterministic enumeration of small shapes plus seeded values, per operation group; a case is non-trivial when its input has at least one element; distinct by case id',
        'samples': rep['samples'] if rep else [],
        'native_groups': rep['groups'] if rep else {},
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof' if units else 'exploration', 'coverage': cov,
          'assumptions': trusted + ['lengths stay below isize::MAX; usize is 64 bit', 'functions not listed under functions_under_contract are covered by the bounded native run only'],
          'wall_s': round(time.time() - t0, 1), 'violations': len(lines)}
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    for u in undecided: print('not proved on this run (bounded run stands in): %s/%s: %s' % u)
    for v in vac: print('vacuity probe: %s/%s' % v)
    print('%s: %d of %d obligations discharged (%d functions under contract), %d native cases, %.1f s' % (prop, discharged, obligations, len(funs), cov['evaluations'], ev['wall_s']))
    for l in lines: print(l)
    return 1 if lines else 0

if __name__ == '__main__':
    sys.exit(main())
