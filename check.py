#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Runs every layer that decides PROPERTY against the current tree of /repo, writes evidence/<id>.json, prints
VIOLATION lines.  Exit 0: held on everything explored.  Exit 1: violation."""
import json, os, re, shutil, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import vx, vrun
from props import PROPS

ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

def sh(cmd, timeout, cwd=VERIF, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env or ENV)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace')

def target_dir():
    return os.path.join(VERIF, 'work', 'target')

def kit_lock():
    # the lock file pins the same dependency versions as /repo
    src = '/repo/Cargo.lock'; dst = os.path.join(VERIF, 'kit', 'Cargo.lock')
    if os.path.exists(src) and not os.path.exists(dst): shutil.copy(src, dst)

PIECES = {'has_utils': '/repo/src/utils/mod.rs', 'has_math': '/repo/src/math/utils.rs', 'has_autobreak': '/repo/src/codecs/pnm/autobreak.rs',
          'has_entropy': '/repo/src/codecs/jpeg/entropy.rs', 'has_jpegbits': 'jpegbits.rs', 'has_readbuffer': 'readbuffer.rs'}
def build_kit():
    """builds the replay crate; private pieces cut out of /repo that no longer compile on their own are left out.
    Returns (binary or None, compiler output, pieces left out)."""
    kit_lock()
    env = dict(ENV, CARGO_TARGET_DIR=target_dir())
    env.pop('KIT_SKIP', None)
    skip = []; first = ''
    for attempt in range(3):
        e = dict(env, KIT_SKIP=','.join(skip)) if skip else env
        rc, out = sh(['cargo', 'build', '--offline', '--quiet'], 600, os.path.join(VERIF, 'kit'), e)
        if rc == 0: return os.path.join(target_dir(), 'debug', 'kit'), first, skip
        first = first or out
        if attempt == 0:
            skip = [k for k, f in PIECES.items() if re.search(r'--> \S*' + re.escape(f), out)]
            if skip: continue
        skip = sorted(PIECES)
        if attempt == 1 and 'could not compile `image`' in out: break
    return None, first, skip

def run_kit(binary, prop, ms, timeout, only=None):
    rc, out = sh([binary, 'run', prop, str(SEED), str(ms)] + ([only] if only else []), timeout)
    res = []
    for ln in out.split('\n'):
        if ln.startswith('{'):
            try: res.append(json.loads(ln))
            except ValueError: pass
    return rc, res, out

def run_kani(prop, harnesses, workdir, timeout):
    """harnesses: list of dict(name=, complete=bool, bound=str). Returns list of results."""
    if not harnesses: return [], ''
    kit_lock()
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(VERIF, 'work', 'kani-target'))
    cmd = ['cargo', 'kani', '--output-format', 'terse', '-j', '6', '-Z', 'unstable-options', '--harness-timeout', '%ds' % min(timeout - 120, 600), '--exact']
    for h in harnesses: cmd += ['--harness', 'proofs::' + h['name']]
    t0 = time.time()
    rc, out = sh(cmd, timeout, os.path.join(VERIF, 'kit'), env)
    res = []
    # terse parallel output: "Thread N: Checking harness X..." then "Thread N:\nVERIFICATION RESULT: ..."
    cur = {}; status = {}; nchecks = {}; fails = {}
    last = None
    for ln in out.split('\n'):
        m = re.match(r'(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.', ln)
        if m: cur[m.group(1)] = m.group(2); last = m.group(1); continue
        m = re.match(r'Thread (\d+):\s*$', ln)
        if m: last = m.group(1); continue
        h = cur.get(last)
        m = re.match(r'\s*\*\* (\d+) of (\d+) failed(.*)', ln)
        if m and h: nchecks[h] = (int(m.group(2)), int(m.group(1)))
        m = re.match(r'Failed Checks: (.*)', ln)
        if m and h: fails.setdefault(h, []).append(m.group(1))
        m = re.match(r'VERIFICATION:- (\w+)', ln)
        if m and h: status[h] = m.group(1)
        if 'CBMC timed out' in ln or 'CBMC failed' in ln:
            if h: status[h] = 'TIMEOUT'
    for h in harnesses:
        k = 'proofs::' + h['name']
        res.append({'harness': h['name'], 'status': status.get(k, 'NORESULT'), 'checks': nchecks.get(k, (0, 0))[0],
                    'failed_checks': fails.get(k, []), 'complete': h.get('complete', False), 'bound': h.get('bound', ''), 'contract': h.get('contract', h['name'])})
    return res, out

def kani_cex(harness, timeout=300):
    """concrete bytes of every kani::any() of a failing harness, as integers in draw order"""
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(VERIF, 'work', 'kani-target'))
    rc, out = sh(['cargo', 'kani', '--exact', '--harness', 'proofs::' + harness, '-Z', 'concrete-playback', '--concrete-playback=print', '--output-format', 'terse'], timeout, os.path.join(VERIF, 'kit'), env)
    i = out.find('concrete_vals')
    if i < 0: return None, out
    seg = out[i:out.find('];', i)]
    vals = []
    for m in re.finditer(r'vec!\[([\d, ]*)\]', seg[seg.index('vec![') + 5:] if 'vec![' in seg else ''):
        b = bytes(int(x) for x in m.group(1).split(',') if x.strip())
        vals.append(int.from_bytes(b, 'little'))
    return vals, out

def headers_changed(units):
    """functions whose loops, closures or nested functions differ from the ones the invariants were written for"""
    p = os.path.join(VERIF, 'verus', 'headers.json')
    if not os.path.exists(p): return set()
    want = json.load(open(p)); ch = set()
    for u in units:
        for k, h in current_headers(u).items():
            if want.get(k) is not None and want[k] != h: ch.add(k.split('|')[2])
    return ch

def structure(body, loops):
    """parts of a body that carry no contract of their own: closures, nested functions, and the variables its loops change"""
    T = [t[1] for t in vx.tokenize(body)]
    n = sum(1 for i in range(1, len(T)) if T[i] in ('|', '||') and T[i - 1] in ('(', ',', '=', '{', ';', 'return', '=>', 'move'))
    out = ['closures %d' % n] if n else []
    out += ['fn ' + T[i + 1] for i in range(len(T) - 1) if T[i] == 'fn']
    if loops: out += ['mut %d' % sum(1 for i in range(len(T) - 1) if T[i] == 'mut' and T[i - 1] != '&')]
    return out

def current_headers(unit):
    g = vx.generate(os.path.join(VERIF, 'verus', unit + '.vrs'))
    out = {}
    for f in g.fns:
        if f['start'] < 0: continue
        try:
            s = vx.SrcFile.get(f['file']); T = s.toks
            for fn in s.fns:
                if fn[0] == f['src'] and fn[1] == f['ctx'] and fn[3] is not None:
                    body = s.text[T[fn[3]][2]:T[fn[4]][3]]
                    loops = [vx.norm([t for t in vx.tokenize(body) if l[1] <= t[2] < l[2]]) for l in vx.find_loops(body)]
                    out['%s|%s|%s' % (unit, f['file'], f['name'])] = loops + structure(body, loops)
        except Exception: pass
    return out

def main():
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]; args = [a for a in args if a != tier]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    prop = args[0]; cfg = PROPS[prop]
    wd = os.path.join(VERIF, 'work', prop); os.makedirs(wd, exist_ok=True)
    rd = os.path.join(VERIF, 'replays', prop)
    if os.path.isdir(rd): shutil.rmtree(rd)
    os.makedirs(rd, exist_ok=True); os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    kf = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings'] if k['property'] == prop and k['status'] == 'open']
    quick = tier == 'quick'
    ms = cfg.get('ms', 1500) if quick else 20000
    with ThreadPoolExecutor(6) as ex:
        fk = ex.submit(build_kit)
        fv = [ex.submit(vrun.verify_unit, u, wd, 60 if quick else 200, 420, True, 480 if quick else 2000) for u in cfg.get('verus', []) + ([] if quick else cfg.get('verus_thorough', []))]
        fkani = ex.submit(run_kani, prop, [h for h in cfg.get('kani', []) if not (quick and h.get('thorough'))], wd, 700 if quick else 5000)
        kit, kout, kskip = fk.result()
        if kit: krc, kres, kraw = run_kit(kit, prop, ms, 600)
        else: krc, kres, kraw = -1, [], kout
        vres = [f.result()[0] for f in fv]
        kani, kaniraw = fkani.result()
    open(os.path.join(wd, 'kani.log'), 'w').write(kaniraw)
    notes, undecided = [], []
    if kskip and kit: undecided.append('private pieces no longer compile on their own, contracts on them skipped: %s' % kskip)
    if not kit: undecided.append('replay/stand-in crate did not build: ' + kout[-600:])
    elif krc not in (0, 1) or (krc == 0 and len(kres) == 0 and cfg.get('kit', True)):
        undecided.append('replay crate ended with %s: %s' % (krc, kraw[-400:]))
    bad_kit = [r for r in kres if not r['holds']]
    violations = []; known = []
    for v in vres:
        for x in v['lost']: undecided.append('lost anchor: ' + x)
        for x in v['undecided']: undecided.append(x)
        if v['unreached']: notes.append('vacuity probes not reached in %s: %s' % (v['unit'], v['unreached'][:5]))
    failed = [dict(e, unit=v['unit'], backend='verus') for v in vres for e in v['failed']]
    # a unit shared with another property: obligations of functions that only the other one states are reported there
    for u, own in cfg.get('verus_own', {}).items():
        other = sorted({e['function'] for e in failed if e['unit'] == u and not re.fullmatch(own, e['function'])})
        if other: notes.append('obligations of %s in the shared unit %s belong to another property' % (other, u))
        failed = [e for e in failed if not (e['unit'] == u and e['function'] in other)]
    for h in kani:
        if h['status'] == 'FAILED':
            real = [c for c in h['failed_checks'] if 'unwinding assertion' not in c]
            unsup = [c for c in h['failed_checks'] if 'is not currently supported' in c or 'unsupported' in c.lower()]
            if (not real) or unsup: undecided.append('kani %s: %s' % (h['harness'], h['failed_checks'][:3]))
            else: failed.append({'function': h['harness'], 'obligation': '; '.join(real[:5]), 'at': '', 'backend': 'kani', 'rendered': '\n'.join(h['failed_checks']), 'unit': 'kani'})
        elif h['status'] != 'SUCCESSFUL':
            undecided.append('kani %s: %s' % (h['harness'], h['status']))
    # obligations that failed without a concrete witness so far: get the verifier's counterexample / search harder
    concrete = []
    for r in bad_kit: concrete.append({'contract': r['contract'], 'draws': r['draws'], 'message': r['message'], 'how': 'executable contract on the real code'})
    if failed and not concrete and kit:
        for e in failed:
            if e['backend'] == 'kani':
                vals, raw = kani_cex(e['function'])
                h = next(h for h in kani if h['harness'] == e['function'])
                if vals is not None:
                    rc, out = sh([kit, 'replay', prop, h['contract'], ','.join(map(str, vals))], 120)
                    if rc == 1 and '"holds":false' in out:
                        concrete.append({'contract': h['contract'], 'draws': ','.join(map(str, vals)), 'message': out.strip()[-1500:], 'how': 'counterexample of the verifier replayed on the real code'}); break
        if not concrete:
            krc2, kres2, _ = run_kit(kit, prop, max(8000, 20000 if quick else 60000) // max(1, len(kres)) * 3, 300)
            for r in kres2:
                if not r['holds']: concrete.append({'contract': r['contract'], 'draws': r['draws'], 'message': r['message'], 'how': 'search after a failed obligation'})
    unknown = []
    for c in concrete:
        k = next((k for k in kf if k['contract'] == c['contract'] and re.search(k['match'], c['message'])), None)
        if k: known.append((k, c))
        else: unknown.append(c)
    rc = 0; nviol = 0
    for k, c in known: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if unknown:
        path = os.path.join(rd, 'violation.json')
        json.dump({'property': prop, 'concrete': unknown, 'failed_obligations': failed, 'undecided': undecided,
                   'replay': ['cd /verif/kit && cargo run --offline -q --bin kit -- replay %s %s %s' % (prop, c['contract'], c['draws']) for c in unknown]}, open(path, 'w'), indent=1)
        for c in unknown: print('  failing input: contract %s, draws [%s]: %s' % (c['contract'], c['draws'][:200], c['message'][:400]))
        for e in failed: print('  failed obligation: %s %s (%s)' % (e['function'], e['obligation'][:200], e['backend']))
        print('VIOLATION property=%s replay=%s' % (prop, path)); rc = 1; nviol = len(unknown)
    elif failed and not known:
        ch = headers_changed(cfg.get('verus', []))
        hard = [e for e in failed if not (e['backend'] == 'verus' and e['function'] in ch)]
        for e in failed:
            if e not in hard: undecided.append('%s: %s (loops, closures or nested functions changed: invariants no longer anchored)' % (e['function'], e['obligation']))
        if hard:
            path = os.path.join(rd, 'obligation.json')
            json.dump({'property': prop, 'failed_obligations': hard, 'searched': kres, 'note': 'no failing input found by replay search'}, open(path, 'w'), indent=1)
            for e in hard: print('  failed obligation: %s in %s (%s) at `%s`' % (e['obligation'][:200], e['function'], e['backend'], e['at']))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path)); rc = 1; nviol = len(hard)
    ob = sum(v['obligations'] for v in vres) + sum(h['checks'] for h in kani)
    di = sum(v['discharged'] for v in vres) + sum(h['checks'] for h in kani if h['status'] == 'SUCCESSFUL' and h['complete'])
    di_b = sum(h['checks'] for h in kani if h['status'] == 'SUCCESSFUL' and not h['complete'])
    ob -= di_b
    trusted = sorted({t for v in vres for t in v['trusted']})
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': cfg.get('level', 'proof'),
          'coverage': {
              'obligations': ob, 'discharged': di,
              'checker_cmd': '; '.join(sorted({v['cmd'] for v in vres})) + ('; cargo kani (%d harnesses)' % len(kani) if kani else ''),
              'trusted_base': trusted + cfg.get('trusted', []),
              'functions_under_contract': sorted({f for v in vres for f in v['functions']}) + [h['harness'] for h in kani if h['complete']],
              'verus_units': [{k: v[k] for k in ('unit', 'obligations', 'discharged', 'vacuity_probes', 'vacuity_reached', 'smt_ms', 'wall')} for v in vres],
              'kani_harnesses': kani, 'kani_bounded_checks_not_counted_as_proved': di_b,
              'extraction_substitutions': [s for v in vres for s in v['subs']],
              'bounded_standins': [{k: r.get(k) for k in ('contract', 'covers', 'kind', 'evaluations', 'discarded', 'complete')} for r in kres],
              'undecided': undecided, 'notes': notes,
              'explanation': cfg.get('explanation', '')},
          'assumptions': cfg.get('assumptions', []) + ['extraction drops attributes, doc comments and visibility; substitutions are listed in coverage.extraction_substitutions'],
          'wall_s': round(time.time() - t0, 1), 'violations': nviol}
    if ev['level'] == 'other' and not ev['coverage']['explanation']: ev['coverage']['explanation'] = 'see DESIGN.md'
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s tier=%s obligations %d discharged %d (+%d bounded checks), stand-ins %d, undecided %d, wall %.1fs, exit %d' % (prop, tier, ob, di, di_b, len(kres), len(undecided), time.time() - t0, rc))
    for u in undecided: print('  undecided: ' + u[:300])
    for u in notes: print('  note: ' + u[:300])
    sys.exit(rc)

if __name__ == '__main__': main()
