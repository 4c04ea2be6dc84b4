"""Runs Verus on generated units and classifies the outcome of every obligation group."""
import json, os, re, subprocess, sys, time, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OBLIG = [
    'postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed',
    'possible arithmetic underflow/overflow', 'possible division by zero', 'decreases not satisfied',
    'possible bit shift underflow/overflow', 'assertion not satisfied', 'assertion failure',
    'requires not satisfied', 'ensures not satisfied', 'loop invariant', 'cannot prove termination', 'unreachable',
    'assert_by', 'index out of bounds', 'could not prove termination', 'constructed value may fail',
    'call to closure', 'possible truncation', 'failed this postcondition', 'unable to prove',
    'fails to satisfy', 'call to non-static', 'Call to non-static', 'assert_bitvector', 'bitvector ', 'bit-vector',
]
LIMIT = ['rlimit', 'Resource limit', 'timed out', 'took too long', 'incomplete quantifier']

def is_oblig(msg):
    return any(msg.startswith(o) or o in msg for o in OBLIG)

def run_verus(path, rlimit, multi, timeout, extra=()):
    cmd = ['verus', path, '--output-json', '--time-expanded', '--error-format=json', '--rlimit', str(rlimit),
           '--multiple-errors', str(multi), '--num-threads', '4'] + list(extra)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=os.path.dirname(path))
        out, err, rc = p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace'), p.returncode
    except subprocess.TimeoutExpired as e:
        return {'timeout': True, 'diags': [], 'res': None, 'wall': time.time() - t0, 'cmd': ' '.join(cmd)}
    diags = []
    for ln in err.split('\n'):
        if ln.startswith('{'):
            try: d = json.loads(ln)
            except ValueError: continue
            # only places in the generated text: a span may also point into vstd
            d['spans'] = [x for x in d.get('spans', []) if os.path.basename(x.get('file_name', '')) == os.path.basename(path)]
            if d.get('level') == 'error' and not d['message'].startswith('aborting due'): diags.append(d)
        elif 'panicked' in ln or 'error:' in ln:
            diags.append({'message': 'TOOL: ' + ln, 'spans': [], 'rendered': ln, 'level': 'error'})
    res = None
    try:
        res = json.loads(out[out.index('{'):])
    except ValueError: pass
    return {'timeout': False, 'diags': diags, 'res': res, 'wall': time.time() - t0, 'rc': rc, 'cmd': ' '.join(cmd)}

def fn_at(g, line):
    for f in g.fns:
        if f['start'] <= line <= f['end']: return f
    return None

def drop_body(text, g, names):
    """turn the named generated functions into assumed contracts (body lost); returns new text"""
    lines = text.split('\n')
    for f in g.fns:
        if f['name'] in names and f['start'] > 0:
            seg = '\n'.join(lines[f['start']-1:f['end']])
            toks = vx.tokenize(seg)
            # last top-level brace group is the body
            i = 0; last = None
            while i < len(toks):
                if toks[i][0] == 'p' and toks[i][1] in vx.OPEN:
                    c = vx.match_close(toks, i)
                    if toks[i][1] == '{': last = (toks[i][2], toks[c][3])
                    i = c + 1
                else: i += 1
            nl = seg[last[0]:last[1]].count('\n')
            seg = '#[verifier::external_body] ' + seg[:last[0]] + '{ unimplemented!() }' + '\n' * nl + seg[last[1]:]
            sl = seg.split('\n')
            # keep line count
            lines[f['start']-1:f['end']] = sl
    return '\n'.join(lines)

def verify_unit(name, workdir, rlimit=60, timeout=600, vacuity=True, budget=None):
    """returns dict: unit, functions, obligations, discharged, failed[], undecided[], lost[], vac..., cmd"""
    tpl = os.path.join(VERIF, 'verus', name + '.vrs')
    out = {'unit': name, 'failed': [], 'undecided': [], 'lost': [], 'obligations': 0, 'discharged': 0, 'functions': [],
           'vacuity_probes': 0, 'vacuity_reached': 0, 'smt_ms': 0, 'wall': 0, 'subs': [], 'cmd': '', 'trusted': [], 'unreached': []}
    if budget is None: budget = timeout * 1.5
    left = lambda: max(20, budget - out['wall'])
    g = vx.generate(tpl)
    out['lost'] = list(g.lost)
    out['functions'] = ['%s:%s' % (f['file'], f['src']) for f in g.fns if f['start'] > 0]
    for f in g.fns:
        for s in f['subs']: out['subs'].append('%s: `%s` -> `%s`' % (f['name'], s[0], s[1]))
    path = os.path.join(workdir, name + '.rs')
    text = g.text
    dropped = set()
    r = None
    for attempt in range(6):
        open(path, 'w').write(text)
        r = run_verus(path, rlimit, 3, min(timeout, left()))
        out['wall'] += r['wall']; out['cmd'] = r['cmd']
        if r['timeout']:
            out['undecided'].append('%s: verifier timeout' % name); return out, g
        tool = [d for d in r['diags'] if not is_oblig(d['message']) and not any(l in d['message'] for l in LIMIT)]
        if not tool: break
        # attribute tool errors (unsupported construct, type error after an edit) to functions; keep the others decided
        bad = set()
        for d in tool:
            for sp in d['spans']:
                f = fn_at(g, sp['line_start'])
                if f and f['name'] not in dropped: bad.add(f['name'])
        if not bad:
            out['undecided'].append('%s: tool error: %s' % (name, tool[0]['message'][:300])); return out, g
        for d in tool[:4]: out['undecided'].append('%s: tool: %s' % (','.join(sorted(bad)), d['message'][:200]))
        dropped |= bad
        text = drop_body(g.text, g, dropped)
    else:
        out['undecided'].append('%s: tool errors persist' % name); return out, g
    # a proof the solver did not find may be found along another search path: any accepted run of a function counts
    def where(d):
        for s in d['spans']:
            f = fn_at(g, s['line_start'])
            if f: return f['name']
        ln = g.text.split('\n')[:d['spans'][0]['line_start']] if d['spans'] else []
        return next((m.group(1) for l in reversed(ln) for m in [re.search(r'fn (\w+)', l)] if m), '')
    for seed in (7, 23):
        if not r['diags'] or r['wall'] > 200 or left() < 30: break
        r2 = run_verus(path, rlimit, 3, min(timeout, left()), ['--smt-option', 'smt.random_seed=%d' % seed, '--smt-option', 'sat.random_seed=%d' % seed])
        out['wall'] += r2['wall']
        if r2['timeout'] or r2['res'] is None: break
        still = {where(d) for d in r2['diags']}
        keep = [d for d in r['diags'] if where(d) in still]
        n0, n1 = len({where(d) for d in r['diags']}), len({where(d) for d in keep})
        if n1 < n0:
            out['retried'] = out.get('retried', 0) + n0 - n1
            v = r['res'].get('verification-results', {}) if r['res'] else {}
            if v: v['verified'] = v.get('verified', 0) + n0 - n1; v['errors'] = max(0, v.get('errors', 0) - (n0 - n1))
        r['diags'] = keep
    res = r['res'] or {}
    vr = res.get('verification-results', {})
    out['discharged'] = vr.get('verified', 0)
    out['obligations'] = vr.get('verified', 0) + vr.get('errors', 0)
    t = res.get('times-ms', {})
    try: out['smt_ms'] = t['smt']['total'] if isinstance(t.get('smt'), dict) else 0
    except Exception: pass
    if not r['diags'] and not vr.get('success', False) and not res:
        out['undecided'].append('%s: no verifier result' % name)
    seen = set()
    for d in r['diags']:
        sp = next((s for s in d['spans'] if s.get('is_primary')), d['spans'][0] if d['spans'] else None)
        f = None
        for s in ([sp] if sp else []) + d['spans']:
            f = fn_at(g, s['line_start'])
            if f: break
        where = f['name'] if f else 'lemma'
        txt = (sp['text'][0]['text'].strip() if sp and sp.get('text') else '')[:200]
        e = {'function': where, 'src': ('%s:%s' % (f['file'], f['src_line'])) if f else '', 'obligation': d['message'], 'at': txt,
             'rendered': d.get('rendered', '')[:4000]}
        if any(l in d['message'] for l in LIMIT): out['undecided'].append('%s: %s' % (where, d['message'])); continue
        k = (where, d['message'], txt)
        if k in seen: continue
        seen.add(k)
        if f is None and sp:   # obligations about tables taken from the source (`//@table`)
            for ln in reversed(g.text.split('\n')[:sp['line_start']]):
                mt = re.search(r'proof fn (\w+)', ln)
                if mt: break
            if mt and mt.group(1).startswith('table_'):
                e['function'] = mt.group(1); out['failed'].append(e); continue
        if f is None:
            out['undecided'].append('lemma/prelude obligation not discharged: %s `%s`' % (d['message'], txt)); continue
        out['failed'].append(e)
    for ln in g.text.split('\n'):
        m = re.search(r'(assume_specification.*?\[[^\]]*\](?=\s*\()|external_body|assume\(|admit\()', ln)
        if m: out['trusted'].append(ln.strip()[:160])
    if vacuity and left() < 60: vacuity = False; out['unreached'].append('probes not run: out of time')
    if vacuity:
        gv = vx.generate(tpl, vacuity=True)
        tv = drop_body(gv.text, gv, dropped) if dropped else gv.text
        vpath = os.path.join(workdir, name + '_vac.rs')
        open(vpath, 'w').write(tv)
        probes = {i + 1 for i, l in enumerate(tv.split('\n')) if 'VXPROBE' in l}
        hit = set()
        for lim in (min(20, rlimit), rlimit):
            rv = run_verus(vpath, lim, 200, min(timeout, left()))
            out['wall'] += rv['wall']
            for d in rv['diags']:
                for s in d['spans']:
                    if s['line_start'] in probes: hit.add(s['line_start'])
            if not probes - hit or left() < 30: break
        out['vacuity_probes'] = len(probes); out['vacuity_reached'] = len(hit)
        for l in sorted(probes - hit):
            f = fn_at(gv, l); out['unreached'].append('%s@%d' % (f['name'] if f else '?', l))
    return out, g

if __name__ == '__main__':
    wd = os.environ.get('VX_WORK') or os.path.join(VERIF, 'work', 'dev'); os.makedirs(wd, exist_ok=True)
    for u in sys.argv[1:]:
        if u.startswith('-'): continue
        o, g = verify_unit(u, wd, vacuity='--novac' not in sys.argv)
        print(u, 'discharged %d/%d' % (o['discharged'], o['obligations']), 'fns', len(o['functions']), 'probes %d/%d' % (o['vacuity_reached'], o['vacuity_probes']), 'wall %.1f smt %s' % (o['wall'], o['smt_ms']))
        for k in ('lost', 'undecided', 'unreached'):
            for x in o[k]: print('  ', k.upper(), x)
        for x in o['failed']: print('   FAILED', x['function'], x['obligation'], '|', x['at']); print(x['rendered'] if '-v' in sys.argv or '--v' in sys.argv else '')
