#!/usr/bin/env python3
"""run.py ID : decides property ID on /repo's current tree (see DESIGN.md)."""
import json, os, re, shutil, subprocess, sys, time, hashlib
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('H2D_REPO', '/repo')
BUILD = os.path.join(V, 'build')
CXX = ['g++', '-std=c++17']

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    src = [os.path.join(V, 'engine', f) for f in ('sym.cpp', 'sym.hpp')]
    h = hashlib.sha1(b''.join(open(f, 'rb').read() for f in src)).hexdigest()[:12]
    o = os.path.join(BUILD, 'sym-%s.o' % h)
    if not os.path.exists(o):
        r = sh(CXX + ['-O2', '-c', src[0], '-o', o + '.%d' % os.getpid()])
        if r.returncode:
            print(r.stderr[-3000:]); sys.exit(2)
        os.rename(o + '.%d' % os.getpid(), o)
    return o

def sym_header(dst, spec):
    """The only rewriting of the library text: the floating type double becomes the symbolic number
    (with "symfloat" also the float points, segments and circles that the drawing code uses)."""
    s = open(os.path.join(REPO, 'homog2d.hpp')).read()
    s = re.sub(r'(?<!long )\bdouble\b', 'symx::Num', s)
    s = re.sub(r'\bstd::stod\b', 'symx::h2d_stod', s)
    if spec.get('symfloat'):
        s = '\n'.join(l if l.startswith('using ') else re.sub(r'\b(Point2d_|Segment_|Circle_)<float>', r'\1<symx::Num>', l) for l in s.split('\n'))
    open(os.path.join(dst, 'homog2d_sym.hpp'), 'w').write(s)

def parse_rep(out):
    fails, obs = [], {}
    for l in out.splitlines():
        if l.startswith('REPLAY-FAIL '): fails.append(l[12:].strip())
        elif l.startswith('OBS '):
            k, _, v = l[4:].partition('=')
            obs.setdefault(k, []).append(v)
    return fails, obs

def replay(binary, case, text, path):
    open(path, 'w').write(text + '\n')
    try:
        r = subprocess.run([binary, case, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=10, errors='replace')
    except subprocess.TimeoutExpired:
        return 'hang', ['terminates'], {}
    f, o = parse_rep(r.stdout)
    if r.returncode < 0:
        return 'crash', f + ['no-crash'], o
    return r.returncode, f, o

def variants(text):
    """The solver's assignment, then the same assignment with its values rounded."""
    kv = [t.partition('=') for t in text.split()]
    yield text
    for step in (1e-9, 1e-6, 1e-3, 1/64.):
        out = []
        for k, _, v in kv:
            x = float(v); out.append('%s=%.17g' % (k, round(x / step) * step))
        yield ' '.join(out)

def known(pid):
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k['property'] == pid and k.get('status') == 'open']

def bounds(pid, tier, spec, budget):
    for l in open(os.path.join(V, 'properties.jsonl')):
        d = json.loads(l)
        if d['id'] == pid:
            return '%s; input ranges, concrete shapes and margins around the library thresholds: the in(), choose() and assume() lines of harness/%s.cpp (%s tier); loops run as many times as the sizes of these shapes ask for; %d s of exploration, what it did not reach is counted in paths_unexplored and obligations_inconclusive' % (d['quantifier']['text'], pid, tier, budget)
    return ''

def main():
    if len(sys.argv) < 2: print('usage: run.py ID|--setup'); return 2
    if sys.argv[1] == '--setup':
        build_engine(); return 0
    pid = sys.argv[1]
    opts = sys.argv[2:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in opts: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    spec = {}
    sp = os.path.join(V, 'harness', pid + '.json')
    if os.path.exists(sp): spec = json.load(open(sp))
    eng = build_engine()
    work = os.path.join(BUILD, '%s-%d' % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    try:
        return go(pid, tier, seed, t0, spec, eng, work, opts)
    finally:
        if '--keep' not in opts: shutil.rmtree(work, ignore_errors=True)

def go(pid, tier, seed, t0, spec, eng, work, opts):
    sym_header(work, spec)
    src = os.path.join(V, 'harness', pid + '.cpp')
    inc = ['-I' + os.path.join(V, 'engine'), '-I' + os.path.join(V, 'harness')]
    defs = [d.replace('-Istub', '-I' + os.path.join(V, 'harness', 'stub')) for d in spec.get('defs', [])]
    th = ['-DTHOROUGH'] if tier == 'thorough' else []
    symbin, repbin = os.path.join(work, 'sym'), os.path.join(work, 'rep')
    c1 = CXX + ['-O0', '-DSYMX', '-D_GLIBCXX_ASSERTIONS'] + th + defs + [d.replace('-Istub','-I'+os.path.join(V,'harness','stub')) for d in spec.get('symdefs', [])] + inc + ['-I' + work, src, eng, '-lgmpxx', '-lgmp', '-o', symbin]
    c2 = CXX + ['-O1', '-D_GLIBCXX_ASSERTIONS'] + th + defs + spec.get('repdefs', []) + inc + ['-I' + REPO, src, '-o', repbin] + spec.get('replibs', [])
    ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for c in (c1, c2)]
    errs = [p.communicate()[1] for p in ps]
    if any(p.returncode for p in ps):
        for p, e, n in zip(ps, errs, ('symbolic', 'concrete')):
            if p.returncode:
                print('ERROR: the %s build of %s failed' % (n, pid)); print('\n'.join([l for l in e.splitlines() if 'error' in l][:20]))
        return 2
    t_build = time.time() - t0
    budget = spec.get('budget_thorough', 600) if tier == 'thorough' else spec.get('budget', 120)
    out = os.path.join(work, 'out.json')
    cmd = [symbin, '--budget', str(budget), '--jobs', str(spec.get('jobs', 8)), '--out', out, '--tmp', work,
           '--tq', str(spec.get('tq', 3 if tier == 'quick' else 15))] + (['--thorough'] if tier == 'thorough' else [])
    for o in opts:
        if o.startswith('--case='): cmd += ['--case', o[7:]]
    try:
        subprocess.run(cmd, timeout=budget + 60, stderr=None if os.environ.get('SYMX_DEBUG') or os.environ.get('SYMX_SLOW') else subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        print('ERROR: exploration did not stop'); return 2
    res = json.load(open(out))
    # ---- replay of every candidate violation
    rdir = os.path.join(V, 'replays'); os.makedirs(rdir, exist_ok=True)
    confirmed, unrep = {}, {}
    kf = known(pid); hits = {}
    tmpf = os.path.join(work, 'in.txt')
    for k in kf:      # the stored input of each listed finding
        if k.get('input'):
            rc, fails, obs = replay(repbin, k['case'], k['input'], tmpf)
            if any(re.fullmatch(k['label'], f.split(':')[0]) for f in fails): hits[k['id']] = k
    t_rep0 = time.time(); nrep = 0
    for c in res['cases']:
        seen = set()
        for label, model in c['violations']:
            key = (c['name'], label)
            if key in confirmed: continue
            ok = False
            if time.time() - t_rep0 > 240: break
            for m in variants(model):
                rc, fails, obs = replay(repbin, c['name'], m, tmpf); nrep += 1
                if rc in ('hang', 'crash', 1) and fails:
                    new = [f for f in fails if not any(k['case'] == c['name'] and re.fullmatch(k['label'], f.split(':')[0]) for k in kf)]
                    for f in fails:
                        for k in kf:
                            if k['case'] == c['name'] and re.fullmatch(k['label'], f.split(':')[0]): hits[k['id']] = k
                    if new:
                        confirmed[key] = (m, new, rc)
                    ok = True; break
            if not ok: unrep.setdefault(key, model)
            elif key in unrep: del unrep[key]
    # ---- encoding validation: the path models through the real code
    agree = diverge = 0; div = []; t_val0 = time.time()
    for c in res['cases']:
        sam = c['samples']
        k = max(1, len(sam) // 40)
        for s in sam[::k][:40]:
            if time.time() - t_val0 > 40: break
            m, _, o = s.partition('|')
            rc, fails, obs = replay(repbin, c['name'], m, tmpf)
            exp = {}
            for t in o.split():
                kk, _, v = t.partition('='); exp.setdefault(kk, []).append(v)
            good = rc == 0
            if good:
                for kk, vs in exp.items():
                    ov = obs.get(kk, [])
                    if len(ov) != len(vs): good = False; break
                    for a, b in zip(vs, ov):
                        a, b = float(a), float(b)
                        if not (a == b or (a != a and b != b) or abs(a - b) <= 1e-5 * max(1, abs(a), abs(b))): good = False
            if good: agree += 1
            else:
                diverge += 1
                if len(div) < 5: div.append({'case': c['name'], 'input': m.strip(), 'expected': o.strip()[:200], 'rc': str(rc), 'fails': fails, 'got': {k2: v2[:3] for k2, v2 in list(obs.items())[:6]}})
    # ---- functions encoded: what of the library is instantiated over the symbolic type
    fn = set()
    for l in sh(['nm', '-C', symbin]).stdout.splitlines():
        m = re.match(r'^[0-9a-f]+ [WwTt] (.*)$', l)
        if m and 'h2d::' in m.group(1):
            s = m.group(1)
            s = re.sub(r'symx::', '', s)
            depth = 0; o = ''
            for ch in s.split('(')[0] if not s.startswith('std::') else '':
                if ch == '<': depth += 1
                elif ch == '>': depth -= 1
                elif depth == 0: o += ch
            o = o.strip().split(' ')[-1]
            if o.startswith('h2d::'): fn.add(o)
    tot = {k: sum(c[k] for c in res['cases']) for k in ('paths', 'done', 'ended', 'unsupported', 'limit', 'hang', 'crash', 'exception', 'left', 'decisions', 'queries', 'sat', 'unsat', 'unknown', 'quick', 'forks', 'by_cvc5', 'by_alt')}
    tsolve = sum(c['tsolve'] for c in res['cases'])
    syn = sum(v[0] for c in res['cases'] for v in c['checks'].values())
    uns = sum(v[1] for c in res['cases'] for v in c['checks'].values())
    inc = sum(v[3] for c in res['cases'] for v in c['checks'].values())
    samples = [{'case': c['name'], 'path_model': c['samples'][0]} for c in res['cases'] if c['samples']][:12]
    vacuous = [c['name'] for c in res['cases'] if c['done'] == 0]
    unreached = [c['name'] for c in res['cases'] if not c['checks']]
    exhaustive = tot['left'] == 0 and tot['limit'] == 0 and tot['unsupported'] == 0 and tot['unknown'] == 0 and inc == 0 and diverge >= 0
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {
              'states': tot['paths'], 'transitions': tot['decisions'],
              'traces_validated_against_impl': agree,
              'traces_diverging': diverge, 'diverging_examples': div,
              'samples': samples,
              'obligations_by_normal_form': syn, 'obligations_by_solver_unsat': uns, 'obligations_inconclusive': inc,
              'solver_queries': tot['queries'], 'solver_sat': tot['sat'], 'solver_unsat': tot['unsat'], 'solver_unknown': tot['unknown'],
              'solver_time_s': round(tsolve, 2), 'answered_by_second_solver': tot['by_cvc5'] + tot['by_alt'], 'branches_decided_without_solver': tot['quick'],
              'paths_finished': tot['done'], 'paths_outside_assumptions': tot['ended'], 'paths_cut_by_limits': tot['limit'], 'paths_unsupported': tot['unsupported'], 'paths_unexplored': tot['left'],
              'all_paths_within_bounds_explored': exhaustive,
              'candidates_replayed': nrep, 'candidates_not_reproduced': [{'case': k[0], 'label': k[1], 'model': m} for k, m in list(unrep.items())[:10]],
              'cases': {c['name']: {'paths': c['paths'], 'done': c['done'], 'left': c['left'], 'checks': c['checks'], 'cpu_s': round(c['cpu'], 1), 'unknown': c['unknown'], 'ends': c['ends']} for c in res['cases']},
              'functions_encoded': sorted(fn)[:400], 'functions_encoded_count': len(fn),
              'bounds': spec.get('bounds') or bounds(pid, tier, spec, budget), 'build_s': round(t_build, 1), 'budget_s': budget,
              'vacuous_cases': vacuous, 'cases_without_assertion': unreached,
              'explanation': 'states = symbolic paths of the real templates (each a set of inputs), transitions = branch decisions taken on symbolic conditions'},
          'assumptions': ['arithmetic of symbolic values is exact real arithmetic (rounding is outside the claim); constants are folded in double',
                          'sin/cos atoms are constrained by sin^2+cos^2=1 only'] + spec.get('assumptions', []),
          'wall_s': round(time.time() - t0, 1), 'violations': len(confirmed)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d cases, %d paths (%d finished, %d left, %d cut, %d unsupported), %d obligations normal form + %d solver, %d inconclusive, %d queries (%d unknown) %.1fs solver, %d/%d traces validated, build %.1fs, wall %.1fs' % (
        pid, len(res['cases']), tot['paths'], tot['done'], tot['left'], tot['limit'], tot['unsupported'], syn, uns, inc, tot['queries'], tot['unknown'], tsolve, agree, agree + diverge, t_build, time.time() - t0))
    if '-v' in opts:
        for c in res['cases']: print('  ', c['name'], 'paths', c['paths'], 'done', c['done'], 'left', c['left'], 'cpu %.1f' % c['cpu'], 'unk', c['unknown'], c['checks'], c['ends'])
        for d in div: print('   DIVERGE', d)
        for k, m in unrep.items(): print('   UNREPRODUCED', k, m)
    for k in kf:
        if k['id'] in hits: print('KNOWN-FINDING: property=%s %s: %s' % (pid, k['id'], k['what']))
    if not confirmed: return 0
    for i, (key, (m, fails, rc)) in enumerate(sorted(confirmed.items())):
        p = os.path.join(rdir, '%s-%s-%d.txt' % (pid, key[0], i))
        open(p, 'w').write(m + '\n# case %s: %s (%s)\n' % (key[0], '; '.join(sorted(set(fails)))[:500], rc))
        print('  violated: case=%s check=%s input: %s' % (key[0], key[1], m[:300]))
        print('VIOLATION property=%s replay=%s' % (pid, p))
    return 1

if __name__ == '__main__':
    sys.exit(main())
