#!/usr/bin/env python3
"""check.py ID quick|thorough : decide one property (C01..C20) by symbolic execution.

1. compile harness + /repo + dependencies + std to one LLVM module (build_ir.sh) and,
   separately, a native replay binary against the unmodified crate;
2. run the symbolic engine (engine/) over the module;
3. replay every counterexample, and a sample of the explored paths, natively;
4. write evidence/ID.json and report.

exit 0 held; exit 1 with a VIOLATION line; anything else: the check gave no answer."""
import json, os, subprocess, sys, time, shutil, resource

HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(HERE, 'work')
ENGINE = os.path.join(HERE, 'engine/target/release/symex')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET'):
    ENV.pop(k, None)


def die(msg):
    print('NO-ANSWER:', msg)
    sys.exit(3)


def spawn(cmd, **kw):
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def finish(p, what):
    o, _ = p.communicate()
    if p.returncode:
        die(f'{what} failed:\n{o[-4000:]}')


def build_engine():
    finish(spawn(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=os.path.join(HERE, 'engine'), env=ENV), 'building the engine')


def build_native(feat):
    t = os.path.join(WORK, 'nat-' + feat)
    # never trust time stamps for what comes from /repo or the harness
    fp = os.path.join(t, 'release/.fingerprint')
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(('harness-', 'nondestructive-')):
                shutil.rmtree(os.path.join(fp, d))
    return spawn(['cargo', 'build', '--release', '--offline', '--quiet', '--features', feat],
                 cwd=os.path.join(HERE, 'harness/native'), env=dict(ENV, CARGO_TARGET_DIR=t))


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay_one(feat, tier, tape):
    """-> (digest, reach, outcome, text)"""
    cmd = [os.path.join(WORK, f'nat-{feat}/release/replay'), feat, str(tier), tape]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20, preexec_fn=limits)
    except subprocess.TimeoutExpired as e:
        return None, None, 'hang: no end within 20 s', (e.stdout or b'').decode('utf8', 'replace')
    o = p.stdout.decode('utf8', 'replace')
    if p.returncode:
        return None, None, f'crash: status {p.returncode}', o
    l = o.strip().split('\n')[-1].split(' ', 2)
    return l[0], int(l[1]), l[2], o


def replay_many(feat, tier, tapes):
    cmd = [os.path.join(WORK, f'nat-{feat}/release/replay'), feat, str(tier), '-']
    try:
        p = subprocess.run(cmd, input='\n'.join(tapes) + '\n', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return None
    if p.returncode:
        return None
    return [(l.split(' ', 2)[0], int(l.split(' ', 2)[1]), l.split(' ', 2)[2]) for l in p.stdout.strip().split('\n')]


def demangle(names):
    for tool in ('llvm-cxxfilt', 'llvm-cxxfilt-18', 'c++filt'):
        if shutil.which(tool):
            r = subprocess.run([tool], input='\n'.join(names) + '\n', stdout=subprocess.PIPE, text=True)
            if r.returncode == 0:
                return r.stdout.strip().split('\n')
    return names


def known(pid):
    out = []
    for l in open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')):
        l = l.strip()
        if l.startswith(f'finding: property={pid} '):
            label, what = l.split(' ', 3)[2:4]
            out.append((label.split('=', 1)[1], what))
    return out


def main():
    t0 = time.time()
    pid, tname = sys.argv[1], sys.argv[2]
    feat = pid.lower()
    tier = 0 if tname == 'quick' else 1
    conf = json.load(open(os.path.join(HERE, 'checks.json')))[pid]
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rdir = os.path.join(WORK, 'replay')
    os.makedirs(rdir, exist_ok=True)
    ll = os.path.join(WORK, feat + '.ll')
    ps = [(spawn([os.path.join(HERE, 'build_ir.sh'), feat, ll], env=ENV), 'compiling to IR'), (build_native(feat), 'native build')]
    build_engine()
    for p, w in ps:
        finish(p, w)
    tb = time.time() - t0
    out = os.path.join(WORK, feat + '.json')
    if os.path.exists(out):
        os.remove(out)
    limit = conf.get('time', [780, 6 * 3600])[tier]
    if tier == 0:
        limit = min(limit, max(60, 840 - tb - 30))
    p = subprocess.run([ENGINE, '--ll', ll, '--entry', 'h_' + feat, '--tier', str(tier), '--threads', '8', '--out', out,
                        '--time', str(int(limit)), '--max-steps', str(conf.get('max_steps', 20_000_000)), '--max-viol', '40'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(out):
        die('engine failed: ' + p.stdout[-3000:])
    r = json.load(open(out))

    # counterexamples, each replayed against the real crate
    kf = known(pid)
    real, unreal, kfs = [], [], {}
    for v in r['violations']:
        d, rc, o, txt = replay_one(feat, tier, v['tape'])
        v['native'] = o
        bad = o.startswith(('fail: ', 'panic', 'hang: ', 'crash: '))
        label = next((k for k in kf if v['kind'] == 'fail' and v['msg'].startswith(k[0])), None)
        if label and o == 'fail: ' + v['msg']:
            kfs[label] = kfs.get(label, 0) + 1
        elif bad and v['kind'] in ('steps', 'depth') and not o.startswith(('hang', 'crash')):
            real.append((v, txt))
        elif bad:
            real.append((v, txt))
        else:
            unreal.append(v)
    # explored paths, replayed: same observations
    good, mism = 0, []
    if not real and r['samples']:
        res = replay_many(feat, tier, [s[0] for s in r['samples']])
        if res is None or len(res) != len(r['samples']):
            mism.append('native replay of the samples failed')
        else:
            for (tape, dig, reach), (d, rc, o) in zip(r['samples'], res):
                if d == dig and rc == reach and o == 'ok':
                    good += 1
                else:
                    mism.append(f'tape {tape}: engine {dig} {reach} ok, native {d} {rc} {o}')
    names = demangle(r['functions'])
    mine = sorted({n for n in names if 'nondestructive' in n})
    show = []
    for tape, dig, reach in r['samples'][:: max(1, len(r['samples']) // 12)][:12]:
        _, _, o, txt = replay_one(feat, tier, tape)
        show.append({'tape': tape, 'outcome': o, 'case': [l.strip() for l in txt.split('\n') if l.startswith('  ')][:12]})
    missing = [k for k in conf['reach'] if k not in r['reach']]
    nviol = sum(n for k, n in r['violation_counts'].items() if not any(k.startswith('fail: ' + l[0]) for l in kf))
    ev = {
        'property': pid, 'tier': tname, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
        'wall_s': round(time.time() - t0, 1), 'violations': nviol,
        'assumptions': conf.get('assumptions', []) + json.load(open(os.path.join(HERE, 'checks.json')))['_common'],
        'coverage': {
            'states': r['paths'], 'transitions': r['sym_branches'],
            'states_are': 'path classes explored to their end (each stands for every value of the symbolic bytes that satisfies its path condition)',
            'transitions_are': 'decisions on conditions over symbolic bytes',
            'traces_validated_against_impl': good + len(real) + sum(kfs.values()),
            'samples': show,
            'exhaustive': not (r['timeout'] or r['stopped'] or r['bad'] or r['fatal']),
            'bounds': conf['bounds'][tier],
            'max_symbolic_bytes_on_a_path': r['max_vars'],
            'path_ends': r['ends'], 'forks': r['forks'],
            'solver': dict(r['solver'], name='z3 (libz3)'),
            'byte_predicates_decided': r['dom_queries'], 'byte_predicates_reused': r['dom_cached'],
            'complete_path_conditions_rechecked': r['final_checks'],
            'reach_witnesses': {conf['reach'].get(k, k): n for k, n in r['reach'].items()},
            'instructions_executed': r['steps'], 'max_call_depth': r['max_call_depth'],
            'functions_encoded_total': len(names), 'functions_encoded_of_nondestructive': mine,
            'engine_seconds': r['wall_s'], 'build_seconds': round(tb, 1),
        },
    }
    json.dump(ev, open(os.path.join(HERE, f'evidence/{pid}.json'), 'w'), indent=1)
    print(f"{pid} {tname}: {r['paths']} paths, {r['sym_branches']} symbolic decisions, {r['solver']['calls']} queries in {r['solver']['seconds']:.1f} s (all threads), "
          f"{len(mine)} functions of the crate, {good} traces validated, build {tb:.1f} s, engine {r['wall_s']:.1f} s")
    for (label, what), n in kfs.items():
        print(f'KNOWN-FINDING: property={pid} {what}')
    if real:
        seen = {}
        for i, (v, txt) in enumerate(real):
            if seen.setdefault(v['msg'], 0) >= 2:
                continue
            seen[v['msg']] += 1
            path = os.path.join(rdir, f'{pid}-{tname}-{i}.txt')
            with open(path, 'w') as f:
                f.write(f"property {pid}\nreported: {v['kind']}: {v['msg']}\nnative replay: {v['native']}\n{txt}\nwhere: {v['where']}\n"
                        f"replay again: {WORK}/nat-{feat}/release/replay {feat} {tier} {v['tape']}\n")
            print(f"  {v['kind']}: {v['msg']} (native: {v['native']})")
            for l in txt.split('\n')[:8]:
                if l.startswith('  '):
                    print('   ', l.strip()[:300])
            print(f'VIOLATION property={pid} replay={path}')
        sys.exit(1)
    if r['fatal']:
        die('engine: ' + r['fatal'])
    if unreal:
        die(f"counterexample does not reproduce natively: {unreal[0]}")
    if r['bad']:
        die(f"unsupported or undecided: {r['bad'][:3]}")
    if r['timeout'] or r['stopped']:
        die('exploration did not finish within its time')
    if mism:
        die(f'{len(mism)} traces differ between the engine and the real build: {mism[:3]}')
    if missing:
        die(f"vacuous: nothing reached {[conf['reach'][k] for k in missing]}")
    sys.exit(0)


main()
