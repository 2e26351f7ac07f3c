#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current tree.

Builds the harness (which contains /repo's crate) to LLVM bitcode and to a native program, lets the
symbolic executor explore the entries of the property, replays every counterexample natively, and
writes evidence/PROPERTY.json."""
import glob, json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, '.build')
RUSTUP = 'stable-x86_64-unknown-linux-gnu'
DEADLINE = 870


def env(target):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO_', 'RUSTFLAGS', 'RUSTDOCFLAGS'))}
    e.update(RUSTUP_TOOLCHAIN=RUSTUP, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=target, RUSTC_WRAPPER='', CARGO_TERM_COLOR='never')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    return e


def run(cmd, cwd, target, out, key):
    p = subprocess.run(cmd, cwd=cwd, env=env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out[key] = (p.returncode, p.stdout)


def modules(pid):
    """The modules of the harness that have entries of the property."""
    m = []
    for f in sorted(glob.glob(os.path.join(V, 'harness', 'src', 'checks', '*.rs'))):
        if re.search(rf'^ *{pid.lower()}_\w+ => ', open(f).read(), re.M):
            m.append(os.path.basename(f)[:-3])
    return m


def build(pid=None):
    """The engine, the bitcode and the native program, in parallel. Returns (symex, bitcode, replay)."""
    out = {}
    only = ['--no-default-features', '--features', ','.join(modules(pid))] if pid else []
    h = os.path.join(V, 'harness')
    for t in ('sym', 'native'):
        # cargo decides by mtime: without its fingerprints the crate under test is always recompiled
        for f in glob.glob(f'{B}/{t}/*/.fingerprint/rphonetic-*/*') + glob.glob(f'{B}/{t}/*/.fingerprint/vh-*/*'):
            os.remove(f)
    for f in glob.glob(f'{B}/sym/release/deps/vh-*.bc'):
        os.remove(f)
    jobs = [
        (['cargo', 'build', '--offline', '--release'], os.path.join(V, 'engine'), f'{B}/engine', out, 'engine'),
        (['cargo', 'rustc', '--offline', '--release', '--lib', '--crate-type', 'staticlib', *only, '--', '--emit=llvm-bc', '-C', 'no-vectorize-loops',
          '-C', 'no-vectorize-slp'], os.path.join(V, 'symlib'), f'{B}/sym', out, 'sym'),
        (['cargo', 'build', '--offline', '--profile', 'replay', *(only[:2] + [only[2] + ',native'] if pid else ['--features', 'native']), '--bin', 'replay'], h, f'{B}/native', out, 'native'),
    ]
    ts = [threading.Thread(target=run, args=j) for j in jobs]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for k, (rc, o) in out.items():
        if rc != 0:
            print(o[-6000:])
            print(f'ERROR: the {k} build failed')
            sys.exit(2)
    bc = glob.glob(f'{B}/sym/release/deps/vh-*.bc')
    if len(bc) != 1:
        print('ERROR: no bitcode', bc)
        sys.exit(2)
    return f'{B}/engine/release/symex', bc[0], f'{B}/native/replay/replay'


class Native:
    """The replay program; a run of more than `limit` seconds counts as hanging."""

    def __init__(self, exe):
        self.exe = exe

    def one(self, entry, inputs, limit=20):
        line = entry + ' ' + ','.join(map(str, inputs)) + '\n'
        try:
            p = subprocess.run([self.exe], input=line, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit, cwd=V)
        except subprocess.TimeoutExpired:
            return ('hang', '', '')
        o = p.stdout.rstrip('\n').split('\t')
        if p.returncode != 0 or len(o) < 3:
            return (f'crash {p.returncode}', '', p.stderr[-300:])
        return tuple(o[:3])

    def many(self, rows, limit=120):
        t = ''.join(f"{e} {','.join(map(str, i))}\n" for e, i in rows)
        try:
            p = subprocess.run([self.exe], input=t, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=limit, cwd=V)
        except subprocess.TimeoutExpired:
            return []
        return [tuple(l.split('\t')[:3]) for l in p.stdout.splitlines()]


def bad(verdict):
    return verdict.startswith(('assert', 'panic', 'hang', 'crash'))


def known():
    """Findings that are recorded, not repaired: `finding: property=ID entry=RE match=RE -- text`."""
    k = []
    for l in open(os.path.join(V, 'KNOWN_FINDINGS.txt')):
        m = re.match(r'finding: property=(\S+) match=(.*?) -- (.*)', l)
        if m:
            k.append((m[1], re.compile(m[2]), m[3].strip()))
    return k


def main():
    if sys.argv[1] == '--build':
        build()
        return
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    symex, bc, exe = build(pid)
    build_s = time.time() - t0
    table = subprocess.run([exe, 'list'], stdout=subprocess.PIPE, text=True).stdout.split()
    low = pid.lower() + '_'
    entries = [e for e in table if e.startswith(low) and (tier == 'thorough' or not e.startswith(low + 't_'))]
    if not entries:
        print('ERROR: no entries for', pid)
        sys.exit(2)
    budget = float(os.environ.get('VERIF_BUDGET', 50 if tier == 'quick' else 700))
    budget = max(20.0, min(budget, DEADLINE - build_s - 60))
    # In the order of what they cost on the tree the checks were made for: what the cheap ones leave
    # of their share is for the expensive ones. The order and the shares are all the hints are for.
    hints = json.load(open(os.path.join(V, 'harness', 'costs.json')))
    entries.sort(key=lambda e: hints.get(e, 30))
    nat = Native(exe)
    results, left = [], budget
    for n, e in enumerate(entries):
        share = max(3.0, left / (len(entries) - n))
        if n and hints.get(e, 30) < 0.8 * budget:
            share = max(share, min(2.5 * hints.get(e, 30), 0.6 * left))
        t = time.time()
        try:
            p = subprocess.run([symex, bc, e, '--time', f'{share:.1f}', '--samples', '16', '--max-viol', '24'],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=share * 2 + 120, cwd=V)
            r = json.loads(p.stdout.splitlines()[-1])
        except (subprocess.TimeoutExpired, ValueError, IndexError) as x:
            r = dict(entry=e, complete=False, engine_error=f'no result: {type(x).__name__}', paths=0, wall_s=share, violations=[], samples=[], functions=[],
                     viol_count=0)
        results.append(r)
        left -= time.time() - t
        print(f"{e}: paths={r['paths']} complete={r['complete']} violations={r['viol_count']} {r['wall_s']:.1f}s" +
              (f" engine_error={r['engine_error']}" if r['engine_error'] else ''), flush=True)
        if r['violations'] and any(bad(nat.one(e, v['inputs'])[0]) for v in r['violations'][:3]):
            break

    # Counterexamples are believed once the real code, run natively, shows them too.
    findings, unconfirmed = [], []
    for r in results:
        for v in r['violations']:
            verdict, outs, notes = nat.one(r['entry'], v['inputs'])
            row = dict(entry=r['entry'], inputs=v['inputs'], symbolic=v['what'], native=verdict, notes=notes)
            (findings if bad(verdict) else unconfirmed).append(row)
            if len(findings) >= 12:
                break

    # Sampled paths: the native run takes the same path and puts out the same bytes.
    rows = [(r['entry'], s['inputs'], s['outs']) for r in results for s in r['samples']]
    got = nat.many([(e, i) for e, i, _ in rows])
    validated, mismatches, samples = 0, [], []
    for (e, i, o), g in zip(rows, got):
        if g[0] == 'ok' and g[1] == o:
            validated += 1
            if len(samples) < 24 and validated % 3 == 1:
                samples.append(f'{e} {i}: {g[2]}'[:400])
        elif g[0] != 'assume':
            mismatches.append(f'{e} {i}: engine {o}, native {g}')

    news, olds = [], []
    kn = [k for k in known() if k[0] == pid]
    for f in findings:
        hit = [k for k in kn if k[1].search(f['notes'])]
        (olds if hit else news).append((f, hit))
    for t in sorted({h[0][2] for _, h in olds}):
        print(f'KNOWN-FINDING: property={pid} {t}')

    def total(k):
        return sum(r.get(k, 0) or 0 for r in results)
    fn = sorted({f for r in results for f in r['functions']})
    cov = dict(
        states=total('paths'), transitions=total('forks') + total('forced'), traces_validated_against_impl=validated, samples=samples or ['none'],
        entries=[{k: r.get(k) for k in ('entry', 'complete', 'engine_error', 'paths', 'assume_ends', 'given_up', 'insts', 'asserts', 'symbolic_asserts', 'queries', 'sat',
                                        'unsat', 'unknown', 'certified', 'solver_s', 'wall_s', 'max_inputs', 'viol_count')} for r in results],
        entries_not_started=[e for e in entries if e not in [r['entry'] for r in results]],
        complete=all(r['complete'] for r in results) and len(results) == len(entries),
        queries=total('queries'), queries_unsat=total('unsat'), queries_sat=total('sat'), tables_certified_by_z3=total('certified'), unknown=total('unknown'),
        solver_s=round(total('solver_s'), 3), instructions=total('insts'), assertions=total('asserts'), assertions_over_symbols=total('symbolic_asserts'),
        functions_encoded=[f for f in fn if 'rphonetic' in f][:400], functions_encoded_total=len(fn), build_s=round(build_s, 1),
        engine_native_mismatches=mismatches[:10],
        exhaustive=all(r['complete'] for r in results) and len(results) == len(entries),
    )
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=round(time.time() - t0, 1), violations=len(news),
              assumptions=['bounds: the inputs described by the templates of the entries (harness/src/checks), see DESIGN.md',
                           'the encoding is the optimised LLVM bitcode of /repo with overflow checks and debug assertions; allocation never fails',
                           'Z3 and the translation of bitcode to its terms (each sampled path is replayed natively)'])
    os.makedirs(f'{V}/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    if news:
        path = f'{V}/evidence/{pid}.replay.txt'
        with open(path, 'w') as f:
            for x, _ in news:
                f.write(json.dumps(x, ensure_ascii=False) + '\n')
            f.write(f"# run one: echo 'ENTRY V1,V2,...' | {exe}\n")
        x = news[0][0]
        print(f"{x['entry']} {x['inputs']}: {x['native']}: {x['notes']}"[:1500])
        print(f'VIOLATION property={pid} replay={path}')
        sys.exit(1)
    for m in mismatches[:5]:
        print('ERROR: engine and native run disagree:', m[:600])
    for u in unconfirmed[:5]:
        print('ERROR: the native run does not show this counterexample:', json.dumps(u)[:600])
    if mismatches or unconfirmed:
        sys.exit(2)
    if total('paths') == 0:
        print('ERROR: nothing was explored')
        sys.exit(2)
    print(f"{pid} held: {total('paths')} path classes, {total('queries')} queries, complete={cov['complete']}, {ev['wall_s']}s")


if __name__ == '__main__':
    main()
