#!/usr/bin/env python3
"""Measures the checks with switchable mutants of the whole repository.
usage: mutate.py build | run MS JOBS [ids|alive] | list
Works in /tmp/mutw on copies of /repo and /verif/harness; nothing here is used by a check."""
import json, os, re, subprocess, sys, shutil, concurrent.futures as cf
W = '/tmp/mutw'
GEN = '/tmp/mutgen_target/release/mutgen'
R = 'runtime/src/'
C = 'apps/tablet_cache/service/src/'
T = C + 'transaction/'
FILES = {
    T + 'coordinator.rs': 'txn,kv,txn', T + 'data.rs': 'data,kv,txn', T + 'manager.rs': 'txn,kv',
    T + 'metadata.rs': 'metadata,kv,txn', T + 'result.rs': 'txn,kv,data,metadata', C + 'transaction.rs': 'txn,kv',
    C + 'store.rs': 'kv,txn', C + 'actor.rs': 'kv,txn',
    'apps/tablet_store/service/src/actor.rs': 'store,group,kv,cluster:store',
    'apps/atomic_counter/service/src/actor.rs': 'group,cluster:counter,cluster',
    'apps/willow/decryptor/actor/src/actor.rs': 'willow',
    R + 'communication.rs': 'channels,cluster,host', R + 'handshake.rs': 'channels,cluster,host',
    R + 'session.rs': 'channels,cluster', R + 'encryptor.rs': 'channels,cluster,host',
    R + 'snapshot.rs': 'transfer,cluster,host', R + 'storage.rs': 'storage,cluster',
    R + 'driver.rs': 'cluster,host,cluster:counter,cluster:probe', R + 'consensus.rs': 'cluster,host',
    R + 'util.rs': 'cluster,channels,host', R + 'service.rs': 'service', R + 'logger.rs': 'service,host',
    R + 'platform.rs': 'cluster,host', R + 'model.rs': 'cluster,host,cluster:counter',
}

def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)

def generate(off):
    n, meta = 1, {}
    for f in FILES:
        src = '/repo/' + f
        p = subprocess.run([GEN, src, str(n), ','.join(map(str, sorted(off)))], text=True, capture_output=True)
        assert p.returncode == 0, (f, p.stderr[-500:])
        open(f'{W}/repo/{f}', 'w').write('#![allow(warnings)]\n' * 0 + p.stdout)
        for l in p.stderr.splitlines():
            a = l.split('\t')
            if a[0] == 'END':
                n = int(a[1])
            else:
                meta[int(a[0])] = [f, int(a[1]), a[2], a[3]]
    return meta

def setup():
    os.makedirs(W, exist_ok=True)
    shutil.rmtree(W + '/repo', ignore_errors=True)
    shutil.rmtree(W + '/harness', ignore_errors=True)
    sh(f'cp -a /repo {W}/repo; rsync -a --exclude target /verif/harness {W}/ || (cp -a /verif/harness {W}/; rm -rf {W}/harness/target)')
    sh(f"grep -rlE '/repo/' {W}/harness --include=Cargo.toml --include=build.rs | xargs sed -i 's#\"/repo/#\"{W}/repo/#g'")
    for c in os.listdir(f'{W}/harness/crates'):
        t = f'{W}/harness/crates/{c}/Cargo.toml'
        s = open(t).read()
        s = s.replace('[dependencies]\n', '[dependencies]\nsimseam = { path = "../../stubs/simseam" }\n', 1)
        open(t, 'w').write(s)
    with open(f'{W}/harness/stubs/simseam/src/lib.rs', 'a') as f:
        f.write('''
pub static ACTIVE: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(u32::MAX);
#[inline(never)]
pub fn m(id: u32) -> bool {
    let mut a = ACTIVE.load(std::sync::atomic::Ordering::Relaxed);
    if a == u32::MAX {
        a = std::env::var("MUT").ok().and_then(|v| v.parse().ok()).unwrap_or(0);
        ACTIVE.store(a, std::sync::atomic::Ordering::Relaxed);
    }
    a == id
}
''')

def build():
    setup()
    off = set()
    for rnd in range(60):
        meta = generate(off)
        p = sh(f'cd {W}/harness && RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_TARGET_DIR={W}/target nice cargo build --release --offline -p sim --features tonic --keep-going -j4 --message-format=json 2>{W}/err.txt')
        bad, errs = set(), 0
        for l in p.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            m = m.get('message')
            if not isinstance(m, dict) or m.get('level') != 'error' or not m.get('spans'):
                continue
            errs += 1
            for s in m['spans']:
                if not s['is_primary']:
                    continue
                fn = s['file_name']
                if not os.path.isabs(fn):
                    fn = f'{W}/harness/{fn}'
                if not os.path.exists(fn):
                    continue
                ls = open(fn).read().splitlines()
                got = set()
                for d in range(0, 14):
                    a, b = s['line_start'] - 1 - d, s['line_end'] + (d if d < 3 else 0)
                    got = set(int(x) for x in re.findall(r'simseam::m\((\d+)\)', '\n'.join(ls[max(a, 0):b])))
                    if got:
                        break
                bad |= got
        print(f'round {rnd}: {len(meta)} mutants, {errs} errors, switching off {len(bad)}', flush=True)
        if p.returncode == 0:
            json.dump(meta, open(f'{W}/meta.json', 'w'))
            return
        if not bad:
            print(open(f'{W}/err.txt').read()[-3000:])
            for l in p.stdout.splitlines():
                m = json.loads(l).get('message')
                if isinstance(m, dict) and m.get('level') == 'error':
                    print(m['rendered'][:1500])
            sys.exit(1)
        off |= bad

SIM = W + '/target/release/sim'
def one(i, meta, ms):
    f = meta[str(i)][0]
    try:
        p = subprocess.run(['nice', '-n', '15', SIM, 'hunt', FILES[f], str(ms)], env={**os.environ, 'MUT': str(i)}, text=True, capture_output=True, timeout=ms / 1000 + 25)
        o = p.stdout.strip().splitlines()
        r = o[-1] if o else f'KILLED exit {p.returncode} {p.stderr[-100:]!r}'
    except subprocess.TimeoutExpired:
        r = 'KILLED hang'
    return i, r[:300]

def main():
    if sys.argv[1] == 'build':
        build()
        return
    meta = json.load(open(f'{W}/meta.json'))
    rp = f'{W}/result.json'
    res = json.load(open(rp)) if os.path.exists(rp) else {}
    key, seen = {}, {}
    for i in sorted(meta, key=int):
        f, l, k, t = meta[i]
        n = seen[(f, k, t)] = seen.get((f, k, t), 0) + 1
        key[i] = f'{f}|{k}|{t}|{n}'
    if sys.argv[1] == 'list':
        for i in sorted(meta, key=int):
            if res.get(key[i], 'ALIVE').startswith('ALIVE') and all(x in meta[i][0] for x in sys.argv[2:]):
                print(i, meta[i][0].split('/')[-1], *meta[i][1:], sep='|')
        return
    ms, jobs = int(sys.argv[2]), int(sys.argv[3])
    sel = sys.argv[4:]
    if sel == ['alive']:
        ids = [i for i in meta if res.get(key[i], '').startswith('ALIVE')]
    elif sel[:1] == ['alive']:
        ids = [i for i in meta if res.get(key[i], '').startswith('ALIVE') and any(x in meta[i][0] for x in sel[1:])]
    elif sel:
        ids = [i for i in meta if i in sel or any(x in meta[i][0] for x in sel)]
    else:
        ids = [i for i in meta if key[i] not in res]
    with cf.ThreadPoolExecutor(jobs) as ex:
        for k, (i, r) in enumerate(ex.map(lambda i: one(i, meta, ms), ids)):
            res[key[i]] = r
            if k % 20 == 0:
                json.dump(res, open(rp, 'w'))
    json.dump(res, open(rp, 'w'))
    by = {}
    for i in meta:
        if key[i] in res:
            e = by.setdefault(meta[i][0], [0, 0])
            e[res[key[i]].startswith('KILLED')] += 1
    for f, (a, k) in by.items():
        print(f'{f}: killed {k}, alive {a}')
main()
