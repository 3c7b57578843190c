"""newseed.py SPEC.py : SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (main.rs text)  -> /verif/seeded/ID"""
import sys, os, json, subprocess, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hscript
def run(lines):
    r = subprocess.run(['/verif/build/harness/debug/replay', 'svc'], input='\n'.join(lines) + '\n.\n', stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()
    assert len(r) == len(lines), (len(r), len(lines)); return r
SCRIPT_MAIN = '''mod ctrsrv; mod mathsrv; mod svc;
// every line of script.txt is a call or a look at the state, followed by the answer the property requires
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut s = svc::Server::new(); let mut bad = 0;
    for l in include_str!("script.txt").lines() {
        let (q, want) = l.split_once(" => ").unwrap();
        let got = s.line(q);
        if got.trim() != want.trim() { bad += 1; println!("{q}\\n  expected {want}\\n  got      {got}"); }
    }
    std::process::exit(if bad > 0 { 1 } else { 0 });
}
'''
ns = dict(vars(hscript)); exec(open(sys.argv[1]).read(), ns)
seeds = ns.get('SEEDS') or [ns]
for n in seeds:
    D = f'/verif/seeded/{n["ID"]}'; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    T = tempfile.mkdtemp(); subprocess.run(['git', 'clone', '-q', '/repo', T + '/r'], check=True)
    for f, a, b in n['EDITS']:
        p = f'{T}/r/{f}'; s = open(p).read(); assert s.count(a) >= 1, (n['ID'], f, a); assert s.count(a) == 1 or n.get('FIRST'), (n['ID'], 'ambiguous', s.count(a)); s = s.replace(a, b, 1); open(p, 'w').write(s)
    d = subprocess.run(['git', '-C', T + '/r', 'diff'], stdout=subprocess.PIPE, text=True, check=True).stdout
    open(D + '/patch.diff', 'w').write(d); shutil.rmtree(T)
    json.dump(dict(property=n['PROP'], needs=n['NEEDS'], what_it_breaks=n['BREAKS']), open(D + '/meta.json', 'w'), indent=1)
    C = D + '/crate'; os.makedirs(C + '/src')
    H = n.get('HARNESS', '/verif/harness')
    shutil.copytree(H + '/stubs', C + '/stubs') if os.path.isdir(H + '/stubs') else None
    for f in ('Cargo.toml', 'Cargo.lock', 'src/lib.rs'):
        if os.path.exists(f'{H}/{f}'): shutil.copy(f'{H}/{f}', f'{C}/{f}')
    if n.get('SCRIPT'):
        for f in ('svc.rs', 'ctrsrv.rs', 'mathsrv.rs'): shutil.copy(f'{H}/src/{f}', f'{C}/src/{f}')
        L = n['SCRIPT'].l; open(C + '/src/script.txt', 'w').write(''.join(f'{a} => {b}\n' for a, b in zip(L, run(L)))); n['DEMO'] = SCRIPT_MAIN
    if n.get('EXTRA'): 
        for k, v in n['EXTRA'].items(): open(f'{C}/{k}', 'w').write(v)
    open(C + '/src/main.rs', 'w').write(n['DEMO'])
    open(D + '/demo.sh', 'w').write('''#!/bin/bash
# builds and runs crate/ against /repo's current tree in a scratch directory: exit 0 when the property holds on the demonstrated input
T=$(mktemp -d /tmp/demo.XXXXXX); cp -r "$(dirname "$0")/crate" "$T/crate"; cd "$T/crate" || exit 9
export RUSTUP_TOOLCHAIN=1.81 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"
cargo run -q --offline --bin %s > "$T/out.txt" 2>&1; rc=$?
tail -5 "$T/out.txt"; rm -rf "$T"; exit $rc
''' % n.get('BIN', 'replay'))
    print(n['ID'], len(d.splitlines()))
