#!/usr/bin/env python3
import json, os, subprocess, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
CLAIM = sys.argv[1].split(',') if len(sys.argv) > 1 else json.load(open('tools/claimed.json'))
json.dump(CLAIM, open('tools/claimed.json', 'w'))
PART = json.load(open('lvc/partial.json'))
NOTE = 'Every obligation generated from the current LLVM IR of the functions this property depends on is discharged for all inputs; '
m = dict(version=1, setup_cmd='./setup.sh',
         hooks=dict(guard='cfg(blake2_verify)', enable='RUSTFLAGS="--cfg blake2_verify" (set by build_ir.sh)',
                    source_commits=[l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s', 'a856fad..HEAD'], capture_output=True, text=True).stdout.splitlines() if 'verify' in l]),
         checks=[dict(property=p, quick_cmd='./check.py %s --tier quick' % p, thorough_cmd='./check.py %s --tier thorough' % p,
                      technique='contract-based deductive verification of the compiled code (LLVM IR of /repo, own verifier, z3)', level='other' if PART.get(p, {}).get('main') else 'proof',
                      level_note=NOTE + ('NOT proved but only bounded (runs of the real code against an independent reference): %s; ' % PART[p]['what'] if p in PART else '') + 'trusted: rustc up to IR and LLVM after it, the verifier and z3; see DESIGN.md and the evidence file.') for p in CLAIM],
         not_applicable=[dict(property=p, reason='check under construction') for p in props if p not in CLAIM])
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
