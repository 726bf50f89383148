"""Writes MANIFEST.json."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, HERE)
import check
T = {
 'C01': 'sign-then-verify round-trip monitor over random requests',
 'C02': 'metamorphic monitor: alterations of signed data, judged by a model of what is signed',
 'C03': 'metamorphic monitor: neutral changes, judged by a model of what is signed',
 'C04': 'reference-model monitor of canonical output over enumerated and random bodies',
 'C05': 'differential monitor: one body, many chunkings and continuations after Done',
 'C06': 'reference-model monitor of header data and independent signature check',
 'C07': 'reference-model monitor of body hash answers',
 'C08': 'differential monitor against an independent signature parser',
 'C09': 'differential monitor against an independent key record parser',
 'C10': 'output monitor: independent header scanner and parser',
 'C11': 'request/output monitor against a model of requests',
 'C12': 'reference-model monitor of header selection and policy verdicts',
 'C13': 'verdict monitor against a reference verifier at set and actual times',
 'C14': 'verdict monitor against a reference verifier over key sizes and SHA-1',
 'C15': 'verdict monitor against a reference verifier over body lengths',
 'C16': 'verdict monitor against a reference verifier over key records',
 'C17': 'trace monitor over recorded DNS queries, with a reference verifier',
 'C18': 'trace monitor over lookup events in virtual time with injected delays',
 'C19': 'differential monitor: each signature together and alone, and a reference verifier',
 'C20': 'outcome monitor against an independent RFC 8601 table',
 'C21': 'round-trip and differential monitor of encodings',
 'C22': 'differential monitor against independent name rules',
 'C23': 'hostile-input stress with overflow and debug assertions, crash and runaway monitors (thorough: AddressSanitizer)',
 'C24': 'live-heap monitor (counting allocator) over streamed bodies',
 'C25': 'differential monitor against independent header field rules',
 'C26': 'differential monitor against independent RSA and Ed25519 implementations',
 'C27': 'concurrency stress compared with sequential runs (thorough: ThreadSanitizer)',
 'C28': 'interoperability monitor with an independent signer',
 'C29': 'verdict and output monitor of defaults against a reference set as documented',
 'C30': 'taint search of all printed and logged text for private keys',
 'C31': 'differential monitor: with and without a trace subscriber; printing monitor',
}
checks = []
for id in sorted(check.PROPS):
    scale, variants = check.PROPS[id]
    r = check.RULES[id]
    note = ('Held on the executions generated from VERIF_SEED, nothing more. Build variants: quick %s; thorough default and pre-rfc8301%s. ' %
            (' and '.join({'default': 'default', 'sha1': 'pre-rfc8301'}[v] for v in variants),
             {'C23': ', AddressSanitizer', 'C27': ', ThreadSanitizer'}.get(id, '')))
    note += 'Assumes: ' + ('; '.join(r['assumptions']) if r['assumptions'] else 'nothing beyond the harness itself') + '.'
    checks.append(dict(property=id, quick_cmd=f'python3 check.py {id} --tier quick',
                       thorough_cmd=f'python3 check.py {id} --tier thorough',
                       evidence_file=f'evidence/{id}.json', technique='runtime monitoring: ' + T[id],
                       level='exploration', level_note=note))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=[],
               notes='No hooks in /repo: everything is observed through the public interface, a recording resolver, tokio\'s paused clock and a counting allocator. Fixes are listed in known_findings.txt.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
