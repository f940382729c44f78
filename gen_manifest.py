#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE = {
 'C01': 'Seeded search, not exhaustive: payloads are generated around the declared boundaries and then damaged by the simulated network; the oracle is an independent reference judge (crate model) for text, line, regex, length and base* rules. Trusted: the judge, serde/serde_json/rocket/axum themselves.',
 'C02': 'Seeded search; every integer width, float, boolean, bit and byte type, each numeric representation a format may choose; oracle: exact arithmetic in the reference judge.',
 'C03': 'Seeded search; oracle: independent grammar judges for domain/host/IP/MAC/UUID. IDNA conversion itself (crate idna) is trusted by both sides.',
 'C04': 'Seeded search; the email grammar is judged independently; URL, phone, semver and JSON grammars are those of the crates the library builds on (trusted), the policies on top are judged independently.',
 'C05': 'Seeded search over pairs of gateways and transport forms for the same logical payload; differential, plus the reference judge.',
 'C06': 'Seeded search over the step at which a simulated deserializer, reader, socket or form stream fails; the fault carries a tag that must come back.',
 'C07': 'Seeded search over records mixing bare and captured fields under serde, JSON, CBOR and bincode and over injected transport failures.',
 'C08': 'Seeded search over a simulated disk with fsync, lost and torn tails, flipped bits, crash and restart; known findings listed in known_findings.json.',
 'C09': 'Seeded search over chains of relay hops (text, form, serialized, real formats, copies); known findings listed in known_findings.json.',
 'C10': 'Seeded search over interleavings of tasks that switch at allocation, delivery and lock events and inside the library at basic-block edges; oracle: the same operation alone in a fresh process.',
 'C11': 'Seeded search over sources whose views change between reads.',
 'C12': 'Seeded search over faulty sinks for Display, Debug, Serialize and streams; oracle: fault-free rendering and prefix rule.',
 'C13': 'Seeded search over hostile payloads, allocation and work (basic-block edge) budgets, CPU and wall limits, each run in a process of its own.',
 'C14': 'Seeded search over real axum routes and rocket form parsing on simulated sockets: fragmentation, disconnects, cancellation, slow clients; exactly-once by request counting.',
}
checks = []
for p in props:
    i = p['id']
    if not i.startswith('C'): continue
    checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
      'technique': 'deterministic simulation with fault injection (seeded search)', 'level': 'exploration', 'level_note': NOTE[i],
      'evidence_file': f'evidence/{i}.json'})
m = {'version': 1, 'setup_cmd': 'cd sim && unset RUSTC_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR; CARGO_NET_OFFLINE=true cargo build --offline --quiet -p vsim', 'checks': checks, 'not_applicable': [
 {'property': 'N01', 'reason': 'Decided by the compiler when a declaration is expanded; there is no execution, schedule, fault or history for a simulator to drive.'},
 {'property': 'N02', 'reason': 'A property of build configurations; one simulated build runs one feature set and no schedule or fault influences it.'},
 {'property': 'N03', 'reason': 'A performance property; deterministic simulation decides nothing about cost (runaway work is bounded under C13).'},
], 'notes': 'No hooks in /repo: every seam used (Deserializer, Serializer, Read, Write, fmt::Write, AsRef, allocator, futex, getrandom, axum/rocket bodies) already exists. Defects found are repaired by fix: commits or listed in known_findings.json.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1); open('/verif/MANIFEST.json','a').write('\n')
