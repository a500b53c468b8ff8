#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 'C01': 'every obligation generated from the MIR of gfm: the result of Parser::render drives the output scanner from "between tags" to "between tags", for every document; contracts of recursive functions and loop invariants are inferred and checked inductively (Houdini) and discharged by z3. Partial correctness; trusted: MIR printer, VC generator, contracts of std functions',
 'C02': 'same obligations as C01 with the output scanner extended by the URL policy inside href and src values (scheme javascript rejected case-insensitively, data only before image/, no control characters before the colon), discharged by z3 for every document. Partial correctness; trusted: MIR printer, VC generator, contracts of std functions',
 'C06': 'at every call that escapes text, the text is proved not to be escaped already (taint predicate over string provenance, contracts inferred and checked inductively, z3), for every document; that text is escaped at all is C01 (for <, > and quotes). The run-time harness compares both directions on generated documents as validation only. Trusted: MIR printer, VC generator, contracts of std functions',
 'C03': 'every panic site (overflow, bounds, char boundary, unwrap, unreachable!) reachable from Parser::render in the MIR of gfm is an obligation discharged by z3 for all documents. Trusted: MIR printer, VC generator, contracts of std functions',

 'C07': 'for every document the result of Parser::render stays in the output grammar (so heading levels are 1 to 6) and, for each level, start tags minus end tags is 0: counting function additive over concatenation, contracts and invariants inferred and checked inductively, discharged by z3. Partial correctness; trusted: MIR printer, VC generator, contracts of std functions',
 'C08': 'frame contract of every function reachable from Parser::render (trait implementations and closures included): every library call is to a function with a pure frame contract, every static named is immutable; flow contract: nothing that depends on the log level or on hash-map order reaches the result or memory that outlives the branch. Obligations per call, static and branch, discharged function by function by the flow rules of vc/purity.py against callee summaries (no solver needed). Trusted: MIR printer, flow rules, frame contracts of std',
 'C11': 'postcondition of write_to_file and write_bytes on every path through their MIR with every system call free to fail: success implies the ghost file system holds exactly the given contents; discharged by z3, loops cut by inferred invariants. Trusted: MIR printer, symbolic executor, contracts of std::fs and std::io (vc/iomodels.py)',
 'C12': 'postconditions of smd::run for HTML output on every path (callees executed through their own bodies, library calls by contract): source untouched, nothing but the output changes, success implies the output holds the rendering. Trusted: MIR printer, symbolic executor, library contracts; rendering and path functions uninterpreted; distinct path strings are distinct files',
 'C13': 'postconditions of Config::initialize and Config::load_config on every path, with every library call free to fail: no existing file changed, existing file implies failure, success implies the serialised default was written; loading yields the parsed contents or an error. Trusted: MIR printer, symbolic executor, contracts of std, config, toml, dirs',
 'C14': 'postconditions of PDFConverter::from_html on every path, with every system and browser call free to fail: the ghost file system ends as it began, every mutation is of a file that was absent, success carries the printed bytes. Trusted: MIR printer, symbolic executor, contracts of std and headless_chrome',
 'C15': 'postcondition of main on every path to process::exit or return: status 0 implies no step failed and the output is complete; for init and HTML also the converse. Trusted: MIR printer, symbolic executor, library contracts; clap and env_logger assumed free of file effects',
}
NA = {
 'C04': 'termination needs a variant for every mutually recursive rendering: sub-documents are built by format!, replace and strip, and the measure would need upper bounds of lengths through these and a size measure on token trees; the contract language here has neither, so no contract within reach decides it',
 'C05': 'the counting obligations are generated, but the balance of p, list and quote elements depends jointly on six flags and the quote level, and the contracts in reach do not imply it; heading elements are decided as C07',
 'C09': 'needs the exact value of every token and of the output (full functional correctness of the fall-through path of the lexer); the uninterpreted string theory used here states facts about strings, not their values, and z3 string theory does not carry the loops',
}
TECH = 'contract-based deductive verification: contracts and loop invariants over the MIR extracted from /repo on every run, verification conditions discharged by z3'
TECH8 = 'contract-based deductive verification: frame (assigns nothing, reads nothing global) and non-interference contracts over the MIR extracted from /repo on every run, discharged function by function by flow rules'
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': [], 'not_applicable': []}
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
for i in ids:
    if i in CLAIMED:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py %s' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': TECH8 if i == 'C08' else TECH, 'level': 'proof', 'level_note': CLAIMED[i]})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'work in progress: contracts for this property are not discharged yet')})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
