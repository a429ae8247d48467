#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 'C01': ('round-trip property-based testing of sign/open (Hypothesis, ctypes) with a reference Keccak/SHAKE model', 'Sampled messages, keys, lengths and buffer overlaps; trusts the Python reference model and the random-source stand-in.'),
 'C02': ('differential property-based testing against a reference verifier with constructed boundary vectors', 'Vectors of exactly controlled norm, structural mutations and random bytes; trusts the reference verifier.'),
 'C03': ('metamorphic mutation testing of valid bundles (bit flips, truncation, splicing, re-encoding)', 'All mutations sampled; the excepted class of altered keys is decided by the reference equation.'),
 'C04': ('mutation fuzzing of every entry point under AddressSanitizer/UndefinedBehaviorSanitizer plus coverage-guided libFuzzer', 'Exploration: absence of reports on the inputs run; exact-size heap buffers make any out-of-bounds access visible.'),
 'C05': ('property-based testing of key generation with an exact NTRU-equation oracle', 'Sampled seeds; integer polynomial oracle is independent of the code.'),
 'C06': ('round-trip and differential testing of codecs against a bit-level reference', 'Sampled polynomials, byte strings, degrees and widths.'),
 'C07': ('differential property-based testing between the two formats', 'Sampled seeds, messages, random bytes and altered vectors.'),
 'C08': ('property-based testing of EPERVIER sign/open/recover against a reference verifier', 'Sampled keys, messages and forged bundles; trusts the reference equation.'),
 'C09': ('stateful property-based testing of the sponges against hashlib/pycryptodome', 'Random absorb/squeeze histories and misuse.'),
 'C11': ('model-based testing of generators against reference DRBG/ChaCha20', 'Random seeds and request histories; AES from pycryptodome trusted.'),
 'C12': ('stateful interleaving testing of library calls against isolated runs', 'Random histories, single and multi-threaded.'),
 'C14': ('differential testing of emulated floating point against hardware IEEE-754 and exact rationals', 'Millions of structured and random operands.'),
 'C15': ('differential testing of transforms against schoolbook arithmetic', 'Random and structured polynomials for every degree.'),
 'C16': ('differential and statistical testing of samplers against a reference model', 'Exact comparison on sampled streams and chi-square/moment tests at negligible false-alarm level.'),
 'C17': ('metamorphic property-based testing of execution traces (branches and addresses) over pairs of inputs', 'Sampled pairs; traces of clang-instrumented code; run time of single instructions is not observed.'),
 'P01': ('round-trip property-based testing of Python sign/verify', 'All degrees, hash variants and salt sources, sampled.'),
 'V01': ('property-based testing of the vector generators: generated request files, keys, messages and streams, outputs judged by C, the reference equation and the translated contracts', 'Sampled requests; the Solidity is run by the translator (trusted).'),
 'V02': ('property-based testing of the known-answer programs: generated request files, records judged by a reference DRBG, the library and the reference equation', 'Sampled requests; the request file a program opens for reading is replaced at link time (fopen wrapper).'),
 'H01': ('differential property-based testing of the wrappers over stand-in crates against a reference evaluation', 'The crates with the permutation are not available offline: computable stand-ins over the true field take their place, so the permutation itself is not judged.'),
 'P02': ('differential property-based testing of Python verification against a reference verifier', 'Constructed boundary vectors, malformed encodings, random bytes.'),
 'P03': ('round-trip and differential testing of compression against a bit-level reference and C', 'Sampled vectors and byte strings.'),
 'P04': ('property-based testing of key generation and serialisation round trips', 'Sampled randomness streams and serialised forms.'),
 'P05': ('stateful property-based testing of hash streams against standard functions', 'Random histories.'),
 'P07': ('round-trip and mutation testing of recovery modes', 'Sampled keys, messages and altered signatures.'),
 'P08': ('end-to-end property-based testing of the command line tool in scratch directories', 'Sampled messages, keys and options; network access replaced by stand-ins.'),
 'P09': ('round-trip and differential testing of packing in Python and Solidity', 'Sampled polynomials; Solidity is executed by a translation to Python (trusted).'),
 'P10': ('differential property-based testing against hashlib.blake2s and a reference compression', 'Sampled messages, splits and states.'),
 'X01': ('differential testing of hash-to-point across C, Python and Solidity against a reference', 'Sampled salts and messages.'),
 'X02': ('cross-implementation round-trip testing C <-> Python', 'Sampled keys, messages and seeds.'),
 'G01': ('property-based testing of the Go binding through a generated driver', 'Sampled histories in separate processes.'),
 'G02': ('property-based testing and mutation of call data for the precompile against a reference ABI decoder and verifier, under AddressSanitizer', 'contracts.go is compiled whole against stand-ins of the go-ethereum packages it imports; the ABI decoder is a reimplementation of theirs.'),
 'G03': ('differential property-based testing of the other precompiled contracts against a reference of the EIPs', 'Curve arithmetic, which the file imports, is replaced by computable stand-ins: decoding, checks, encoding and prices are compared exactly, curve arithmetic is not.'),
 'J01': ('cross-implementation testing of the WebAssembly module against the C library', 'Sampled messages and mutations; node runs the shipped module.'),
 'S01': ('differential testing of Solidity verification (translated to Python and executed) against the reference verifier', 'The translation of the Solidity sources to Python is trusted (it runs all of the own Solidity tests correctly); no EVM or solc is available.'),
 'S02': ('differential testing of Solidity recovery against a reference', 'The translation of the Solidity sources to Python is trusted.'),
 'S03': ('differential testing of Solidity NTT libraries against schoolbook arithmetic', 'The translation of the Solidity sources to Python is trusted.'),
 'S04': ('differential testing of Solidity SHAKE against hashlib', 'The translation of the Solidity sources to Python is trusted.'),
 'S05': ('differential testing of Solidity decoders against the C library and a reference', 'The translation of the Solidity sources to Python is trusted.'),
 'S06': ('property-based testing of registration, packing and immutability on the translated contracts', 'The translation of the Solidity sources to Python is trusted.'),
 'S07': ('differential testing of the recursive Solidity verifier against the reference equation with constructed boundary vectors', 'The translation of the Solidity sources to Python is trusted.'),
 'S08': ('stateful property-based testing of code storage against byte-string slices', 'The translation of the Solidity sources to Python is trusted; creation code runs on a small EVM interpreter.'),
}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, 'vp', 'props', p.lower() + '.py')):
        cmd = '/opt/venv/bin/python /verif/run.py %s' % p
        checks.append({'property': p, 'quick_cmd': cmd + ' --tier quick', 'thorough_cmd': cmd + ' --tier thorough',
                       'technique': 'property-based testing / fuzzing: ' + NOTES[p][0], 'level': 'exploration', 'level_note': NOTES[p][1]})
    else:
        na.append({'property': p, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python /verif/tools/selfcheck.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Every check builds what it needs from /repo into a temporary directory and removes it.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
