#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and registry.py."""
import json, os
from registry import PROPS
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), note=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                               **({'observe_at': list(observe)} if observe else {})), _note=note))

prop('C01', 'A command line is accepted exactly when it is well formed',
 'For every byte sequence received as a message, its first non-empty line is recognised as a documented command if and only if it consists of that command\'s name and exactly as many space separated fields as the command takes, each beginning with a decimal integer, and the payload length is not negative; the integers are delivered with exactly their value (beyond the range of a 64-bit long: the nearest limit). '
 'Every other line is rejected with the error that says why, and parsing never reads or writes outside the message and the caller\'s buffers.',
 ['inputs'], 'every message of every length, including embedded NUL, missing line feed, leading empty lines, over-long tokens and numbers beyond the range of long',
 'The tests parse about twenty fixed lines; the input space is unbounded and the errors sit at the boundaries (18 character token, 18 digit number, missing line feed).',
 ['src/common/mlle_parse_command.c', 'src/common/mlle_protocol.c'], [('mlle_tokenize splits the first line', 'src/common/mlle_parse_command.c'), ('mlle_parse_command checks form and numbers', 'src/common/mlle_parse_command.c'), ('command table', 'src/common/mlle_protocol.c')], observe=['return value and struct mlle_command of mlle_parse_command'])
prop('C02', 'A sent message is exactly command, announced length and payload',
 'Every message either side sends consists of the command name, the number if the command has one, the exact length of the payload in decimal if it has one, a line feed, and exactly the payload bytes, and is handed to the connection once; so the peer\'s parser recovers the same command, number and payload. '
 'The error message and plain text forms send the whole text; a missing error text is sent as an empty payload.',
 ['inputs'], 'every command, every number, every payload content and length below 2^31 - 200 bytes',
 'The tests never look at the bytes that are sent; a payload or number that is long, negative, binary or empty is never sampled.',
 ['src/common/mlle_io.c', 'src/common/mlle_protocol.c', 'src/common/mlle_ssl.c'], [('mlle_send_simple_form, mlle_send_number_form, mlle_send_length_form, mlle_send_number_and_length_form, mlle_send_string, mlle_send_error', 'src/common/mlle_io.c')], observe=['bytes given to SSL_write'])
prop('C03', 'The library executable accepts commands only in the documented order',
 'In every session a command is carried out only when it is allowed at that point: VERSION first, then TOOLS or LIB, then LIB, and only after a successful LIB any number of FEATURE, RETURNFEATURE, LICENSE, RETURNLICENSE and FILE. A command that is malformed, out of order, or not one a tool may send has no effect on the session, is answered with error code 1 and leaves the session where it was; a LIB that fails leaves the session waiting for LIB.',
 ['histories', 'inputs'], 'every sequence of messages a peer can send on one connection, of any length',
 'The tests exercise a handful of scripted sessions; the order rule is a statement about all histories, including repeated, skipped and malformed commands.',
 ['src/lve/mlle_lve.c', 'src/lve/mlle_protocol_lve_state.c'], [('mlle_next_state: transition table', 'src/lve/mlle_protocol_lve_state.c'), ('mlle_lve_handle_command: dispatch', 'src/lve/mlle_lve.c'), ('mlle_lve_receive: message loop', 'src/lve/mlle_lve.c')],
 [('state', 'which commands are allowed now', 'mlle_lve_receive')], ['replies given to SSL_write', 'license manager, decryptor and file system calls'])
prop('C04', 'Every message gets exactly one reply and the executable keeps serving',
 'For every message that arrives, whatever its bytes, the library executable sends exactly one reply and then serves the next message, until the connection ends; it neither crashes nor reads or writes outside its buffers, and a payload that is missing or shorter than announced is answered with error code 1.',
 ['histories', 'inputs'], 'every sequence of byte strings a peer can send, and every outcome of the license manager, the decryptor and the file system',
 'A fuzz of the protocol is not part of the tests; payload shorter than announced, missing line feed and refused requests with no error text are never sampled.',
 ['src/lve/mlle_lve.c', 'src/common/mlle_utils.c', 'src/lve/mlle_lve_file.c', 'src/lve/mlle_lve_feature.c', 'src/lve/mlle_lve_libpath.c'], [('mlle_lve_receive: loop', 'src/lve/mlle_lve.c'), ('extract_data: payload of the announced length', 'src/common/mlle_utils.c'), ('every handler sends one reply', 'src/lve/mlle_lve_*.c')], observe=['number of messages given to SSL_write per message read'])
prop('C05', 'Only an approved tool gets file contents',
 'A tool is approved exactly when the public key of the certificate it presented is byte for byte one of the keys compiled into the library executable; a tool without a certificate, with an unreadable one, or with a different key is never approved, no library file is opened or decrypted for it, and each of its FILE commands is answered with an error (code 5, unless the library path itself was unusable). What the tool sends during the session cannot change that.',
 ['histories', 'inputs', 'configurations'], 'every presented key or certificate, every set of compiled-in keys (1 to 4), every message history',
 'The tests use one key pair and one wrong key; prefix keys, several approved keys, a missing certificate and approval set by a later command are not reached.',
 ['src/lve/mlle_lve_pubkey.c', 'src/lve/mlle_lve_file.c', 'src/lve/mlle_ssl_lve.c', 'src/lve/mlle_lve.c'], [('validate: comparison with the approved keys', 'src/lve/mlle_lve_pubkey.c'), ('tool_approved is tested before anything is read', 'src/lve/mlle_lve_file.c'), ('certificate callback stores the key', 'src/lve/mlle_ssl_lve.c')], [('tool_approved', 'the tool of this connection may read files', 'struct mlle_lve_ctx'), ('global_tool_pub_key', 'key of the presented certificate', 'src/lve/mlle_ssl_lve.c')], ['replies to FILE', 'file and decryptor calls'])
prop('C06', 'FILE answers with exactly the contents of that file of the library',
 'For an approved tool, FILE opens exactly the file named by the library path, a slash and the requested path, never one with a ".." element; the reply carries every byte of the file and no other, decrypted when and only when the extension is moc in any letter case; if the file cannot be read completely or fails to decrypt, the reply is an error with the documented code and no content.',
 ['inputs', 'fault_sequences'], 'every requested path and library path, every file size and content, every failure of open, stat, read, allocation and decryption',
 'The tests request a few existing files; other paths, sizes, read errors and decryption failures are not sampled.',
 ['src/lve/mlle_lve_file.c', 'src/common/mlle_io.c'], [('mlle_lve_file: path, decryption, reply', 'src/lve/mlle_lve_file.c'), ('has_parent_element', 'src/lve/mlle_lve_file.c'), ('mlle_io_read_file', 'src/common/mlle_io.c')], observe=['reply to FILE', 'path given to fopen'])
prop('C07', 'The license manager decides and its decision reaches the tool',
 'FEATURE and RETURNFEATURE ask the license manager of the opened library exactly once for exactly the requested feature name, and the tool gets YES if and only if the license manager agreed; a refusal is passed on with the license manager\'s reason (NO for FEATURE, error code 7 for RETURNFEATURE), and a license manager that cannot start is error code 7. '
 'A library built with a global license feature opens with LIB (answer YES) for an approved tool if and only if that feature could be checked out, otherwise the tool loses its approval. '
 'On the command line, checking out a feature of a library ends with status 0 if and only if the license manager of that library granted that feature.',
 ['inputs', 'histories', 'configurations'], 'every feature name, every decision and reason of the license manager, every repetition of requests in a session, with and without a global license feature',
 'The tests use a dummy license manager that always agrees; refusals, failures to start and the global feature are not reached.',
 ['src/lve/mlle_lve_feature.c', 'src/lve/mlle_lve_libpath.c', 'src/lve/mlle_lve_license.c', 'src/lve/lve.c'], [('mlle_lve_feature, mlle_lve_returnfeature', 'src/lve/mlle_lve_feature.c'), ('mlle_lve_setup_licensing: one license manager per session', 'src/lve/mlle_lve_feature.c'), ('mlle_lve_libpath: global feature', 'src/lve/mlle_lve_libpath.c')], observe=['license manager calls', 'replies'])
prop('C14', 'Messages cross the TLS connection whole and in order',
 'What one call sends on the TLS connection is the whole message, or the call reports failure - a write that the TLS library asks to repeat is repeated, however often, until it succeeds or fails; what one call receives is exactly the bytes that were available as one record sequence, in order, none lost, repeated or invented, in a buffer the caller owns; when the connection ends or fails the call reports an error and gives no message. Reading and writing never run outside the buffers, however many partial reads, retries or large messages occur.',
 ['inputs', 'fault_sequences'], 'every message length below 2^30, every partition into partial reads, every retry and error result of the TLS library',
 'The tests run over local pipes with short messages; partial reads, retries (WANT_READ) and errors in the middle of a message do not occur.',
 ['src/common/mlle_ssl.c'], [('ssl_write_message: retry loop', 'src/common/mlle_ssl.c'), ('ssl_read_message: grow and read until nothing is pending', 'src/common/mlle_ssl.c')], observe=['buffer and return value of ssl_read_message', 'bytes given to SSL_write'])
prop('C15', 'Plaintext and key material do not remain in memory that is given back',
 'Every heap buffer that held a message with file contents (the send buffers of payload forms and the receive buffer, including intermediate ones when it grows) is overwritten completely before it is freed, and every local copy of the embedded encryption key and of the private TLS keys is cleared before the function that made it returns, on every path, error paths included.',
 ['inputs', 'fault_sequences'], 'every payload length and content, every partial read and failure',
 'No test looks at freed memory; the error paths are never taken.',
 ['src/common/mlle_io.c', 'src/common/mlle_ssl.c', 'src/decryptors/default/src/mlle_cr_decrypt.c', 'src/decryptors/default/src/mlle_cr_encrypt.c', 'src/lve/mlle_ssl_lve.c', 'src/tool/mlle_ssl_tool.c'], [('memset before free in mlle_send_length_form and mlle_send_number_and_length_form', 'src/common/mlle_io.c'), ('ssl_read_message clears replaced buffers', 'src/common/mlle_ssl.c')], observe=['contents of a buffer at free()'])

NOTES = {
}
exec(open(HERE + '/gen_more.py').read()) if os.path.exists(HERE + '/gen_more.py') else None
P.sort(key=lambda p: p['id'])
NA = globals().get('NA', {})
checks, na = [], []
with open(HERE + '/properties.jsonl', 'w') as f:
    for p in P:
        p.pop('_note')
        f.write(json.dumps(p) + '\n')
        if p['id'] in PROPS:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py %s quick' % p['id'], 'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': 'contract-based deductive verification of the real C functions with CBMC (contracts, loop invariants, callees by contract); native replay for failing inputs',
                           'level': 'proof', 'level_note': PROPS[p['id']]['note']})
        else: na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no check built')})
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup',
     'hooks': {'guard': 'SEMLA_VERIF', 'enable': '-DSEMLA_VERIF (run.py passes it to goto-cc; loops get their invariants from lib/semla_loops.h)', 'source_commits': globals().get('HOOK_COMMITS', ['724bc78'])},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
from registry import UNITS
rows = []
for p in P:
    i = p['id']
    if i not in PROPS: rows.append('### %s %s\n\nNot claimed: %s\n' % (i, p['title'], NA.get(i, 'no check built'))); continue
    us = PROPS[i]['units']
    fn = sorted({f for u in us for f in UNITS[u].get('functions', [])})
    rows.append('### %s %s\n\n%s\n\nProof units: %s. %sFunctions under contract: %s.\n' % (i, p['title'], PROPS[i].get('how') or PROPS[i]['note'],
        ', '.join(u for u in us if not UNITS[u].get('native_only')),
        ('Bounded replay search: %s. ' % ', '.join(u for u in us if UNITS[u].get('native_only'))) if any(UNITS[u].get('native_only') for u in us) else '', ', '.join(fn)))
seeds = []
sd = HERE + '/seeded'
res = json.load(open(HERE + '/doc/seed_results.json')) if os.path.exists(HERE + '/doc/seed_results.json') else {}
if os.path.isdir(sd):
    for s in sorted(os.listdir(sd)):
        try: m = json.load(open('%s/%s/meta.json' % (sd, s)))
        except Exception: continue
        seeds.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], m['needs'], res.get(s, 'not run')))
open(HERE + '/DESIGN.md', 'w').write(open(HERE + '/doc/design_head.md').read().replace('@@TABLE@@', '\n'.join(rows)).replace('@@SEEDS@@', '| bug | property | breaks | needs | caught by |\n|---|---|---|---|---|\n' + '\n'.join(seeds)))
