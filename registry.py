"""Units (one function or cluster under contract each) and which properties they decide."""
UNITS = {}
def unit(name, **k): UNITS[name] = k

A_LIBC = 'libc string/stdio functions behave as their assumed contracts (CBMC library models and lib/libc_models.c)'

unit('tokenize', harness='units/u_tokenize.c', entry='h_tokenize', repo=['common/mlle_parse_command.c', 'common/mlle_protocol.c'],
     proof_defs=['-DVP_OWN_PRINTF', '-DVP_OWN_STRTOK', '-DVP_OWN_SCANF'], unwind=19, unwindset={'mlle_tokenize.0': 5}, cost=80,
     functions=['mlle_tokenize'], native=False, assumptions=[A_LIBC, 'strtok_r: contract in u_tokenize.c, quantified clauses instantiated at the region boundaries'])
unit('parse', harness='units/u_parse.c', entry='h_parse', repo=['common/mlle_parse_command.c', 'common/mlle_protocol.c'],
     proof_defs=['-DVP_OWN_PRINTF', '-DVP_OWN_STRTOK', '-DVP_OWN_SCANF'], replace={'mlle_tokenize': 'ct_mlle_tokenize'}, unwind=17, samples=400000,
     functions=['mlle_parse_command', 'parse_int', 'mlle_tokenize'], trace_replay=False,
     assumptions=[A_LIBC, 'sscanf("%ld") and snprintf: contracts in u_parse.c'])

R_SSL = ['SSL_write', 'SSL_read', 'SSL_get_error', 'SSL_pending', 'SSL_want', 'fflush', 'ERR_get_error', 'ERR_reason_error_string']
A_TLS = 'OpenSSL SSL_read/SSL_write/SSL_get_error/SSL_pending/SSL_want: contracts in u_ssl.c (a write succeeds with the whole message or not at all; a read returns 1..n bytes in order)'
unit('ssl_write', harness='units/u_ssl.c', entry='h_ssl_write', repo=['common/mlle_ssl.c'], redirect=R_SSL, loops_h='units/loops_ssl.h',
     loops={'ssl_write': ('ssl_write_message', ['bytes', 'errorCode', 'error'])}, proof_defs=['-DVP_PRINTF_CHEAP=200'], unwind=18, unwindset={'ssl_write_message.0': 3}, native_libs=['-lssl', '-lcrypto'],
     functions=['ssl_write_message', 'ssl_get_error_string'], assumptions=[A_TLS])
unit('ssl_read', harness='units/u_ssl.c', entry='h_ssl_read', repo=['common/mlle_ssl.c'], redirect=R_SSL, loops_h='units/loops_ssl.h',
     loops={'ssl_read': ('ssl_read_message', ['bufferLen', 'totalBytesRead', 'noOfBytes', 'pendingData', 'neededSpace', 'errorResult', 'keepReading', 'buffer', 'tmpPointer', 'tmpBuffer', '*errorCode'])},
     proof_defs=['-DVP_PRINTF_CHEAP=200'], unwind=3, native_libs=['-lssl', '-lcrypto'], functions=['ssl_read_message'],
     assumptions=[A_TLS, 'a message is at most 2^30 bytes'])

for _i, _n in enumerate(['simple', 'number', 'length', 'string', 'numlen', 'error']):
    unit('send_' + _n, harness='units/u_send.c', entry='h_send', repo=['common/mlle_io.c', 'common/mlle_protocol.c', 'common/mlle_error.c', 'common/asprintf.c'], proof_defs=['-DVP_OWN_PRINTF'], defs=['-DVP_SEND_FORM=%d' % _i],
         unwind=22, unwindset={'snprintf.8': 66, 'make_line.0': 66}, functions=['mlle_send_' + (_n if _n in ('string', 'error') else {'simple': 'simple_form', 'number': 'number_form', 'length': 'length_form', 'numlen': 'number_and_length_form'}[_n])],
         redirect=['memcpy', 'memset'], native_libs=['-lssl', '-lcrypto'], assumptions=[A_LIBC, 'ssl_write_message: its contract (proved in unit ssl_write)', 'payload shorter than 2^31 - 200 bytes'])

for _i, _n in ((2, 'length'), (4, 'numlen')):
    unit('send_%s_wipe' % _n, **{**UNITS['send_' + _n], 'defs': ['-DVP_SEND_FORM=%d' % _i, '-DCHECK_WIPE'], 'redirect': ['memcpy', 'memset', 'free']})
unit('ssl_read_wipe', **{**UNITS['ssl_read'], 'defs': ['-DCHECK_WIPE'], 'redirect': R_SSL + ['free']})

unit('extract', harness='units/u_extract.c', entry='h_extract', native_repo=['common/mlle_utils.c', 'common/mlle_protocol.c', 'common/mlle_error.c', 'common/mlle_parse_command.c', 'common/asprintf.c'], repo=['common/mlle_utils.c', 'common/mlle_protocol.c'], proof_defs=['-DVP_OWN_MEMCHR'], redirect=['memcpy', 'memset'], loops_h='units/loops_extract.h',
     loops={'skip_empty_lines': ('extract_data', ['line_start'])}, unwind=5, samples=200000, functions=['extract_data'],
     assumptions=[A_LIBC, 'messages of at most 2^30 bytes'])

LVE_FILES = ['lve/mlle_lve.c', 'lve/mlle_lve_feature.c', 'lve/mlle_lve_file.c', 'lve/mlle_lve_libpath.c', 'lve/mlle_lve_license.c', 'lve/mlle_lve_pubkey.c', 'lve/mlle_lve_tools.c', 'lve/mlle_protocol_lve_state.c',
             'common/mlle_error.c', 'common/mlle_io.c', 'common/mlle_parse_command.c', 'common/mlle_protocol.c', 'common/mlle_utils.c', 'common/asprintf.c']
for _n, _m, _d in (('state', 1, []), ('reply', 2 | 32, []), ('gate', 4, []), ('file', 8, []), ('license', 16, []), ('global', 64 | 4 | 2, ['-DMLLE_GLOBAL_LICENSE_FEATURE=GLF'])):
    unit('session_' + _n, harness='units/u_session.c', entry='h_session', repo=LVE_FILES, native_only=True, defs=['-DCHK=%d' % _m] + _d, samples=150000,
         redirect=['SSL_get_shutdown', 'stat'], file_defs={'lve/mlle_lve_file.c': ['-Dmlle_io_read_file=vp_io_read_file']}, native_libs=['-lssl', '-lcrypto'], functions=[],
         assumptions=['bounded replay search: sessions of at most 14 messages'])


unit('handle', harness='units/u_handle.c', entry='h_handle', repo=['lve/mlle_lve.c', 'lve/mlle_protocol_lve_state.c', 'common/mlle_protocol.c'], proof_defs=['-DVP_OWN_PRINTF'], unwind=17, native=False,
     functions=['mlle_lve_handle_command', 'mlle_next_state'], assumptions=['callees by contract: extract_data (unit extract), mlle_send_* (units send_*), handlers (units feature, libpath, file)'])
unit('receive', harness='units/u_receive.c', entry='h_receive', repo=['lve/mlle_lve.c'], redirect=['SSL_get_shutdown', 'memcpy=vp_rcv_memcpy'], loops_h='units/loops_receive.h', replace={'mlle_lve_handle_command': 'ct_handle'},
     loops={'lve_receive': ('mlle_lve_receive', ['bytesRead', 'messageBuffer', 'state', 'command', 'grammar_error', 'error_msg', 'errorCode', 'tokenBuffer'])}, proof_defs=['-DVP_PRINTF_CHEAP=200'], unwind=4, native=False,
     functions=['mlle_lve_receive'], assumptions=['ssl_read_message, mlle_parse_command, mlle_lve_handle_command: their contracts (units ssl_read, parse, handle)'])


unit('gate', harness='units/u_gate.c', entry='h_gate', repo=['lve/mlle_lve_pubkey.c'], redirect=['strcmp'], unwind=6, native=False, functions=['mlle_lve_validate_pubkey', 'validate'],
     assumptions=['strcmp by contract', 'the generated public_key_tool.h is replaced by include/public_key_tool.h with the same macros (1 to 4 keys)'])
unit('feature', harness='units/u_feature.c', entry='h_feature', repo=['lve/mlle_lve_feature.c', 'lve/mlle_lve_license.c', 'lve/mlle_lve_tools.c'], unwind=3, native=False,
     functions=['mlle_lve_feature', 'mlle_lve_returnfeature', 'mlle_lve_setup_licensing', 'mlle_lve_setup_licensing_check_error', 'mlle_lve_license', 'mlle_lve_returnlicense', 'mlle_lve_tools'],
     assumptions=['license manager: contract of license_managers/include (sets the error when it refuses)'])
for _n, _d in (('libpath', []), ('libpath_global', ['-DMLLE_GLOBAL_LICENSE_FEATURE=GLF'])):
    unit(_n, bounded=7, harness='units/u_libpath.c', entry='h_libpath', repo=['lve/mlle_lve_libpath.c'], defs=_d, redirect=['memcpy', 'memset', 'stat'], loops_h='units/loops_libpath.h',
         loops={'trim_slash': ('mlle_lve_libpath', ['path_size', 'last', 'lve_ctx->libpath', 'lve_ctx'])}, unwind=5, native=False, functions=['mlle_lve_libpath', 'validate_directory'],
         assumptions=['a library path is at most 2^30 bytes and holds no NUL byte', 'mlle_cr_create, stat and the license manager by contract'])


unit('file', bounded=9, harness='units/u_file.c', entry='h_file', repo=['lve/mlle_lve_file.c'], redirect=['strrchr', 'strcasecmp', 'mlle_io_read_file=vp_io_read_file'], proof_defs=['-DVP_OWN_PRINTF', '-DVP_OWN_STRCSPN'], loops_h='units/loops_file.h',
     loops={'parent_element': ('has_parent_element', ['path'])}, unwind=5, native=False, functions=['mlle_lve_file', 'has_parent_element'],
     assumptions=['mlle_io_read_file (unit readfile), mlle_cr_decrypt (unit decrypt), mlle_send_* by contract', 'strcspn, strrchr, strcasecmp, snprintf("%s/%s") by contract, quantified clauses instantiated', 'paths of at most 2^30 bytes'])


N_TRUST = ' Trusted: CBMC, goto-cc, the assumed contracts on libc/OpenSSL listed in the evidence file.'
ABS = __import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), 'include/abstract')
unit('decrypt', harness='units/u_decrypt.c', entry='h_decrypt', repo=['decryptors/default/src/mlle_cr_decrypt.c'], redirect=['memcmp'], proof_defs=['-DVP_PRINTF_CHEAP=200', '-I' + ABS], replace={'mlle_demask_key': 'ct_demask', 'mlle_store_keymask': 'ct_store'}, unwind=34, native=False,
     functions=['mlle_cr_decrypt'], assumptions=['OpenSSL EVP/HMAC/RAND: contracts in the units (incremental AES-256-CBC and HMAC-SHA256 over the bytes given, any call may fail)', 'HMAC-SHA256 and AES-256 are cryptographically sound'])

unit('demask', bounded=16, cbmc=['--arrays-uf-always'], late='units/late_mask.c', harness='units/u_demask.c', entry='h_demask', repo=['decryptors/default/src/mlle_cr_decrypt.c'], redirect=['strcasecmp'], proof_defs=['-DVP_OWN_PRINTF', '-I' + ABS], loops_h='units/loops_demask.h',
     loops={'demask_path': ('mlle_demask_key', ['i', 'ch', 'path', 'last_slash_index'])}, replace={'mlle_demask_key': 'ct_demask', 'mlle_cr_decrypt': 'ct_decrypt'}, unwind=34, native=False, functions=['mlle_demask_key'],
     assumptions=['uthash HASH_FIND_STR/HASH_ADD_KEYPTR: a map from strings to items (contract in include/abstract/uthash.h)', 'library directory plus relative path shorter than 4096 bytes'])

A_HASH = 'uthash HASH_FIND_STR/HASH_ADD_KEYPTR: a map from strings to items (contract in include/abstract/uthash.h)'
unit('storemask', harness='units/u_storemask.c', entry='h_store', repo=['decryptors/default/src/mlle_cr_decrypt.c'], cbmc=['--arrays-uf-always'], redirect=['memcpy', 'memset', 'strlen'], proof_defs=['-DVP_PRINTF_CHEAP=200', '-I' + ABS], unwind=6, native=False,
     functions=['mlle_store_keymask'], assumptions=[A_HASH])
unit('mask', bounded=16, harness='units/u_mask.c', entry='h_mask', repo=['decryptors/default/src/mlle_cr_encrypt.c'], cbmc=['--arrays-uf-always'], late='units/late_mask.c', redirect=['strcasecmp', 'memcpy', 'memset'], proof_defs=['-DVP_PRINTF_CHEAP=200', '-DLATE_MASK', '-I' + ABS], loops_h='units/loops_demask.h',
     loops={'mask_path': ('mlle_mask_key', ['i', 'ch', 'path', 'last_slash_index'])}, replace={'mlle_mask_key': 'ct_mask'}, unwind=34, native=False, functions=['mlle_mask_key'],
     assumptions=[A_HASH, 'a relative path does not begin with a slash and is shorter than 4096 bytes', 'RAND_bytes returns 1 exactly when it filled the buffer'])

unit('encrypt', harness='units/u_encrypt.c', entry='h_encrypt', repo=['decryptors/default/src/mlle_cr_encrypt.c'], redirect=['fread', 'fwrite', 'feof', 'ferror', 'fflush'], proof_defs=['-DVP_PRINTF_CHEAP=200', '-I' + ABS], loops_h='units/loops_encrypt.h',
     loops={'encrypt_data': ('mlle_cr_encrypt', ['read_len', 'crypt_len', 'read_buf', 'crypt_buf'])}, replace={'mlle_mask_key': 'ct_mask'}, unwind=34, native=False, functions=['mlle_cr_encrypt'],
     assumptions=['OpenSSL EVP/HMAC/RAND: contracts in the units (incremental AES-256-CBC and HMAC-SHA256 over the bytes given, any call may fail)', 'stdio: fread returns fewer bytes than asked only at end of file or on an error'])

for _n, _m in (('tamper', 1), ('round', 2 | 32), ('bind', 4), ('fault', 8), ('wipe', 16)):
    unit('crypt_' + _n, harness='units/u_crypt.c', entry='h_crypt', repo=['decryptors/default/src/mlle_cr_encrypt.c', 'decryptors/default/src/mlle_cr_decrypt.c', 'common/mlle_io.c', 'common/mlle_protocol.c', 'common/mlle_error.c', 'common/asprintf.c', 'common/libcrypto-compat.c', 'encrypt_decrypt/encrypt_file.c', 'encrypt_decrypt/decrypt_file.c'], native_only=True, defs=['-DCHK=%d' % _m], samples=12000, redirect=['RAND_bytes'],
         file_defs={'encrypt_decrypt/encrypt_file.c': ['-Dmain=encrypt_main', '-Dexit=vp_exit'], 'encrypt_decrypt/decrypt_file.c': ['-Dmain=decrypt_main', '-Dexit=vp_exit', '-Din_buf=dec_in_buf']}, native_libs=['-lssl', '-lcrypto'], functions=[], native_defs=['-I' + __import__('os').environ.get('VP_REPO', '/repo') + '/ThirdParty/uthash'],
         assumptions=['bounded replay search: libraries of at most 21 files of at most 768 bytes'])

unit('readcmd', harness='units/u_readcmd.c', entry='h_readcmd', repo=['common/mlle_utils.c', 'common/mlle_protocol.c'], native_repo=['common/mlle_utils.c', 'common/mlle_protocol.c', 'common/mlle_parse_command.c'], redirect=['memcpy', 'memset', 'free'], loops_h='units/loops_readcmd.h',
     loops={'read_more': ('mlle_read_command', ['bytesRead', 'totalBytesRead', 'errorCode', 'messageBuffer', 'messageLength', 'error_msg', 'error', '*command'])}, replace={'extract_data': 'ct_extract', 'mlle_parse_command': 'ct_parse'}, unwind=6, samples=40000, trace_replay=False,
     functions=['mlle_read_command', 'release_message'], assumptions=['ssl_read_message, mlle_parse_command, extract_data: their contracts (units ssl_read, parse, extract)', 'a payload of 2^40 bytes or more cannot be allocated'])


unit('tool', harness='units/u_tool.c', entry='h_tool', repo=['tool/mlle_licensing.c', 'common/mlle_protocol.c'], native_repo=['tool/mlle_licensing.c', 'common/mlle_protocol.c', 'common/mlle_error.c'], redirect=['free', 'memcpy', 'memset'], proof_defs=['-DVP_OWN_PRINTF'], unwind=92, samples=200000, native_libs=['-lssl', '-lcrypto'], native_file_defs={'common/mlle_error.c': ['-Ufree']},
     functions=['mlle_tool_version', 'mlle_tool_libpath', 'mlle_tool_feature', 'mlle_tool_returnfeature', 'mlle_tool_license', 'mlle_tool_returnlicense', 'mlle_tool_file', 'mlle_expect_command', 'mlle_expect_commands'],
     assumptions=['mlle_read_command (unit readcmd), mlle_send_number_form, mlle_send_string (units send_*), mlle_error_set (unit error): their contracts'])
unit('toolread', harness='units/u_tool.c', entry='h_readbytes', repo=['tool/mlle_licensing.c', 'common/mlle_protocol.c'], native_repo=['tool/mlle_licensing.c', 'common/mlle_protocol.c', 'common/mlle_error.c'], redirect=['free', 'memcpy', 'memset'], unwind=5, samples=200000, native_libs=['-lssl', '-lcrypto'],
     functions=['mlle_tool_read_bytes', 'mlle_tool_get_file_size', 'mlle_file_contents_free'], assumptions=['memcpy by contract'])


unit('wipe_release', harness='units/u_wipeopt.c', entry='h_wipe', repo=['common/mlle_io.c', 'common/mlle_ssl.c', 'common/mlle_utils.c', 'common/mlle_parse_command.c', 'common/mlle_protocol.c', 'common/mlle_error.c', 'common/asprintf.c'], native_only=True, release=['-Wl,--wrap=free'], alloc=False,
     redirect=['SSL_read', 'SSL_write', 'SSL_get_error', 'SSL_pending', 'SSL_want', 'ERR_get_error'], samples=4000, functions=[], native_libs=['-lssl', '-lcrypto'], assumptions=['bounded replay search: messages of at most 20000 bytes, compiled by gcc -O2 as the release build does'])
R_IO = ['fopen', 'fprintf', 'fclose', 'ferror', 'exit']
unit('embed', bounded=5, harness='units/u_embed.c', entry='h_embed', repo=['embedfile/obfuscate_utils.c'], native=False, redirect=R_IO, loops_h='units/loops_embed.h', loops={'strip_cr': ('create_header_file', ['i', 'j', '*data'])},
     replace={'write_initialize_key_macro_body': 'ct_body', 'write_header_extra': 'ct_extra'}, proof_defs=['-DVP_OWN_PRINTF'], unwind=152, functions=['create_header_file', 'open_or_exit'],
     assumptions=['stdio by contract (any write may fail)', 'keys shorter than 2^31 - 2 bytes'])
unit('embed_body', harness='units/u_embed.c', entry='h_body', repo=['obfuscators/dummy/src/obfuscator.c'], native=False, redirect=['fprintf=vp_fprintf_body'], loops_h='units/loops_embed.h', loops={'write_key': ('write_initialize_key_macro_body', ['i'])},
     proof_defs=['-DVP_OWN_PRINTF'], unwind=72, functions=['write_initialize_key_macro_body'], assumptions=['keys shorter than 2^31 - 2 bytes'])
unit('embed_use', harness='units/u_embed.c', entry='h_embed', repo=['embedfile/obfuscate_utils.c', 'obfuscators/dummy/src/obfuscator.c', 'embedfile/obfuscate.c', 'embedfile/randomize_key.c'], native_only=True, redirect=['exit', 'RAND_bytes'], samples=80, functions=[],
     file_defs={'embedfile/obfuscate.c': ['-Dmain=obf_main'], 'embedfile/randomize_key.c': ['-Dmain=rnd_main']}, native_libs=['-lcrypto'], assumptions=['bounded replay search: the generated headers of keys of at most 1400 bytes are compiled and run'])


E2E_FILES = LVE_FILES + ['lve/lve.c', 'lve/mlle_ssl_lve.c', 'common/mlle_ssl.c', 'common/libcrypto-compat.c', 'tool/mlle_licensing.c', 'tool/mlle_ssl_tool.c', 'tool/mlle_spawn_posix.c', 'decryptors/default/src/mlle_cr_encrypt.c', 'decryptors/default/src/mlle_cr_decrypt.c']
for _n, _m in (('gate', 1), ('file', 2), ('license', 4), ('tool', 8), ('read', 16), ('start', 32 | 64), ('cli', 128)):
    unit('e2e_' + _n, harness='units/u_e2e.c', entry='h_e2e', repo=E2E_FILES, native_only=True, defs=['-DVP_E2E', '-DCHK=%d' % _m], samples=200, cost=30,
         file_defs={'lve/lve.c': ['-Dmain=lve_main', '-DLVETARGET=lve', '-DCMAKE_PROJECT_NAME=x', '-DCMAKE_PROJECT_VERSION=1']}, native_libs=['-lssl', '-lcrypto'], native_defs=['-I' + __import__('os').environ.get('VP_REPO', '/repo') + '/ThirdParty/uthash'], functions=[],
         assumptions=['bounded replay search: sessions of at most 12 calls with the real TLS, pipes, files and executable'])


A_OSSL = 'OpenSSL TLS, certificate, PEM and BIO calls: contracts in u_tls.c (a handshake succeeds only if the peer proved to hold the key of the certificate it presented); constructors of OpenSSL objects the code does not test do not run out of memory'
unit('tls_lve', cbmc=['--arrays-uf-always'], harness='units/u_tls.c', entry='h_tls_lve', repo=['lve/mlle_ssl_lve.c', 'common/mlle_ssl.c'], replace={'ssl_get_error_string': 'ct_ssl_error'}, unwind=3, unwindset={'mlle_error_set.0': 201}, native=False,
     functions=['ssl_setup_lve', 'lve_perform_handshake', 'cert_verify_callback', 'create_CTX', 'get_rsa', 'get_public_key', 'generate_X509', 'init_ssl'], assumptions=[A_OSSL, 'ssl_get_error_string: its contract (unit ssl_write)'])
unit('tls_tool', cbmc=['--arrays-uf-always'], harness='units/u_tls.c', entry='h_tls_tool', repo=['tool/mlle_ssl_tool.c', 'common/mlle_ssl.c'], replace={'ssl_get_error_string': 'ct_ssl_error'}, unwind=3, unwindset={'mlle_error_set.0': 201}, native=False,
     functions=['ssl_setup_tool', 'tool_perform_handshake', 'create_CTX', 'get_rsa', 'generate_X509', 'init_ssl'], assumptions=[A_OSSL, 'ssl_get_error_string: its contract (unit ssl_write)'])


unit('start', harness='units/u_start.c', entry='h_start', repo=['tool/mlle_licensing.c', 'tool/mlle_spawn_posix.c', 'common/mlle_protocol.c'], redirect=['access', 'pipe', 'close', 'dup2', 'fork', 'execl', 'execv', 'execve', 'execlp', 'execvp', '_exit', 'fflush', 'fprintf', 'strerror', 'SSL_shutdown', 'SSL_free', 'free'], proof_defs=['-DVP_PRINTF_CHEAP=200'], unwind=14, samples=100000, native_libs=['-lssl', '-lcrypto'],
     native_repo=['tool/mlle_licensing.c', 'tool/mlle_spawn_posix.c', 'common/mlle_protocol.c'], nobody_ok=['mlle_read_command', 'mlle_send_string', 'mlle_send_number_form', 'mlle_error_free', 'mlle_error_get_message'],
     functions=['mlle_start_executable', 'mlle_spawn', 'mlle_connections_free'], assumptions=['system calls by contract (any may fail)', 'the standard descriptors 0, 1 and 2 of the tool are open', 'ssl_setup_tool, tool_perform_handshake: their contracts (unit tls_tool)'])


unit('readfile', harness='units/u_readfile.c', entry='h_readfile', repo=['common/mlle_io.c'], native_repo=['common/mlle_io.c', 'common/mlle_protocol.c', 'common/asprintf.c'], redirect=['fopen', 'fclose', 'stat(a,b)=vp_stat(a,b)', 'fstat(a,b)=vp_fstat(a,b)', 'fileno', 'fseek', 'ftell', 'rewind', 'fgetc', 'fread', 'ferror', 'feof', 'strerror'], proof_defs=['-DVP_PRINTF_CHEAP=200'], unwind=3, samples=100000, native_libs=['-lssl', '-lcrypto'],
     functions=['mlle_io_read_file'], assumptions=['stdio and stat by contract: fread returns fewer bytes than asked only at end of file or on an error', 'files of at most 2^40 bytes'])


unit('error', harness='units/u_error.c', entry='h_error', repo=['common/mlle_error.c'], proof_defs=['-DVP_OWN_PRINTF'], cbmc=['--arrays-uf-always'], redirect=['free'], proof_file_defs={'common/mlle_error.c': ['-Ustrdup', '-Dstrdup=ct_strdup']}, unwind=3, unwindset={'mlle_error_free': 2}, samples=100000,
     functions=['mlle_error_new', 'mlle_error_new_valist', 'mlle_error_new_literal', 'mlle_error_set', 'mlle_error_set_literal', 'mlle_error_propagate', 'mlle_error_free', 'mlle_error_get_domain', 'mlle_error_get_code', 'mlle_error_get_cause', 'mlle_error_get_message'],
     assumptions=['vsnprintf by contract (writes at most n bytes, terminated)', 'strdup by contract'])


unit('cli', harness='units/u_cli.c', entry='h_cli', repo=['lve/lve.c', 'lve/mlle_lve.c'], file_defs={'lve/lve.c': ['-Dmain=lve_main', '-DLVETARGET=lve', '-DCMAKE_PROJECT_NAME=x', '-DCMAKE_PROJECT_VERSION=1']}, redirect=['strlen', 'strcmp', 'fprintf', 'printf', 'fflush', 'SSL_shutdown', 'SSL_free'], replace={'mlle_lve_receive': 'ct_receive'},
     proof_defs=['-DVP_OWN_PRINTF'], proof_file_defs={'lve/lve.c': ['-Ustrdup', '-Dstrdup=ct_strdup', '-Umalloc', '-Dmalloc=ct_malloc', '-Dstrcpy=vp_strcpy', '-Dmemcpy=vp_memcpy']}, unwind=17, native=False, functions=['main (lve.c)', '_checkout_feature', 'mlle_lve_shutdown'],
     assumptions=['mlle_parse_command, extract_data, mlle_lve_libpath, mlle_lve_feature, ssl_setup_lve, lve_perform_handshake, mlle_lve_receive: their contracts (units parse, extract, libpath, feature, tls_lve, receive)', 'asprintf, snprintf("%s"), strdup, strcmp, strlen by contract (texts tracked by identity)', 'command lines of at most 6 arguments (the code stops after at most 5)'])


PK_REDIR = ['fopen', 'fclose', 'fwrite', 'fread', 'mkdir', 'chmod', 'opendir', 'unlink', 'rmdir', 'remove', 'mkdtemp', 'readlink', 'getcwd', 'getenv', 'printf', 'fprintf', 'getc', 'fgetc=vp_getc', 'fflush', 'ferror', 'RAND_bytes']
PK_FILES = ['packagetool/packagetool.c', 'packagetool/arguments.c', 'packagetool/manifest.c', 'packagetool/utils.c', 'decryptors/default/src/mlle_cr_encrypt.c', 'decryptors/default/src/mlle_cr_decrypt.c', 'common/libcrypto-compat.c', 'common/mlle_io.c', 'common/mlle_protocol.c', 'common/mlle_error.c', 'common/asprintf.c']
for _n, _m in (('manifest', 1), ('files', 2)):
    unit('pack_' + _n, harness='units/u_pack.c', entry='h_pack', repo=PK_FILES, native_only=True, redirect=PK_REDIR, defs=['-Dlinux', '-DCHK=%d' % _m], file_defs={'packagetool/packagetool.c': ['-Dmain=pt_main']}, samples=1500, functions=[], native_libs=['-lssl', '-lcrypto'], native_defs=['-I' + __import__('os').environ.get('VP_REPO', '/repo') + '/ThirdParty/uthash'],
         assumptions=['bounded replay search: libraries of at most 54 files in 6 directories; zip library by a stand-in that keeps the entries'])



for _n, _d in (('args', []), ('args_help', ['-DVP_HELP'])):
  unit(_n, defs=_d, harness='units/u_args.c', entry='h_args', repo=['packagetool/arguments.c'], redirect=['strcmp', 'printf', 'fflush'], loops_h='units/loops_args.h', loops={'args': ('validateArguments', ['i', 'ptr'])} if not _d else {}, unwind=35, cbmc=['--sat-solver', 'cadical'], native=False,
     functions=['validateArguments', 'lookupArgument', 'addManifestData', 'clearManifestArray', 'getValueOf', 'containsKey', 'validateMandatoryArguments', 'validateLibraryPath', 'validateEncryption', 'validateXmlFile', 'validateIcon', 'helpRequested'],
     assumptions=['strcmp by contract: option names are compared as the texts they are', 'a command line with more than 14 options repeats one or has an unknown one (pigeonhole); help: command lines of at most 31 arguments', 'stringToLower, countLVE, fileExists, validatePath by contract'])

unit('manifest_text', harness='units/u_mtext.c', entry='h_mtext', repo=['packagetool/manifest.c'], redirect=['fprintf', 'fputc', 'putc=vp_fputc', 'fputs', 'strlen'], loops_h='units/loops_manifest.h', loops={'manifest_text': ('print_escaped_text', ['i'])}, unwind=16, native=False,
     functions=['print_escaped_text', 'xml_attribute', 'add_value_attribute'], assumptions=['texts shorter than 2^31 - 1 bytes', 'fprintf by contract (writes the formatted text)'])

for _n, _d in (('manifest', []), ('manifest_fault', ['-DVP_WRITE_ERRORS'])):
  unit(_n, defs=_d, harness='units/u_manifest.c', entry='h_manifest', repo=['packagetool/manifest.c'], redirect=['fprintf', 'fputs', 'fputc', 'putc=vp_fputc', 'fopen', 'fclose', 'ferror', 'getc', 'fgetc=vp_getc', 'printf'], loops_h='units/loops_manifest.h', loops={'manifest_copy': ('copyFileInformation', ['ch', 'firstLine', 'xml_on_new_line'])},
     replace={'print_escaped_text': 'ct_text', 'extractPlatform': 'ct_platform'}, proof_defs=['-DVP_OWN_PRINTF'], cbmc=['--object-bits', '10', '--sat-solver', 'cadical'], unwind=44, native=False,
     functions=['createManifestFile', 'addHeader', 'addLibraryHeader', 'addEncryption', 'addIcon', 'addTools', 'addDependencies', 'addFooter', 'copyFileInformation', 'xml_open', 'xml_close', 'xml_attribute', 'xml_text', 'add_xml_indent', 'end_xml_attributes', 'add_value_attribute', 'add_value_element_and_text', 'add_value_element_and_attribute'],
     assumptions=['print_escaped_text, extractPlatform, getValueOf, containsKey: their contracts (units manifest_text, platform, args)', 'stdio by contract (any call may fail; a failed write shows in ferror)', 'paths shorter than 2048 bytes'])

UT = 'packagetool/utils.c'
A_DIR = 'readdir lists every entry once, with its type (no symbolic links; d_type known)'
A_PATH = 'paths shorter than 2048 bytes, so that snprintf does not cut them'
_R = ['snprintf', 'opendir', 'readdir', 'closedir', 'strcmp', 'strcasecmp', 'strlen', 'printf']
for _n, _d, _r, _rep, _f, _l in (
    ('encdir', 'ENC', ['fopen', 'fclose'], {'encryptDirectoryLinux': 'ct_encdir', 'encryptFile': 'ct_encfile', 'isModelicaFile': 'ct_ismo'}, 'encryptDirectoryLinux', ('encrypt_dir', ['dir', 'result', 'searchPath'])),
    ('zipdir', 'ZIP', [], {'zipDirectoryLinux': 'ct_zipdir', 'removeTmpFolderName': 'ct_strip', 'addFileToZipArchive': 'ct_add', 'isModelicaFile': 'ct_ismo'}, 'zipDirectoryLinux', ('zip_dir', ['dir', 'result', 'status', 'searchPath', 'zipPath'])),
    ('copydir', 'COPY', ['mkdir'], {'copyDirectoryLinux': 'ct_copydir', 'copyFile': 'ct_copyfile'}, 'copyDirectoryLinux', ('copy_dir', ['dir', 'result', 'searchPath', 'searchPathTo', 'folderName'])),
    ('removedir', 'REMOVE', ['stat(a,b)=vp_stat(a,b)', 'unlink', 'rmdir'], {'removeFolderLinux': 'ct_remove'}, 'removeFolderLinux', ('remove_dir', ['dirEntry', 'status', 'len', 'newPath', 'statbuf'])),
    ('findfile', 'FIND', ['strcpy'], {'findFileLinux': 'ct_find'}, 'findFileLinux', ('find_file', ['dir', 'result', 'path_len', 'searchPath', 'pathToIcon']))):
    unit(_n, harness='units/u_dirs.c', entry='h_dirs', repo=[UT], redirect=_R + _r, defs=['-Dlinux', '-DVP_' + _d], file_defs={UT: ['-Dstatic='] if _d == 'REMOVE' else []}, late='units/late_dirs.c', replace=_rep, loops_h='units/loops_dirs.h', loops={_l[0]: (_f, _l[1])},
         proof_defs=['-DVP_OWN_PRINTF'], unwind=12, native=False, functions=[_f], assumptions=[A_DIR, A_PATH, 'findFileLinux: memory is available', 'the functions called for one file, and the call for a subdirectory, by contract (own units; induction on the depth)'])


def _pk(n, d, fns, redirect, replace={}, repo=[UT], assume=[], **k):
    unit(n, harness='units/u_pk.c', entry='h_pk', repo=repo, redirect=['printf'] + redirect, defs=['-Dlinux', '-DVP_' + d], replace=replace, proof_defs=['-DVP_OWN_PRINTF'], native=False, functions=fns, assumptions=assume + [A_PATH], **dict(dict(unwind=16), **k))
A_STDIO = 'stdio by contract (any call may fail or be partial)'
_pk('copyfile', 'COPYFILE', ['copyFile', 'linuxCopyFilePermissions'], ['fopen', 'fclose', 'fread', 'fwrite', 'stat(a,b)=vp_stat(a,b)', 'chmod', 'strerror'], assume=[A_STDIO, 'the file is not changed while it is copied: stat gives its size'])
_pk('encfile', 'ENCFILE', ['encryptFile'], ['fopen', 'fclose', 'snprintf'], assume=[A_STDIO, 'mlle_cr_encrypt by contract (unit encrypt)'])
_pk('zipadd', 'ADD', ['addFileToZipArchive'], [], assume=['zip library by contract'])
_pk('zipcreate', 'CREATE', ['createZipArchive', 'openZipArchive', 'closeZipArchive'], ['snprintf', 'remove'], {'usingEncryption': 'ct_using', 'getCurrentDirectory': 'ct_cwd', 'getTempStagingDirectory': 'ct_stage', 'fileExists': 'ct_exists', 'zipDirectoryLinux': 'ct_zipdir'}, assume=['zip library by contract; zip_close does not report errors', 'library names shorter than 195 bytes'])
_pk('zipname', 'STRIP', ['removeTmpFolderName'], ['strlen', 'snprintf'], {'getTempStagingDirectory': 'ct_stage'})
_pk('icon', 'ICON', ['prepareIconFile', 'locateIconFile', 'cleanUpIconPath'], ['strlen', 'memmove'], {'extractFilename': 'ct_filename', 'getCopiedSourcePath': 'getCopied', 'findFileLinux': 'ct_find'}, assume=['findFileLinux by contract (unit findfile)'])
_pk('copylve', 'LVE', ['copyLVE', 'countLVE', 'createCopyArray', 'copyFileToDotLibraryDir', 'cleanUp'], ['strlen', 'snprintf'], {'usingEncryption': 'ct_using', 'getExecutableDirectory': 'ct_exedir', 'fileExists': 'ct_exists', 'copyFile': 'ct_copyfile', 'getDotLibraryPath': 'ct_dot'})
_pk('stage', 'STAGE', ['copyFolderStructure', 'createStagingFolder', 'stageFiles', 'createLibraryFolder', 'copyExtraFiles', 'encryptFiles', 'deleteTemporaryStagingFolder', 'removeFolder', 'getTempStagingDirectory', 'getTempDirLinux', 'getCopiedSourcePath'], ['strlen', 'snprintf', 'mkdtemp', 'mkdir', 'strerror'], {'usingEncryption': 'ct_using', 'getExecutableDirectory': 'ct_exedir', 'fileExists': 'ct_exists', 'copyDirectoryLinux': 'ct_copydir', 'encryptDirectoryLinux': 'ct_encdir', 'removeFolderLinux': 'ct_remove'}, unwind=30, assume=['memory is available'])
_pk('lower', 'LOWER', ['isModelicaFile', 'usingEncryption', 'stringToLower'], ['strrchr', 'tolower'], loops_h='units/loops_lower.h', loops={'lower': ('stringToLower', ['i', '*str'])}, assume=['strrchr gives the last dot; "C" locale'])
_pk('work', 'WORK', ['doWork'], [], repo=['packagetool/packagetool.c'], file_defs={'packagetool/packagetool.c': ['-Dmain=pt_main']}, assume=['the steps by contract (their own units)'])
_pk('platform', 'PLAT', ['extractPlatform'], [], repo=[UT, 'packagetool/manifest.c'], unwind=220, assume=['the executables named in utils.c'])


_pk('libname', 'NAME', ['getLibraryName'], ['strrchr', 'strlen'], {'getValueOf': 'ct_value'}, repo=['packagetool/arguments.c'], assume=['the library is not the root directory', 'strrchr gives the last slash'])
_pk('pathtrim', 'TRIM', ['validatePath', 'isDirectory'], ['strlen', 'stat(a,b)=vp_stat(a,b)'], {}, loops_h='units/loops_lower.h', loops={'trim_path': ('validatePath', ['path_size', 'last', '*path'])}, bounded=5, assume=['paths of at most 2^30 bytes'])


PROPS = {
    'C01': dict(units=['tokenize', 'parse'], note='All inputs: mlle_tokenize and mlle_parse_command are proved against a specification written from doc/SEMLA.md.' + N_TRUST),
    'C02': dict(units=['send_simple', 'send_number', 'send_length', 'send_string', 'send_numlen', 'send_error', 'ssl_write'], note='All payloads and numbers.' + N_TRUST),
    'C03': dict(ids={'handle': '^handle\\.(?!exactly-one-reply|payload-released|error-text)', 'receive': '^receive\\.(?!one-reply|every-message|serves|stops|tool-valid)'},
                units=['handle', 'receive', 'session_state'], note='One step of the session is proved for every state and message, and the loop invariant carries it to every history; session_state is a bounded replay search for failing inputs only.' + N_TRUST),
    'C04': dict(ids={'handle': 'exactly-one-reply|payload|error-text|connection|answers|error-1', 'receive': '^receive\\.(?!tool-valid|state-thr)', 'file': 'exactly-one-reply|out-of-memory|error-slot|file\\.error|connection|scan-within|decrypt-room|contents-length', 'feature': 'exactly-one|error-freed|error-slot|error-message|text-still|connection', 'libpath': 'exactly-one|lib\\.error|connection|path-size|path-length|failure-answered'},
                units=['receive', 'handle', 'extract', 'file', 'feature', 'libpath', 'session_reply'], note='Per-message step and loop invariant proved for all messages and outcomes; session_reply is a bounded replay search.' + N_TRUST),
    'C05': dict(ids={'file': '^gate\\.|context-unchanged', 'receive': 'tool-validated-first', 'libpath': 'approval|revokes', 'libpath_global': 'approval|revokes', 'tls_lve': '^gate\\.', 'cli': '^gate\\.'},
                units=['gate', 'receive', 'file', 'libpath', 'libpath_global', 'tls_lve', 'cli', 'session_gate', 'e2e_gate'], note='Comparison with the approved keys and the gate in FILE proved for all keys and requests, and that the key compared is the one of the certificate the peer proved in this handshake; session_gate and e2e_gate (real programs and OpenSSL) are bounded replay searches.' + N_TRUST),
    'C06': dict(ids={'file': '^file\\.', 'libpath': 'lib\\.(path|decryption|directory|context)'},
                units=['file', 'readfile', 'libpath', 'session_file', 'e2e_file'], note='All paths, contents and failures; session_file and e2e_file are bounded replay searches.' + N_TRUST),
    'C07': dict(ids={'libpath': 'lib\\.(yes|path|failure)', 'libpath_global': '^global\\.|lib\\.yes', 'cli': '^cli\\.'},
                units=['feature', 'libpath', 'libpath_global', 'cli', 'session_license', 'session_global', 'e2e_license', 'e2e_cli'], note='All decisions and reasons of the license manager; session_* and e2e_* are bounded replay searches.' + N_TRUST),
    'C08': dict(ids={'decrypt': '^decrypt\\.'}, units=['decrypt', 'storemask', 'crypt_tamper'], note='All inputs and lengths, all failures of the crypto library; AES and HMAC by contract; crypt_tamper is a bounded replay search with the real OpenSSL.' + N_TRUST),
    'C09': dict(ids={'decrypt': '^decrypt\\.', 'encrypt': '^encrypt\\.'}, units=['encrypt', 'decrypt', 'mask', 'demask', 'storemask', 'crypt_round', 'crypt_fault'], note='Encryption (loop invariant over the input stream), decryption and both sides of the key mask proved for all inputs against the same format; that the two formats compose and the command line tools are covered by the bounded replay searches crypt_round and crypt_fault.' + N_TRUST),
    'C10': dict(units=['mask', 'demask', 'storemask', 'crypt_bind'], note='mlle_mask_key and mlle_demask_key proved for every path, recursion by contract; crypt_bind is a bounded replay search with real trees.' + N_TRUST),
    'C11': dict(ids={'readcmd': '^readcmd\\.'}, units=['readcmd', 'extract', 'parse', 'ssl_read'], note='All replies, partitions and failures (loop invariant over the messages that complete a payload).' + N_TRUST),
    'C12': dict(units=['tool', 'e2e_tool'], note='All calls, replies and failures; e2e_tool is a bounded replay search with the real programs.' + N_TRUST),
    'C13': dict(units=['toolread', 'e2e_read'], note='One read from every reachable state, for all sizes; the state invariant carries it to every history; e2e_read is a bounded replay search with the real programs.' + N_TRUST),
    'C14': dict(units=['ssl_read', 'ssl_write'], note='All message lengths, partitions into partial reads and errors (loop invariants).' + N_TRUST),
    'C16': dict(units=['embed', 'embed_body', 'embed_use'], note='All keys: both loops by invariant; that the C compiler reads the generated text as intended is exercised by embed_use (bounded).' + N_TRUST),
    'C15': dict(ids={'decrypt': '^wipe\\.', 'encrypt': '^wipe\\.', 'readcmd': '^wipe\\.|released', 'tls_lve': '^wipe\\.', 'tls_tool': '^wipe\\.'}, units=['send_length_wipe', 'send_numlen_wipe', 'ssl_read_wipe', 'readcmd', 'decrypt', 'encrypt', 'tls_lve', 'tls_tool', 'crypt_wipe', 'wipe_release'], note='Every byte (Skolem position) of every freed buffer, on every path of the source. That the optimiser keeps the clearing (it may drop a plain memset of memory that is freed next) is exercised by wipe_release (bounded: gcc -O2).' + N_TRUST),
    'C17': dict(ids={'tls_lve': '^tls\\.|^key\\.', 'tls_tool': '^tls\\.|^key\\.|^start\\.|^tool\\.', 'cli': '^session\\.'}, units=['start', 'tls_tool', 'tls_lve', 'cli', 'e2e_start'], note='Every failure of every system and library call, on both sides of the connection; e2e_start is a bounded replay search with the real programs.' + N_TRUST),
    'C18': dict(units=['error'], note='All error codes, texts and causes, with and without memory.' + N_TRUST),
    'C19': dict(ids={'lower': 'encryption', 'work': 'help|validation'}, units=['args', 'args_help', 'libname', 'pathtrim', 'lower', 'manifest', 'manifest_fault', 'manifest_text', 'platform', 'icon', 'findfile', 'copylve', 'work', 'pack_manifest'], note='All command lines, texts, files and failures; the manifest is read back by a specification of its form; pack_manifest is a bounded replay search with the real program.' + N_TRUST),
    'C20': dict(ids={'lower': 'modelica|encryption'}, units=['work', 'stage', 'copydir', 'copyfile', 'lower', 'encdir', 'encfile', 'copylve', 'zipcreate', 'zipdir', 'zipname', 'zipadd', 'removedir', 'pack_files'], note='Directories with any number of entries (loop invariants) and any depth (recursion by contract), every failure of every step; pack_files is a bounded replay search with the real program and the real decryptor.' + N_TRUST),
}
