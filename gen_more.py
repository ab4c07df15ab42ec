prop('C08', 'Altered encrypted data is never delivered as contents',
 'Decrypting a file yields contents only if the data is byte for byte what encryption produced under the same key for that place: any changed, missing, added or reordered byte of IV, ciphertext or MAC, a file shorter than IV and MAC, or a MAC made with another key makes decryption fail, nothing of it is counted as contents, and nothing outside the given buffers is read or written. A directory mask is remembered only from a package.moc that passed this test.',
 ['inputs'], 'every byte string offered as an encrypted file, of every length, and every failure of the crypto library (HMAC-SHA256 and AES-256-CBC assumed sound)',
 'The tests decrypt unmodified files; the number of possible alterations is unbounded and a check that skips or shortens the MAC comparison passes them all.',
 ['src/decryptors/default/src/mlle_cr_decrypt.c'], [('mlle_cr_decrypt: split, decrypt, compare the MAC', 'src/decryptors/default/src/mlle_cr_decrypt.c'), ('mlle_store_keymask', 'src/decryptors/default/src/mlle_cr_decrypt.c')], observe=['return value and output of mlle_cr_decrypt'])
prop('C09', 'Encryption followed by decryption gives back the file, and failures are reported',
 'Every file of a library, of any size and content, that was encrypted (directories from the top down, package.mo first) decrypts to exactly its original bytes, in any order of requests, with a fresh or a used context, whether or not its directory or any parent has a package.mo. '
 'Encryption reports success only if the whole input was read to its end without error and IV, ciphertext and MAC were all written; encrypt_file and decrypt_file end with status 0 only then, and leave no output behind otherwise.',
 ['inputs', 'fault_sequences', 'histories'], 'every directory tree, file size and content, order of decryption, and read or write error at any point',
 'The tests round trip one small tree without faults; sizes around the block and buffer lengths, missing package files, other orders and I/O errors are not sampled.',
 ['src/decryptors/default/src/mlle_cr_encrypt.c', 'src/decryptors/default/src/mlle_cr_decrypt.c', 'src/encrypt_decrypt/encrypt_file.c', 'src/encrypt_decrypt/decrypt_file.c'], [('mlle_cr_encrypt: read, encrypt and write loop', 'src/decryptors/default/src/mlle_cr_encrypt.c'), ('mlle_cr_decrypt', 'src/decryptors/default/src/mlle_cr_decrypt.c'), ('mlle_mask_key and mlle_demask_key undo each other', 'src/decryptors/default/src')], observe=['written bytes', 'return values', 'exit status of encrypt_file and decrypt_file'])
prop('C10', 'An encrypted file opens only in the directory it was encrypted for',
 'The key of every file is the embedded key combined with the mask of its directory, which is the 32 fresh random bytes its package.mo got, or the mask of the nearest parent directory that has one; a package.mo itself is bound to its parent directory. So a file put under a directory with another mask, or next to another package.moc, fails to decrypt, while the mask of a directory never depends on the order in which files were requested.',
 ['inputs', 'histories'], 'every relative path and depth, every presence pattern of package files, every order of requests and cache content',
 'The tests use one tree and never move a file; a wrong cache entry, a skipped parent or a mask of zeros still round trips.',
 ['src/decryptors/default/src/mlle_cr_encrypt.c', 'src/decryptors/default/src/mlle_cr_decrypt.c', 'src/decryptors/default/src/mlle_cr_context.h'], [('mlle_mask_key', 'src/decryptors/default/src/mlle_cr_encrypt.c'), ('mlle_demask_key, mlle_store_keymask', 'src/decryptors/default/src/mlle_cr_decrypt.c')], [('keymask_map', 'mask of each directory seen', 'struct mlle_cr_context')], ['key given to the cipher and the MAC'])

prop('C11', 'A reply reaches the tool complete or not at all',
 'Whatever sequence of partial messages, sizes and connection failures occurs, reading a reply succeeds only if its command line was well formed and every announced payload byte arrived; then the caller gets the command, its number and exactly the announced payload bytes, in order and null terminated. In every other case the call fails, sets the error and delivers no payload, and nothing outside the buffers is read or written.',
 ['inputs', 'fault_sequences'], 'every reply, every way the connection cuts it into messages, every failure at any point',
 'The tests exchange small replies that arrive in one piece; a reply spread over many records, cut short or longer than announced is never sampled.',
 ['src/common/mlle_utils.c', 'src/common/mlle_ssl.c', 'src/common/mlle_parse_command.c'], [('mlle_read_command: first message, then read_more loop', 'src/common/mlle_utils.c'), ('extract_data', 'src/common/mlle_utils.c')], observe=['result, command and error of mlle_read_command'])
prop('C12', 'A tool call succeeds exactly when the executable said so',
 'Each call of the tool library (version, libpath, feature, returnfeature, license, returnlicense, file) sends exactly its own request once and waits for one reply; it reports success if and only if that reply grants it (VERSION within the accepted range, YES, or FILECONT with the contents). Every other reply and every failure is reported as failure with the error set: a refusal with code NO_LICENSE and the reason given by the executable, NOTSIMPLE with code NOT_SIMPLIFIED, an ERROR with its text. A reply that is not handed out is released.',
 ['inputs', 'fault_sequences'], 'every call, argument, reply (expected or not), version range, and failure of sending, receiving or allocation',
 'The tests only talk to a well behaved executable; unexpected replies, refusals with long reasons and failures are not sampled.',
 ['src/tool/mlle_licensing.c'], [('mlle_tool_version, mlle_tool_libpath, mlle_tool_feature, mlle_tool_returnfeature, mlle_tool_license, mlle_tool_returnlicense, mlle_tool_file', 'src/tool/mlle_licensing.c'), ('mlle_expect_command(s)', 'src/tool/mlle_licensing.c')], observe=['result and error of the tool call'])
prop('C13', 'Reading a delivered file yields its bytes once, in order, then the end',
 'However a tool chooses the sizes of its reads, the bytes mlle_tool_read_bytes hands out, taken together, are exactly the contents of the file in order, each call gives the smaller of what was asked and what is left and writes nothing else, after the last byte every call reports the end, the reported size stays the size of the file, and the contents are freed exactly once.',
 ['inputs', 'histories'], 'every file size and content and every sequence of read sizes',
 'The tests read small files with one buffer size.',
 ['src/tool/mlle_licensing.c'], [('mlle_tool_read_bytes, mlle_tool_get_file_size, mlle_file_contents_free', 'src/tool/mlle_licensing.c')], [('mlle_file_contents', 'bytes left to read', 'struct mlle_file_contents')], ['bytes and counts returned'])
prop('C16', 'An embedded key is reproduced exactly and can be cleared completely',
 'For every key, the header that obfuscate or randomize_key generates declares enough room, reproduces exactly the key when initialised (all bytes of a random encryption key; a PEM text without its carriage returns), null terminated, gives its exact length, and its clear macro overwrites every byte. The generators end with status 0 only if the key was read and the header written completely; without random bytes no header is made.',
 ['inputs', 'fault_sequences'], 'every key content and length, every read, write, open or random generator failure',
 'The tests build with one fixed set of keys; bytes that look like line ends, one digit escapes or a full disk do not occur.',
 ['src/embedfile/obfuscate_utils.c', 'src/embedfile/obfuscate.c', 'src/embedfile/randomize_key.c', 'src/obfuscators/dummy/src/obfuscator.c'], [('create_header_file', 'src/embedfile/obfuscate_utils.c'), ('write_initialize_key_macro_body', 'src/obfuscators/dummy/src/obfuscator.c')], observe=['text of the generated header, exit status'])
prop('C17', 'Starting a library executable gives a working connection or a clean failure',
 'Starting succeeds only if a child process runs exactly the named executable with its standard input and output joined to the tool by pipes of which each side keeps only its own ends, and the TLS handshake, in which the tool presents its certificate, was completed. Every other outcome (no executable, pipe, process, key, memory or handshake) is reported as failure with the error set once, and leaves no connection, descriptor or memory behind and no second copy of the tool running. '
 'The executable serves commands exactly when its handshake succeeded, ends when the connection does, and each side releases everything of a connection exactly once.',
 ['fault_sequences', 'inputs'], 'every failure of every system, TLS and allocation call while starting and ending, every path of the executable',
 'The tests start an executable that works; a failure at any later step than a missing file does not occur.',
 ['src/tool/mlle_licensing.c', 'src/tool/mlle_spawn_posix.c', 'src/tool/mlle_ssl_tool.c', 'src/lve/mlle_ssl_lve.c', 'src/lve/lve.c', 'src/lve/mlle_lve.c'], [('mlle_start_executable, mlle_connections_free', 'src/tool/mlle_licensing.c'), ('mlle_spawn', 'src/tool/mlle_spawn_posix.c'), ('ssl_setup_tool, tool_perform_handshake', 'src/tool/mlle_ssl_tool.c'), ('ssl_setup_lve, lve_perform_handshake', 'src/lve/mlle_ssl_lve.c'), ('main, mlle_lve_shutdown', 'src/lve/lve.c')], observe=['result and error of mlle_start_executable', 'open descriptors and processes', 'system and TLS calls'])
prop('C18', 'An error carries exactly what was reported',
 'An error object holds exactly the domain and code it was made with and its own copy of the text: a literal text unchanged, of any length and even if it contains %, a formatted text complete up to at least 2047 characters, always null terminated, and no text when none was given. Setting an error stores it in the slot the caller gave and has no effect when there is no slot; handing on an error moves it (or frees it when there is no slot); freeing one releases all of it exactly once and empties the slot. Nothing outside the texts is read or written, and running out of memory never crashes it.',
 ['inputs', 'fault_sequences'], 'every domain, code, text length and content, with and without a slot, every allocation failure',
 'The tests look at a few short texts; long texts, percent signs, missing slots and exhausted memory do not occur.',
 ['src/common/mlle_error.c'], [('mlle_error_new, mlle_error_new_literal, mlle_error_set, mlle_error_propagate, mlle_error_free', 'src/common/mlle_error.c')], observe=['fields of struct mlle_error', 'memory freed'])
prop('C19', 'The packaging tool takes exactly the documented options, and the manifest says exactly what was given',
 'packagetool accepts a command line if and only if every option on it is a documented one, given once and with a non-empty value, the mandatory ones are there, the library path is a directory, the named files exist, and with encryption there is at least one library executable to put in; asking for help does nothing else. '
 'The manifest it writes is well-formed XML that contains exactly the values given (with <, >, " and & escaped and every other byte unchanged), each optional part exactly when its option was given, the executables exactly as put in, with their platform, and the tools and dependencies files completely except for their first line; the id is the last part of the library path and the icon path is relative to the library. The tool reports success only if the whole manifest was written.',
 ['inputs', 'fault_sequences'], 'every command line, every option value and content of the files named, every failure of opening, reading and writing',
 'The tests do not run packagetool; texts with markup, missing final line ends, icons in subfolders, repeated or empty options and a full disk are not sampled.',
 ['src/packagetool/arguments.c', 'src/packagetool/manifest.c', 'src/packagetool/utils.c', 'src/packagetool/packagetool.c'], [('validateArguments, getValueOf, containsKey, validateMandatoryArguments, validate*', 'src/packagetool/arguments.c'), ('createManifestFile, xml_*, print_escaped_text, copyFileInformation, extractPlatform', 'src/packagetool/manifest.c'), ('prepareIconFile, copyLVE', 'src/packagetool/utils.c')], observe=['exit status', 'text of .library/manifest.xml'])
prop('C20', 'A container is complete, and an encrypted one has no readable Modelica file',
 'When packagetool ends with status 0, the container holds every regular file of the library, at any depth, except what is in folders named .library, exactly once, under its path in the library and with exactly its bytes, together with the new .library folder; with encryption every Modelica file (extension mo in any letter case) is in it only as a moc file that decrypts to the original. '
 'If anything could not be read, copied, encrypted or added, the tool ends with another status. The library itself is not changed, and nothing is removed but the temporary copy and an older container of the same name.',
 ['inputs', 'fault_sequences'], 'every library tree (names, depth, number and size of files), with and without encryption, every failure of every file system, encryption and archive call',
 'The tests do not run packagetool; read errors, full disks, odd names and files the encryption passes over are not sampled.',
 ['src/packagetool/utils.c', 'src/packagetool/packagetool.c'], [('copyDirectoryLinux, copyFile', 'src/packagetool/utils.c'), ('encryptDirectoryLinux, encryptFile, isModelicaFile', 'src/packagetool/utils.c'), ('createZipArchive, zipDirectoryLinux, addFileToZipArchive', 'src/packagetool/utils.c'), ('doWork: order of the steps and exit status', 'src/packagetool/packagetool.c')], observe=['exit status', 'entries of the container', 'file system calls'])
HOOK_COMMITS = ['724bc78', '5e37c1e', 'f032073', 'c8aa760']
