#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list (run by hand after editing it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PI = 'path-enumerating abstract interpretation of the LLVM IR (symbolic heap, intervals, provenance terms)'
TRUST = (' Trusted: clang -O0 IR of the current tree, the models of libc/OpenSSL/minIni/jsmn/httplib calls in sa/models.py, loops unrolled '
         'a few times then widened. No solver, nothing is executed.')
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note, level='other', thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, thorough=thorough))


CR, RQ, VO, SE, AR, KV = ('src/voucher/' + x for x in ('crypto_ossl.c', 'request.c', 'voucher.c', 'serialize.c', 'array.c', 'keyvalue.c'))
RA, MA, PU, PR = 'src/brski/registrar/registrar_api.cpp', 'src/brski/masa/masa_api.cpp', 'src/brski/pledge/pledge_utils.c', 'src/brski/pledge/pledge_request.cpp'
CF, MAIN, HW = 'src/brski/config.c', 'src/brski/brski.cpp', 'src/brski/http/httplib_wrapper.cpp'

p('V01', 'A voucher artefact is used only after its CMS signature was verified',
  'Whenever a voucher is read from received bytes, those bytes are the content of a CMS structure whose signature was verified with every certificate and the store the caller supplied. '
  'No verification step is switched off except signer-chain validation when the caller supplies no store. '
  'The bytes and signer certificates handed out are those of the verified structure.',
  ['inputs', 'configurations', 'fault_sequences'], 'every CMS input, certificate list, store (or none) and every failing allocation or OpenSSL call',
  'Tests verify a handful of well-formed structures; an unchecked return value or a dropped certificate only shows on forged or rare inputs.',
  [CR, VO], [('CMS verification', CR + ': crypto_verify_cms'), ('voucher from CMS', VO + ': verify_cms_voucher')],
  PI + ' with success-path gate rules', 'All paths of CMS verification and of every reader of vouchers.' + TRUST)
p('V02', 'The pledge accepts only a voucher for itself, fresh, pinning this registrar',
  'A pledge reports a voucher as accepted only if it was verified with the configured certificates and store, names its own serial number, carries the nonce it sent (when it sent one) and pins a certificate that authenticates the TLS peer which delivered it. '
  'The certificate it then trusts is exactly the pinned one. A voucher missing any of these fields is refused.',
  ['inputs', 'configurations', 'fault_sequences'], 'every voucher, serial number, nonce (or none), registrar certificate and store',
  'Tests use one valid voucher; each gate must hold for all vouchers and all failure orders.',
  [RQ, PU, PR], [('voucher acceptance', RQ + ': verify_masa_pledge_voucher'), ('pledge driver', PR + ': post_voucher_pledge_request')],
  PI + ' with success-path gate rules', 'Gates, and the origin of every input of the gates in the pledge driver.' + TRUST)
p('V03', 'The registrar forwards only requests of the pledge it authenticated',
  'The registrar issues a voucher request to the MASA only for a pledge request whose signature verified, whose serial number equals the one in the pledge\'s authenticated IDevID certificate, whose proximity certificate is the registrar\'s own TLS certificate and whose assertion is proximity. '
  'The request it signs carries the verified serial number and nonce, the IDevID issuer, the current time and the pledge\'s request byte for byte, and nothing else. '
  'The pledge receives exactly the answer of the configured MASA, and only when the MASA accepted.',
  ['inputs', 'configurations', 'fault_sequences'], 'every request body, peer certificate, configuration and MASA answer',
  'Tests run one matching request; forged, partial or mismatching requests and MASA failures are not sampled.',
  [RQ, RA], [('registrar voucher request', RQ + ': sign_voucher_request'), ('registrar endpoint', RA + ': registrar_requestvoucher')],
  PI + ' with success-path gate rules', 'Gates, emitted attributes, origin of every argument, MASA request fields.' + TRUST)
p('V04', 'The MASA issues a voucher only for an authentic, consistent, authorised request',
  'The MASA issues a voucher only after verifying the registrar\'s request and the pledge\'s signed request inside it, with both naming the same serial number, and after the authorisation callback accepted that serial number and the registrar\'s certificates. '
  'The voucher carries that serial number, the request\'s nonce, assertion proximity, the configured expiry, revocation checks off and the certificate chosen by the callback, and nothing else. '
  'It is signed with the MASA\'s certificate and key.',
  ['inputs', 'configurations', 'fault_sequences'], 'every request body, configuration, callback outcome and failing call',
  'Tests issue one voucher; every gate has to hold for all requests and failures.',
  [RQ, MA], [('MASA issuance', RQ + ': sign_masa_pledge_voucher'), ('MASA endpoint', MA + ': masa_requestvoucher')],
  PI + ' with success-path gate rules', 'Gates, emitted attributes, origin of every argument, callback.' + TRUST)
p('V05', 'The pledge request binds the pledge to this registrar connection',
  'A pledge voucher request always carries the pledge\'s serial number, the given creation time, the nonce when one is configured, assertion proximity and the TLS certificate of the registrar it is talking to, and nothing else. '
  'It is signed with the configured certificate and key and sent to the configured registrar over the IDevID connection.',
  ['inputs', 'configurations', 'fault_sequences'], 'every configuration, registrar certificate and failing call',
  'Tests build one request; a field filled from the wrong source shows only for other configurations.',
  [RQ, PU, PR], [('pledge request', RQ + ': sign_pledge_voucher_request'), ('pledge driver', PR + ': post_voucher_pledge_request')],
  PI + ' with emitted-content rules', 'Attributes of the serialised voucher and origin of every driver argument.' + TRUST)
p('V06', 'Signatures and certificates are made from, and checked against, the given keys',
  'A CMS structure that is handed out holds exactly the given data, signed with the given key and certificate together with every given additional certificate. '
  'A certificate that is handed out carries the given serial number, validity, names and constraints (or the CA\'s subject as issuer), is signed with the given key and its signature was checked. '
  'A certificate is accepted only if every signature of its chain verifies and, without a store, the chain ends in a given certificate.',
  ['inputs', 'fault_sequences'], 'every key, certificate, metadata list, chain length and failing OpenSSL call',
  'Tests check that outputs exist or parse; dropped entries, wrong keys and unverified chains pass them.',
  [CR], [('CMS signing', CR + ': crypto_sign_cms'), ('certificate issuing', CR + ': crypto_generate_eccert, crypto_sign_cert'), ('chain verification', CR + ': crypto_verify_cert')],
  PI + ' with success-path rules over OpenSSL calls', 'All successful paths of the signing, issuing and chain functions.' + TRUST)
p('V07', 'A failed step is never reported as success',
  'When any allocation, OpenSSL, file, JSON, network or internal call that an operation depends on fails, the operation reports failure. '
  'No operation returns success with its output missing.',
  ['fault_sequences', 'inputs'], 'every single and combined failure of a callee on every path',
  'Tests inject no failures: the error branches are never taken.',
  [CR, RQ, VO, SE, AR, KV, RA, MA, PU, PR, CF, HW], [('status-returning calls', CR), ('protocol steps', RQ), ('endpoints', RA)],
  PI + ': failure-to-success paths', 'Every path on which a recorded callee failure ends in a success value is reported.' + TRUST)
p('V08', 'No released memory is used or released again',
  'No operation reads, writes, releases again or hands out memory it has already released, or memory it does not own, on any path including every error path.',
  ['fault_sequences', 'inputs', 'histories'], 'every path through every public operation, every failing callee',
  'Tests run success paths without sanitizers.',
  [CR, RQ, VO, SE, AR, KV, RA, MA, PU, PR, CF, MAIN], [('ownership of lists', AR + ': push_array_list, free_array_list'), ('OpenSSL objects', CR)],
  PI + ': typestate of every heap object', 'use-after-free, double free, mismatched free, dangling outputs.' + TRUST)
p('V09', 'Every acquired resource is released or handed to the caller',
  'Whatever an operation allocates, opens or takes from OpenSSL is released, stored or returned on every path, so serving requests does not grow memory or leak handles.',
  ['fault_sequences', 'histories', 'inputs'], 'every path through every public operation, every failing callee',
  'Tests do not measure leaks and do not take error paths.',
  [CR, RQ, VO, SE, AR, KV, RA, MA, PU, PR, CF, MAIN], [('ownership', CR), ('request handlers', RA)],
  PI + ': ownership at function exit', 'Objects owned by nobody at a return are reported.' + TRUST)
p('V10', 'Absent values never crash a component',
  'No operation dereferences or passes on a null pointer where one is not allowed: not for missing request fields, absent optional configuration, failed allocations or null arguments the interface accepts.',
  ['inputs', 'configurations', 'fault_sequences'], 'every public operation with every nullable argument, configuration value and callee result absent',
  'Tests pass complete inputs and configurations.',
  [CR, RQ, VO, SE, AR, KV, RA, MA, PU, PR, CF, HW], [('argument checks', VO), ('configuration use', RA)],
  PI + ': nullness', 'Every dereference and non-null argument on every path; nullable parameters derived from the checks in the code (sa/nullable.json).' + TRUST)
p('V11', 'No buffer is read or written outside its bounds',
  'Every copy, format, read and indexed access stays inside the object it addresses, and no constant data is written. A length passed or handed out next to a pointer is the length of the bytes at that pointer.',
  ['inputs'], 'every input length and every path',
  'Tests use short well-formed inputs.',
  [SE, CR, RQ, VO, AR, 'src/utils/os.c', CF, MAIN], [('copies', 'src/utils/os.c'), ('decoding', SE)],
  PI + ': interval and linear length facts', 'Accesses whose bounds the linear facts refute or cannot relate for known-size objects are reported, and so is a (pointer, length) pair whose length belongs to another buffer or exceeds its own.' + TRUST)
p('V12', 'Each voucher attribute is written and read only through its own accessor',
  'Setting an attribute changes exactly that attribute to exactly the given value or fails and changes nothing; reading, clearing and asking for presence concern exactly the named attribute. An accessor refuses an attribute of another type, an unknown attribute, a value outside the enumeration and text too long to be stored whole.',
  ['inputs', 'histories'], 'every attribute name, every value, every prior content of the voucher, every failing allocation',
  'Tests set one value per attribute in a fresh voucher.',
  [VO, VO.replace('voucher.c', 'voucher_defs.h')], [('setters', VO + ': set_attr_voucher'), ('presence', VO + ': is_attr_voucher_nonempty'), ('clearing', VO + ': clear_attr_voucher')],
  PI + ' of every accessor with every attribute constant and an arbitrary voucher; the voucher of each path is compared member by member with the one it started from', '11 attributes and one unknown, all paths of every accessor.' + TRUST)
p('V13', 'The JSON of a voucher names each attribute and reads back the same',
  'Serialising a voucher yields one JSON object under the voucher root name with exactly the attributes that are present, each once, under its standard name and in the textual form of its type; reading such a text stores each value in the attribute of that name. A name, root, boolean or assertion that merely starts like a known one is refused.',
  ['inputs'], 'every attribute and every name and value text',
  'Tests round-trip a few vouchers.',
  [VO, SE], [('encoding', VO + ': serialize_voucher'), ('decoding', VO + ': deserialize_voucher'), ('textual forms', SE + ': serialize_escapestr')],
  PI + ' with terms for the text produced: the returned text is compared with the expected JSON as a term over the voucher members; the decoder runs with every known and many malformed names', 'One attribute at a time; the byte-level base64 and date conversions are library terms (X01).' + TRUST)
p('V14', 'List operations keep every element exactly once',
  'Adding to a list either appends exactly the given value or leaves the list as it was, and freeing a list releases each element once, in any sequence of operations and failures.',
  ['histories', 'fault_sequences'], 'every sequence of the harness operations with every allocation failing',
  'Tests add a few elements without failures.',
  [AR, KV, CR], [('binary list', AR + ': push_array_list'), ('key/value list', KV + ': push_keyvalue_list'), ('pointer list', CR + ': push_ptr_list')],
  PI + ' of small operation sequences compiled against the list code', 'Sequences up to the harness length.' + TRUST)
p('V15', 'What a configuration file says is what the components see',
  'After loading a configuration, every member holds the value of its own section and key (or its documented default when the key is missing), every list holds all values of its key in file order, and a failed load leaves nothing behind. '
  'Releasing a configuration releases everything it holds once, and a certificate list loaded from it holds every file named.',
  ['inputs', 'configurations', 'fault_sequences'], 'every assignment of values to keys up to the length the parser delivers, repeated keys, and every failing allocation',
  'Tests load one file and look at a few members.',
  [CF, AR], [('loading', CF + ': load_brski_config'), ('value lists', CF + ': load_config_value_list'), ('releasing', CF + ': free_config_content')],
  PI + ' of a driver that gives every key its own value and compares each member, with the parser calls interpreted over the table of entries', 'Three tables (each key once, lists repeated, blank); parsing of the file itself is minIni\'s and is not examined.' + TRUST)

RS, MS, HS, HC = 'src/brski/registrar/registrar_server.cpp', 'src/brski/masa/masa_server.cpp', 'src/brski/http/https_server.cpp', 'src/brski/http/https_client.cpp'
p('V16', 'Every HTTP reply tells truthfully what happened to the request',
  'Each request is answered with one status that says success or error. A reply of success carries what was asked for (the voucher of the MASA, the signed certificate, the status text) under its content type, and a reply of an error carries none of it. '
  'Errors and exceptions are answered with a non-empty plain text, a failing MASA with 502, an exception with a server error, and services that are not provided never answer with success.',
  ['inputs', 'configurations', 'fault_sequences'], 'every request body, peer certificate, configuration, MASA answer and failing call inside a handler',
  'The HTTP handlers have no tests; their error branches are reached only by failures a test does not produce.',
  [RA, MA, HW], [('registrar handlers', RA), ('MASA handlers', MA), ('error replies', HW + ': set_error_handler, set_exception_handler')],
  PI + ' of every handler and of the closures for errors and exceptions', 'All 16 handlers, all paths. What httplib does with the reply is not examined.' + TRUST)
p('V17', 'Each documented path and method reaches its own handler with its own request',
  'The registrar and the MASA answer every documented BRSKI and EST path under its documented method with the handler made for it. '
  'A handler is called once per request and gets the body, the peer certificate of that connection and the context of its server; its status, response and content type are what the client receives.',
  ['inputs', 'configurations'], 'every request to every registered path and every method a route can have',
  'The servers have no tests; a swapped route or a dropped certificate compiles and stays silent.',
  [RS, MS, HW], [('routes', RS + ': setup_registrar_routes'), ('routes of the MASA', MS + ': setup_masa_routes'), ('registration', HW + ': httplib_register_routes')],
  PI + ' that follows the route table into the vector, the registration and the closure', 'The vector holds one arbitrary element while the registration loop is examined (its iterations share no state); httplib\'s dispatch is trusted.' + TRUST)
p('V18', 'TLS endpoints use the configured identity and verify the peer they should',
  'The servers listen on the configured address and port with the configured certificate and key, and the MASA asks clients for a certificate of the configured CA. A client presents the given certificate and key and verifies the server exactly as its caller asked. '
  'The pledge enrols only over a connection verified with the certificate the accepted voucher pins, sends the certificate it has just made and hands out the reply with the key of that certificate.',
  ['configurations', 'inputs', 'fault_sequences'], 'every configuration, every path of the TLS clients, servers and of enrolment',
  'No test opens a TLS connection; verification that is switched off is invisible while all parties are honest.',
  [HW, HS, HC, RS, MS, PR], [('server', HW + ': httplib_start'), ('clients', HW + ': httplib_post_request, httplib_post_request_ca'), ('enrolment', PR + ': post_sign_cert')],
  PI + ' with the origin of every argument of the TLS server and client objects', 'Host names are not verified by design (certificates are pinned); the TLS implementation is trusted.' + TRUST)
p('V19', 'Request handlers only read what concurrent requests share',
  'The context given to the routes and everything reachable from it (configuration, loaded lists, strings) is the same for all connections, which are handled by several threads at once. '
  'While a request is handled nothing reachable from that context is stored to, copied over or released, and nothing else than the context is kept from one request to the next by a handler.',
  ['schedules', 'inputs', 'fault_sequences'], 'every interleaving of requests, every request body and every failing call',
  'No test sends two requests at once; a write to shared memory shows only under a particular interleaving.',
  [RA, MA, PU, RQ], [('registrar handlers', RA + ': registrar_requestvoucher, save_to_log'), ('MASA handlers', MA + ': masa_requestvoucher')],
  PI + ' with an ownership effect: stores to shared memory', 'Every handler and every function given shared memory, with the shared objects marked; the HTTP library hands each connection its own objects.' + TRUST)
p('V20', 'Concurrent requests share no unguarded static storage',
  'No function a request handler can reach writes a variable with static storage that is not thread-local or guarded by a lock, nor calls a library function that keeps its result in static storage. '
  'The log is the exception: on every path it takes the lock once around such calls and its output and gives it back. '
  'That lock is a working mutex installed before a server is started.',
  ['schedules', 'configurations'], 'every interleaving of requests and every path of the log',
  'A race on a static buffer needs two requests at the same instant; tests are single-threaded.',
  [RA, MA, CR, 'src/utils/log.c', 'src/utils/os.c', MAIN], [('log', 'src/utils/log.c: log_msg'), ('lock', MAIN + ': main')],
  'call-graph effect analysis over the LLVM IR (static storage, unsafe library calls) and lock typestate on every path of the log',
  'Covers functions reachable by direct references from the handlers; OpenSSL, libc and httplib are trusted to be thread-safe as documented.' + TRUST)
p('V21', 'Each command does what it was asked, with the configuration and files named',
  'A command line runs exactly the command it names, on the configuration, input and output files it names, with -p and -a overriding the port and address of that command only. '
  'The process exits with 0 only if the command was run and succeeded, and with a failure status otherwise, for unknown commands and for missing arguments. '
  'Results go to the file named with -o, complete and under that name, or to standard output.',
  ['configurations', 'inputs', 'fault_sequences'], 'every command, option set and outcome of the functions called',
  'Nothing tests the command line; a swapped argument or an ignored status compiles.',
  [MAIN, 'src/brski/registrar/registrar_server.cpp', 'src/brski/masa/masa_server.cpp'], [('main', MAIN + ': main'), ('options', MAIN + ': process_options'), ('dispatch', MAIN + ': get_command_id')],
  PI + ' of main, entered once per command line with a scripted getopt', 'Option sets are enumerated (each option alone and the combinations the commands use); getopt and minIni are modelled.' + TRUST)

p('V22', 'Private keys reach nothing but signatures, key files and their owner',
  'The bytes of a private key, loaded, generated or configured, and anything derived from them reversibly are given only to the signing and key functions, to the key file or output the user named and back to the caller that owns them. '
  'They never reach a log, a request, a reply, a header or another file, and no request handler stores a key.',
  ['inputs', 'configurations', 'fault_sequences'], 'every path of every function that holds a key, error paths included',
  'A key in a log line or reply breaks no test; it shows only to an observer who looks for it.',
  [CR, RQ, RA, MA, PR, MAIN], [('keys', CR + ': crypto_key2context, crypto_generate_eckey'), ('enrolment', PR + ': post_sign_cert'), ('handlers', RA + ': registrar_est_simpleenroll')],
  PI + ' with taint of key material through the content terms, plus call-graph reachability of key-storing functions', 'Direct flows through copies, encodings and text; timing and memory that is not cleared are not covered.' + TRUST)
p('V23', 'Keys, serial numbers and enrolment identities are fresh and unpredictable',
  'Random bytes are reported only if the whole buffer was filled by the cryptographic generator successfully. '
  'Every generated key comes from the key generator on a curve of at least 256 bits or with the RSA size asked for. '
  'The certificate a pledge enrols with has a new key, a random 64-bit serial number and a subject serial number that shows at least 64 random bits, not cut short; it is valid from then on and is no certificate authority. No other generator is used.',
  ['inputs', 'fault_sequences'], 'every path on which a key, random number or enrolment certificate is produced',
  'Predictable or repeated values look like any others to a test that runs once.',
  [CR, PU, PR, 'src/utils/os.c'], [('random bytes', CR + ': crypto_getrand'), ('keys', CR + ': crypto_generate_eckey, crypto_generate_rsakey'), ('enrolment identity', PU + ': generate_sign_cert')],
  PI + ' with provenance of random contents; call-graph query for weak generators', 'The generator of OpenSSL is trusted to be seeded; statistical quality is not judged.' + TRUST)
p('V24', 'Files hold what was asked to be stored, and every enrolment leaves an audit line',
  'A function that stores a certificate, key or CMS structure decodes it first, replaces exactly the file named, and reports success only if everything was written and flushed; a loader hands out what it read from the file named. '
  'Every certificate the registrar issues adds one line to the audit log with time, serial number and subject serial number of the pledge and of the issued certificate in their places, whatever characters the names hold. '
  'Logs are only ever appended to and no other file is created, replaced or removed.',
  ['inputs', 'fault_sequences', 'configurations', 'crash_points'], 'every path of storing, loading and issuing, including each failing write, flush and close',
  'Tests write to disks that never fill up and do not read the audit log.',
  [CR, RA, 'src/brski/registrar/registrar_server.cpp', 'src/utils/log.c'], [('files', CR + ': cmsbuf_to_file, certbuf_to_file, keybuf_to_file'), ('audit log', RA + ': save_to_log')],
  PI + ' with the state of each stream and the provenance of what is written', 'A failing audit log is not an error of the enrolment by design; what the kernel does after a flush is out of scope.' + TRUST)
p('V25', 'What is read out of a certificate is what it says, under its own name',
  'The description of a certificate lists the first value of each known attribute of its issuer and of its subject, each under its own name and in its own list, nothing else, together with its serial number. '
  'The subject serial number handed out is the value of the first serialNumber of the subject and of nothing else; the issuer text, copies and encodings are those of the certificate given. '
  'A list of certificate files loads every file in it or fails.',
  ['inputs', 'configurations', 'fault_sequences'], 'every combination of present attributes one at a time, every list and failing call',
  'Tests use certificates with one or two attributes; mix-ups of issuer and subject vanish with self-signed ones.',
  [CR, CF, KV], [('description', CR + ': crypto_getcert_meta, get_x509_keyvalue'), ('serial number', CR + ': crypto_getcert_serial'), ('files', CF + ': load_cert_files')],
  PI + ' with attributes of a name as tagged contents; drivers over lists built by the repository', 'Attributes are all present, all absent, or one alone present or missing; serial numbers above 64 bits are reported as 0 by design.' + TRUST)
p('V26', 'Text is formatted with constant formats that match their values',
  'Every format handed to printf, log or scan functions is constant text of the program, never data, and consumes exactly values of the type and number given at every call. '
  'No format stores through its arguments.',
  ['inputs', 'fault_sequences'], 'every call of a formatting function in all translation units and every format that can reach it',
  'Error messages are rarely formatted in tests; a mismatch only corrupts what happens to be in the wrong register.',
  [CR, CF, RA, 'src/utils/log.c', 'src/utils/os.c'], [('log', 'src/utils/log.h: log_msg'), ('hex', 'src/utils/os.c: printf_hex'), ('paths', CF)],
  'typed query over every call site of the LLVM IR, formats traced to constants through callers, phis and selects', 'Types are those of the IR: width and class of each value, not signedness.' + TRUST)

p('V27', 'Each log message is written once, whole, at its level, where it was directed',
  'A message is written exactly once if its level is at least the minimum set and the log is not quiet, and otherwise nothing is. It carries level, place, local time and the text; an error message also the error of the failed call. '
  'All of it goes to the open log file, or else to standard error, while the lock is held. The functions that end the program do so with failure. The log is on exactly when -d was given.',
  ['inputs', 'configurations', 'schedules'], 'every combination of message function, level, minimum level, quiet, meta data, colour, log file and lock, every error number, every thread',
  'Tests look at no log output; a wrong filter, stream or error number is only seen when the log is needed.',
  ['src/utils/log.c', MAIN], [('log', 'src/utils/log.c: log_msg'), ('set-up', MAIN + ': main')],
  PI + ' of the log entered through its public functions, and of main', 'Every set-up of the finite product, all paths.' + TRUST)

p('V28', 'Nothing is used before it was set',
  'No comparison, decision, followed pointer, argument, returned value or released object depends on a variable, member or byte of an allocation that was never written on that path; an object handed out has all its members set, and every variadic call passes the arguments that are read.',
  ['inputs', 'fault_sequences'], 'every path, including every failure of every callee',
  'What unset memory holds is up to earlier activity; in tests it is mostly zero or happens to be right.',
  [CR, RQ, VO, AR, SE, KV, CF, PR, MAIN, RA, MA], [('error paths', RQ), ('allocations', AR), ('tables', CR)],
  PI + ' with a mark on every value read from memory nothing was written to', 'Marked values that reach a use, and marked parts of objects handed out, are reported.' + TRUST)

NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=None))
    NA.append(dict(property=id, reason=reason))


na('X01', 'Base64 decoding inverts encoding for every byte string',
   'Decoding the encoded form of any byte string yields that byte string, and text that is not canonical base64 is refused.',
   ['inputs'], 'every byte string', 'Tests use a few strings.', [SE], [('base64', SE + ': serialize_array2base64str')],
   'A value-level bijection over unbounded byte strings (table lookups, shifts, padding); deciding it needs execution or a solver, not a dataflow argument.')
na('X02', 'A pledge that retries eventually enrols once all parties are up',
   'If the registrar and MASA are reachable and configured consistently, a pledge request completes within bounded time.',
   ['schedules'], 'every schedule of the three parties', 'Tests run one schedule.', [PR, RA, MA], [('drivers', PR)],
   'Liveness over network schedules and timeouts inside cpp-httplib and the kernel: no static argument in reach bounds them.')
na('X04', 'Expired certificates and vouchers are refused at the right instant',
   'No certificate or voucher is accepted outside its validity period.',
   ['inputs', 'schedules'], 'every clock value', 'Tests use the current time.', [CR, RQ], [('chain verification', CR + ': crypto_verify_cert')],
   'Depends on run-time clock values and on validity handling inside OpenSSL; the code does not claim to check voucher expiry in the pledge (see DESIGN.md).')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for q in sorted(P, key=lambda q: q['id']):
            f.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'],
                                'quantifier': {'over': q['over'], 'text': q['text']}, 'why_tests_cant': q['why'],
                                'anchors': {'files': q['files'], 'mechanism': [{'name': n, 'where': w} for n, w in q['mech']]}}) + '\n')
    checks = []
    for q in sorted(P, key=lambda q: q['id']):
        if q['technique'] is None:
            continue
        c = {'property': q['id'], 'quick_cmd': 'python3 check.py %s quick' % q['id'], 'technique': q['technique'], 'level': q['level'], 'level_note': q['note']}
        if q['thorough']:
            c['thorough_cmd'] = 'python3 check.py %s thorough' % q['id']
        checks.append(c)
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': NA,
         'notes': 'Every check compiles /repo/src to LLVM IR (clang -O0, no code generation, nothing is run) and decides from that IR. '
                  'known_findings.txt lists recorded defects and the repairs made.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
