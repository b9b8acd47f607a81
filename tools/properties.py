#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one list."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique, observe=None, level='model_checking'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level_note=level_note, technique=technique, observe=observe, level=level))


GEN = ('TLC-generated behaviours replayed into the library through its public interface and the answers '
       'validated by TLC against the TLA+ specification; bounded by the constants in the .cfg files')

# ------------------------------------------------------------------ containers
prop('D01', 'Linked list behaves as a bounded sequence with an iterator',
     'After any sequence of list operations the list holds exactly the values inserted and not yet removed, in the order the insertions dictate, and its length, emptiness, first-to-last listing, indexed and last-value reads all agree with that. '
     'Insertions at an index or in sorted position (with or without replacing an equal value) and removals by index, by value or from the end affect exactly the one element they name, a full list refuses growth unchanged, and clearing or destroying hands each remaining value to the release callback exactly once. '
     'An iteration visits every element after its position exactly once, in order, also when elements are appended, inserted or removed meanwhile.',
     ['histories', 'inputs'], 'all sequences of list operations with all indices, values and capacities',
     'The test suite exercises no list operation beyond what other components happen to call (append, iterate); positions in the middle, capacity limits and iterator/mutation interleavings are never observed.',
     ['wizard/hashmap.c', 'wizard/hashmap.h'],
     [('head/tail/next pointers and element count updated together under the list lock', 'wizard/hashmap.c AppendValueToLinkedList .. ResetLinkedListIterator')],
     GEN, 'TLA+ sequence model (List.tla): TLC transition cover and random walks replayed into the code, traces validated by TLC')

prop('D02', 'Hash map behaves as a finite map under any history and any collisions',
     'After any sequence of puts, removals and lookups, a lookup returns the value of the latest put of an equal key that was not removed since, and nothing for any other key; the reported number of entries equals the number of distinct keys present. '
     'Replacing a key releases exactly the old key and old value, removing releases exactly the key and returns the value, destroying releases every remaining key and value exactly once, and this holds however keys collide and however often the table grows. '
     'An iteration yields each entry exactly once, also when entries are looked up or removed meanwhile.',
     ['histories', 'inputs'], 'all operation sequences, all hash/compare functions (including constant hashes), all initial capacities of at least one',
     'No test puts an entry in a hash map; growth, collision chains and replacement are unobserved.',
     ['wizard/hashmap.c', 'wizard/hashmap.h'],
     [('bucket search by hash and compare, replacement, growth rehash', 'wizard/hashmap.c PutEntryInHashmap, IncreaseHashmapCapacity, RemoveEntryFromHashmap')],
     GEN, 'TLA+ finite-map model (Hashmap.tla): TLC-generated behaviours replayed into the code, traces validated by TLC')

prop('D03', 'Splay tree behaves as an ordered map and iterates in key order',
     'After any sequence of additions, removals and lookups, the tree associates each present key with the value last added for it, reports the number of distinct keys present, and returns nothing for absent keys. '
     'Iteration after a reset yields every key (or value) exactly once in ascending key order, and a clone has the same contents and is unaffected by later changes to the original. '
     'Replaced and deleted keys and values are released exactly once, removed ones are returned to the caller, and resetting or destroying releases all that remain exactly once.',
     ['histories', 'inputs'], 'all operation sequences, key orders (including sorted insertion of thousands of keys) and iteration points',
     'Tests reach the tree only through a handful of key map and resource operations; order, rebalancing and release behaviour are never asserted.',
     ['wizard/splay-tree.c', 'wizard/splay-tree.h'],
     [('splay to root on access, balance when deep, node count', 'wizard/splay-tree.c')],
     GEN, 'TLA+ ordered-map model (Splay.tla): TLC-generated behaviours replayed into the code, traces validated by TLC')

prop('D04', 'Containers shared between threads lose and duplicate nothing',
     'When several threads add, look up and remove entries of one shared map, tree or list at the same time, every call behaves as if the calls had happened one at a time in some order that respects each thread and real time. '
     'In particular no entry is lost or duplicated, no released memory is touched, no value is handed out twice by removals, and the final contents and count are those of such an order.',
     ['schedules', 'histories'], 'all interleavings of the calls of the participating threads',
     'The suite is single threaded.',
     ['wizard/hashmap.c', 'wizard/splay-tree.c', 'wizard/semaphore.c'],
     [('per-container semaphore held around every access', 'wizard/hashmap.c, wizard/splay-tree.c LockSemaphoreInfo')],
     'the threads run the real code under a scheduler of the harness that can switch at every basic block and lock; TLC generates programs and schedules and decides for each recorded history whether some order of the calls explains it; schedules are sampled, not enumerated',
     'TLA+ linearizability model (Shared.tla over Linear.tla): TLC-generated programs and schedules run in the code, recorded histories decided by TLC')

# ------------------------------------------------------------------ bytes and text
prop('S01', 'Length-counted byte strings obey sequence semantics for all bytes',
     'Copying, cloning, concatenating, splitting, setting, resizing, truncating, comparing and substring extraction of length-counted strings yield exactly the bytes that the corresponding operation on finite byte sequences yields, for every content including zero bytes and empty strings. '
     'Comparison is a total order consistent with equality, and operating on one string never changes another.',
     ['inputs', 'histories'], 'all byte contents and lengths and all operation sequences over several strings',
     'Tests concatenate and compare a few short texts; zero bytes, empty operands, long operands and aliasing are not reached.',
     ['wizard/string.c', 'wizard/string_.h'],
     [('length and datum kept together', 'wizard/string.c StringInfo functions')],
     GEN, 'TLA+ byte-sequence model (Bytes.tla): TLC-generated behaviours replayed into the code, traces validated by TLC')

prop('S02', 'Text encodings invert each other and accept exactly their alphabet',
     'For every byte sequence, decoding its hexadecimal or Base64 text gives back exactly that sequence, and the text is the standard one (Base64 with padding, hexadecimal two lower-case digits a byte). '
     'Base64 text with foreign characters, missing or misplaced padding or stray low-order bits is refused; white space is ignored; no text makes decoding read or write out of bounds.',
     ['inputs'], 'all byte sequences and all texts offered for decoding',
     'A test decodes one fixed text; lengths modulo three, all byte values and malformed texts are not covered.',
     ['wizard/utility.c', 'wizard/string.c'],
     [('Base64 state machine and hex conversion', 'wizard/utility.c Base64Encode/Base64Decode, wizard/string.c StringInfoToHexString/HexStringToStringInfo')],
     GEN, 'TLA+ executable definition of the encodings (Codec.tla) evaluated by TLC on generated inputs and compared with the code')

prop('S03', 'Bounded string operations never overrun and truncate predictably',
     'Copying or concatenating into a buffer of stated size stores the longest prefix that fits, always terminated within the buffer, and a copy reports the number of characters stored, a concatenation the length it would have needed. '
     'Substitution, stripping, splitting into arguments and case-insensitive comparison give the textually expected result for every text, including empty ones and texts made of the searched pattern.',
     ['inputs'], 'all texts, patterns and buffer sizes',
     'Tests use fixed texts that always fit.',
     ['wizard/string.c', 'wizard/locale.c', 'wizard/utility.c'],
     [('bounded copy loops', 'wizard/string.c CopyWizardString, ConcatenateWizardString, SubstituteString, StripString, StringToArgv')],
     GEN, 'TLA+ executable text functions (Text.tla) evaluated by TLC on generated inputs and compared with the code')

prop('S04', 'Path decomposition is lossless and recomposes',
     'For every path, the directory part, file name, base name, root and extension reported are the ones the path text spells, and directory part plus file name, root plus extension denote the path again (a name that only starts with a dot has no extension). '
     'Appending an extension replaces exactly the extension of the last component and never alters directories.',
     ['inputs'], 'all path texts over separators, dots and names, including empty, hidden and dotted directories',
     'No test decomposes a path.',
     ['wizard/utility.c'],
     [('component scan from the end', 'wizard/utility.c GetPathComponent, AppendFileExtension, GetPathComponents')],
     GEN, 'TLA+ executable path grammar (Path.tla) evaluated by TLC over all short paths and compared with the code')

prop('S05', 'Glob patterns match exactly the texts their grammar denotes',
     'A text matches a pattern exactly when it belongs to the language of the pattern: literals match themselves, the question mark any one character, the star any run, a bracket set any listed character or range, a brace group any of its alternatives, and a backslash makes the next character literal. '
     'Case-insensitive matching differs only in treating upper and lower case letters as equal.',
     ['inputs'], 'all patterns and texts',
     'Patterns are exercised only through a few fixed configuration look-ups.',
     ['wizard/token.c'],
     [('recursive matcher', 'wizard/token.c GlobExpression')],
     GEN, 'TLA+ language definition of patterns (Glob.tla) evaluated by TLC over all short patterns and texts and compared with the code')

prop('S06', 'Option names and values correspond one to one',
     'Every option name of every option table parses, in any letter case and with hyphens or underscores added, to a value whose printed name parses to the same value; unknown names are reported as unknown, and a comma separated list parses to the union of its members. '
     'A negated member of a list removes its value from the union.',
     ['inputs', 'configurations'], 'all option tables, all names, case and separator variants, all lists',
     'Tests parse a handful of names in canonical spelling.',
     ['wizard/option.c'],
     [('table search with separator-insensitive retry', 'wizard/option.c ParseWizardOption, WizardOptionToMnemonic')],
     GEN, 'TLA+ model of option parsing (Options.tla), tables observed from the code, TLC-generated spellings and lists compared with the code')

prop('S07', 'A moment written as a timestamp reads back as the same moment',
     'In every local time zone, with whole or broken hours east or west and with or without daylight saving, the timestamp of a moment states its local date, time and offset from universal time; reading a timestamp of any offset yields the moment it states, whatever the local zone, and text after it is reported as unread. '
     'A deciphered file has the modification time its original had when it was enciphered.',
     ['inputs', 'configurations'], 'all moments of the years 1 to 9999, all time zones, changes of the clocks',
     'The suite formats the current time in one time zone and never reads a timestamp.',
     ['wizard/string.c', 'wizard/utility.c', 'utilities/content.c', 'utilities/decipher.c'],
     [('calendar arithmetic and time zone offset', 'wizard/string.c FormatWizardTime, wizard/utility.c ParseWizardTime')],
     GEN, 'TLA+ calendar with time zones and daylight-saving rules (Times.tla, Packet.tla); TLC walks through zones and moments replayed into the code')

# ------------------------------------------------------------------ cryptography
prop('C01', 'Digests equal the published algorithms however the message is fed',
     'For every supported hash and every message, the digest equals that of the published algorithm for the concatenation of all pieces fed since the last initialization, whatever the number and sizes of the pieces (empty ones included) and whatever was hashed before with the same object. '
     'Distinct objects never influence one another.',
     ['inputs', 'histories'], 'all algorithms, all messages, all ways of cutting them, all reuse histories',
     'The suite checks published vectors fed in one piece; block boundaries, chunking, reuse and long messages are not reached.',
     ['wizard/hash.c', 'wizard/md5.c', 'wizard/sha1.c', 'wizard/sha2224.c', 'wizard/sha2256.c', 'wizard/sha2384.c', 'wizard/sha2512.c', 'wizard/sha3.c', 'wizard/crc64.c', 'wizard/signature.c'],
     [('partial block buffer, bit counters, final padding', 'wizard/sha2256.c UpdateSHA2256/FinalizeSHA2256 and siblings')],
     'digests computed by TLC from executable TLA+ definitions of the algorithms; messages up to a few blocks against the definition, longer ones by equality between all ways of feeding them',
     'TLA+ executable definitions of CRC-64, MD5, SHA-1, SHA-2 and Keccak plus a streaming state machine (Hash.tla); recorded feeds validated by TLC')

prop('C02', 'Message authentication codes equal RFC 2104 over the chosen hash',
     'For every hash, key and message, the authentication code equals the keyed-hash construction of RFC 2104 with the block length of that hash, for keys shorter than, equal to and longer than a block, however the message is fed and however often the object was used before. ',
     ['inputs', 'histories'], 'all hashes, keys, messages, feeding patterns and reuse histories',
     'The suite checks fixed published vectors fed in one piece with short keys.',
     ['wizard/hmac.c'],
     [('inner and outer padded keys', 'wizard/hmac.c InitializeHMAC/FinalizeHMAC')],
     'as C01, with the HMAC construction spelled out in TLA+',
     'TLA+ definition of HMAC over the executable hash definitions (Hash.tla, Stream.tla); recorded calls validated by TLC')

prop('C03', 'Block ciphers compute the published permutations',
     'For every key of a supported length and every block, enciphering one block gives the value of the published cipher (AES, Serpent, Twofish, ChaCha), deciphering is its inverse, and neither depends on earlier keys or blocks used with the same object.',
     ['inputs', 'histories'], 'all ciphers, keys, blocks and re-keying histories',
     'The suite checks a few published vectors per cipher.',
     ['wizard/aes.c', 'wizard/serpent.c', 'wizard/twofish.c', 'wizard/chacha.c'],
     [('key schedule and rounds', 'wizard/aes.c, wizard/serpent.c, wizard/twofish.c, wizard/chacha.c')],
     'ciphers computed by TLC from executable TLA+ definitions written from the published algorithms, self-checked against their published vectors',
     'TLA+ executable definitions of the ciphers (Aes.tla, Serpent.tla, Twofish.tla, Chacha.tla); recorded encipherments validated by TLC')

prop('C04', 'Deciphering inverts enciphering in every mode and length',
     'For every cipher, mode, key, nonce and message (the empty one included), deciphering what was enciphered under the same key and nonce gives back exactly the message, and the ciphertext is the one the mode of operation defines over the block cipher. '
     'Enciphering again under the same key and nonce gives the same ciphertext body, and no call changes the key or nonce it was given.',
     ['inputs', 'histories', 'configurations'], 'all ciphers, modes, keys, nonces, message lengths and sequences of calls on one cipher object',
     'The suite round-trips fixed-size messages in each mode once.',
     ['wizard/cipher.c'],
     [('mode loops, padding of the final block', 'wizard/cipher.c EncipherCBCMode .. DecipherOFBMode')],
     GEN, 'TLA+ definition of the modes of operation over an uninterpreted or executable block cipher (Modes.tla); recorded calls validated by TLC')

prop('C05', 'The key map returns exactly the keys put into it',
     'A key stored under an identifier is returned bit for bit by every later request for that identifier until it is replaced, whatever other keys are stored meanwhile, and generated session keys have distinct identifiers and distinct values.',
     ['histories', 'inputs'], 'all sequences of key storage, generation and retrieval',
     'The suite stores and fetches a single key.',
     ['wizard/key.c'],
     [('keys enciphered under a session key inside a tree', 'wizard/key.c SetKeyInfo, GetKeyInfo')],
     GEN, 'TLA+ map model (Keymap.tla): TLC-generated behaviours replayed into the code, traces validated by TLC')

prop('C06', 'Entropy coding restores every message at every level',
     'For every compression method, level and message, restoring the encoded message gives back the message exactly and restoring corrupted or truncated data never reports success with different content of the stated length or runs out of bounds. ',
     ['inputs', 'configurations'], 'all methods, levels, messages (empty, incompressible, highly repetitive) and corruptions',
     'The suite restores one text per method at one level.',
     ['wizard/entropy.c', 'wizard/bzip.c', 'wizard/zip.c', 'wizard/lzma.c'],
     [('delegate library calls with sized buffers', 'wizard/entropy.c IncreaseEntropy/RestoreEntropy')],
     GEN, 'TLA+ channel model (Entropy.tla): TLC-generated behaviours replayed into the code, traces validated by TLC')

# ------------------------------------------------------------------ utilities
prop('U01', 'Enciphered files decipher to the original under every configuration',
     'For every file content and every accepted combination of cipher, mode, digest, authentication code, compression, chunk size and key settings, deciphering the enciphered file with the same key material reports success and yields exactly the original bytes. '
     'This includes empty files and sizes at and around multiples of the chunk and block sizes; a gzip or bzip2 file counts as its decompressed content unless that is turned off.',
     ['inputs', 'configurations'], 'all contents and sizes, all option combinations',
     'The suite enciphers one file with default options and compares the result of deciphering with itself.',
     ['utilities/encipher.c', 'utilities/decipher.c', 'utilities/content.c'],
     [('chunked packet format with per-chunk code', 'utilities/encipher.c EncipherContent, utilities/decipher.c')],
     'TLC enumerates configurations and sizes from the model of the packet format; contents sampled', 'TLA+ model of the packet stream (Packet.tla): TLC-enumerated configurations and sizes run through the built utilities, outcomes validated by TLC')

prop('U02', 'Altered, truncated or foreign ciphertext never passes as the original',
     'With authentication codes, as by default, deciphering an enciphered file that was altered, truncated, extended or whose chunks were reordered, or with a different passphrase or key, never reports success together with content different from the original; content released before a failure is always a prefix of the original.',
     ['inputs', 'fault_sequences'], 'all alterations of the stored bytes and all wrong keys',
     'No test deciphers a damaged file.',
     ['utilities/decipher.c', 'utilities/content.c'],
     [('header digest and per-chunk authentication code verified before output', 'utilities/decipher.c')],
     'TLC enumerates the alteration kinds and positions per packet field; byte positions sampled within fields', 'TLA+ model of the packet stream under an adversary (Packet.tla): enumerated alterations run through the built utilities, outcomes validated by TLC')

prop('U03', 'Digest manifests verify exactly the unmodified files',
     'A digest manifest produced for a set of files reports no mismatch when every file is unchanged and reports each file whose content changed, for every supported hash and content; the digest printed is the published hash of the content.',
     ['inputs', 'configurations'], 'all contents, hashes and sets of changed files',
     'The suite only checks that the program exits with success.',
     ['utilities/digest.c'],
     [('hash of file content written to and compared with XML', 'utilities/digest.c')],
     'TLC enumerates file sets and changes; contents sampled', 'TLA+ model of manifests (Manifest.tla): TLC-enumerated scenarios run through the built utility, outcomes validated by TLC')

# ------------------------------------------------------------------ keys at rest
prop('K01', 'The key ring is a persistent map that never overwrites a key',
     'After any sequence of imports and exports by any number of processes, exporting an identifier returns exactly the key and nonce imported under it or fails if there is none; importing an identifier that is already present fails and changes nothing. '
     'Earlier keys are never altered or lost by later imports.',
     ['histories', 'inputs'], 'all sequences of imports and exports, all identifiers, keys and nonces',
     'The suite imports one key.',
     ['wizard/keyring.c', 'wizard/file.c'],
     [('append-only records scanned from the start', 'wizard/keyring.c ImportKeyringKey, ExportKeyringKey')],
     GEN, 'TLA+ persistent-map model (Keyring.tla): TLC-generated behaviours replayed into the code, traces validated by TLC')

prop('K02', 'A damaged key ring is reported, never misread',
     'Whatever bytes a key ring file contains (empty, truncated, altered, extended), exporting from it, importing into it or listing it returns a failure or exactly what the file holds complete for that identifier; it never aborts the program, never returns a partial key and never reads out of bounds. An import that succeeds keeps every complete record before the damage.',
     ['fault_sequences', 'inputs'], 'all truncation points and alterations of the stored file',
     'No test opens a damaged ring.',
     ['wizard/keyring.c', 'wizard/file.c'],
     [('signature, version and length checks while scanning', 'wizard/keyring.c')],
     'every truncation point and every single-byte alteration of rings built by TLC-generated histories', 'TLA+ record-file model with damage actions (KeyringFile.tla, which parses the recorded bytes): every cut and alteration replayed into the code, outcomes validated by TLC', level='model_checking')

prop('K03', 'A crash while importing a key leaves all earlier keys retrievable',
     'If the process dies at any point of an import, every key imported before is still exported intact afterwards, the interrupted key is either completely present or absent, and the next import and export work without manual repair.',
     ['crash_points', 'histories'], 'every system call of an import as the crash point, every history before it',
     'No test interrupts the program.',
     ['wizard/keyring.c', 'wizard/file.c'],
     [('append of one record at the end; lock file recovery', 'wizard/keyring.c ImportKeyringKey, wizard/file.c')],
     'every write/open/close/unlink/fsync boundary of the import is enumerated with an interposer and validated against the model', 'TLA+ map model with interrupted calls (Keyring.tla, Linear.tla): every crash point enumerated in the code by a controlled scheduler and the recovered history validated by TLC')

prop('K04', 'A passphrase unlocks exactly the key it protects',
     'Authenticating with the identifier and passphrase used at generation yields exactly the generated key; any other passphrase, an unknown identifier or a key ring without the identifier is refused and yields no key. ',
     ['inputs', 'histories'], 'all passphrases (including empty-adjacent, long and near-miss ones), key lengths and rings with several identities',
     'The suite authenticates one correct passphrase.',
     ['wizard/secret.c', 'wizard/authenticate.c'],
     [('key enciphered under passphrase-derived key; identifier is a keyed digest', 'wizard/secret.c AuthenticateSecretKey, GenerateSecretKey')],
     GEN, 'TLA+ model of identities and passphrases (Secret.tla): TLC-generated behaviours replayed into the code, traces validated by TLC')

prop('L01', 'At most one process or thread holds a file lock',
     'While one process or thread holds a file open for exclusive use through the library, no other process or thread obtains it, and a failed or timed-out attempt never takes away, removes or weakens the lock of the holder. ',
     ['schedules', 'crash_points'], 'all interleavings of acquire, retry, time-out and release by any number of processes',
     'The suite never contends for a file.',
     ['wizard/file.c'],
     [('exclusive creation of a lock file recording the owner', 'wizard/file.c AcquireFileLock, RelinquishFileLock')],
     'TLC explores all interleavings of the protocol for 3 contenders; schedules of the real code are driven step by step by an interposer', 'TLA+ lock protocol (LockProtocol.tla, Lock.tla) model-checked over all interleavings; recorded multi-process lock traces of the code validated by TLC')

prop('L02', 'A lock left behind by a dead process is recovered',
     'If a holder dies without releasing, the next acquisition succeeds without manual intervention, and recovery never grants the lock to two live contenders.',
     ['crash_points', 'schedules'], 'every crash point of a holder, every interleaving of recovering contenders',
     'No test kills a holder.',
     ['wizard/file.c'],
     [('owner liveness probe and removal of a stale lock file', 'wizard/file.c AcquireFileLock')],
     'as L01, with crash actions', 'TLA+ lock protocol with crashes (LockProtocol.tla, Lock.tla) model-checked; crashes enumerated in the code, traces validated by TLC')

# ------------------------------------------------------------------ randomness
prop('R01', 'Random keys are complete, fresh and independent of requests',
     'Every random key has exactly the requested length with every byte position varying, and no two requests of at least eight bytes, by any threads and any generators made in this or another process, ever return the same bytes; random values lie in [0,1). '
     'The bytes a generator returns do not depend on how the requests for them are cut, and no part is returned twice. With a secret key set, every generator returns the same sequence of pseudo-random values for that key, in any process.',
     ['histories', 'schedules', 'inputs'], 'all request sizes and orders, generators, threads and processes',
     'The suite checks statistics of one generator in one thread.',
     ['wizard/random.c'],
     [('keyed counter mode generator under a lock, seeded from the system and the reservoir', 'wizard/random.c SetRandomKey, AcquireRandomInfo')],
     'freshness is checked on recorded outputs (collisions of 64-bit values would otherwise occur with negligible probability)', 'TLA+ model of a keystream handed out in disjoint pieces (Random.tla); recorded outputs of many generators, threads and processes validated by TLC')

prop('R02', 'The entropy reservoir survives absence, damage and failure',
     'Creating and using a generator succeeds whether the stored reservoir is missing, empty, truncated, altered or extended, and where it cannot be written the request is at worst refused; the program never aborts. Each process returns new bytes and leaves a new reservoir, also when the system entropy call or device is not available.',
     ['fault_sequences', 'histories'], 'all reservoir file damages and process restarts',
     'The suite always starts with a fresh home directory.',
     ['wizard/random.c', 'wizard/file.c'],
     [('signature check of the reservoir and fresh system entropy', 'wizard/random.c GetEntropyFromReservoir, SaveEntropyToReservoir')],
     'every truncation and many alterations of the reservoir file', 'TLA+ model of the reservoir under damage (Reservoir.tla): every damage replayed into the code, outcomes validated by TLC')

# ------------------------------------------------------------------ input/output
prop('B01', 'Streams read back exactly what was written, plain or compressed',
     'A stream opened on a file behaves as a byte array with a position: bytes, blocks and strings of any size read back exactly as written, counts, positions and the end of the data are those of the array, and plain, gzip and bzip2 files, commands, named pipes and inherited descriptors give the same bytes. '
     'Bytes that could not be written, and compressed data that is damaged or cut short, are reported by the time the stream is closed, which ends the data for whoever reads it. '
     'Setting the extent of a stream alters neither its position nor the bytes already there.',
     ['histories', 'inputs', 'fault_sequences'], 'all sequences of reads, writes and extents, sizes and values, kinds of file, full devices and damaged files',
     'The suite reads and writes whole files only.',
     ['wizard/blob.c'],
     [('stream dispatch and position tracking', 'wizard/blob.c OpenBlob, ReadBlob, WriteBlob, SetBlobExtent, EOFBlob, CloseBlob')],
     GEN, 'TLA+ byte-array-with-position model (Blob.tla): TLC-generated behaviours replayed into the code, traces validated by TLC')

prop('B02', 'Whole-file reads are exact for every size and limit',
     'Reading a file into memory or a string yields exactly its bytes up to the stated limit, with the reported length, for every size including zero and for pipes and standard input, whose size is not known in advance and which arrive in pieces; a missing file yields nothing and an error. '
     'A file mapped into memory shows exactly its bytes, and bytes changed in a writable mapping reach the file.',
     ['inputs', 'configurations'], 'all contents, sizes and limits, regular files and pipes in pieces of any size',
     'The suite loads configuration files only.',
     ['wizard/blob.c', 'wizard/string.c'],
     [('mapped or read loop into a sized buffer', 'wizard/blob.c FileToBlob, MapBlob, wizard/string.c FileToString, FileToStringInfo, ConfigureFileToStringInfo')],
     GEN, 'TLA+ model of transfers (Transfer.tla): TLC-generated cases replayed into the code, traces validated by TLC')

# ------------------------------------------------------------------ XML
prop('X01', 'Parsing XML yields the tree the document spells',
     'For every well-formed document, the parsed tree has the elements, nesting, order, attributes and character content that the document spells, with predefined and character references expanded and comments and processing instructions left out of the content (RDF bags and sequences, which are passed over, aside). A document that is cut short, has unclosed or mismatched tags, or has entities that refer to themselves is reported as an error; none makes parsing fail to end or touch memory outside the text.',
     ['inputs'], 'all documents',
     'Only the fixed configuration files are ever parsed.',
     ['wizard/xml-tree.c'],
     [('single-pass parser', 'wizard/xml-tree.c NewXMLTree')],
     GEN, 'TLA+ document grammar (Xml.tla): TLC-generated documents parsed by the code, resulting trees validated by TLC')

prop('X02', 'Edited XML trees serialize to documents that parse back to themselves',
     'After any sequence of tree edits (adding, inserting, moving and pruning elements, setting content, setting and removing attributes), look-ups see exactly the edited tree, and the serialized document parses back to a tree with the same elements, attributes, content and processing instructions, for names and texts of valid UTF-8 without control characters.',
     ['histories', 'inputs'], 'all edit histories, tag and attribute names, contents needing escaping',
     'No test edits or serializes a tree.',
     ['wizard/xml-tree.c'],
     [('sibling/ordered/child links and escaping', 'wizard/xml-tree.c AddChildToXMLTree .. XMLTreeInfoToXML')],
     GEN, 'TLA+ tree-edit model (XmlTree.tla): TLC-generated histories replayed into the code, traces validated by TLC')

# ------------------------------------------------------------------ resources, errors, configuration
prop('M01', 'Resource accounting never exceeds limits and always balances',
     'For memory, mapped memory, disk and files, an acquisition is granted exactly when the amount in use plus the request stays below the limit, a refused acquisition changes nothing, and after every granted amount is released the amount in use is what it was before. '
     'Acquiring memory with automatic fall-back to mapped or disk memory returns usable memory of the requested size or fails cleanly, whatever the limits.',
     ['histories', 'configurations', 'schedules'], 'all sequences of limit changes, acquisitions and releases, by one or several threads',
     'The suite acquires one block of memory.',
     ['wizard/resource.c', 'wizard/memory.c'],
     [('counters checked and rolled back under a lock', 'wizard/resource.c AcquireWizardResource, wizard/memory.c AcquireVirtualMemory')],
     GEN, 'TLA+ counter model (Resource.tla): TLC-generated behaviours replayed into the code, traces validated by TLC')

prop('M02', 'Temporary files are unique, private, and removed',
     'Each temporary file handed out exists, is empty, is readable and writable only by its owner, and differs from every other one in use by any thread or process; giving it up removes exactly that file, or leaves it in place if asked to. All that remain are removed at orderly shutdown or on a termination signal, and a request refused by the limit on files leaves nothing behind.',
     ['histories', 'schedules', 'fault_sequences'], 'all sequences of requests and releases, threads, processes and refused requests',
     'No test requests a temporary file.',
     ['wizard/resource.c'],
     [('exclusive creation with random names, registry of live names', 'wizard/resource.c AcquireUniqueFileResource, RelinquishUniqueFileResource')],
     GEN, 'TLA+ model of the temporary-file registry (TempFile.tla): TLC-generated behaviours replayed into the code, traces validated by TLC')

prop('M03', 'Once everything made is destroyed, no more is in use than before',
     'Whenever every object that a history of calls made has been destroyed, the memory and the file descriptors in use are what they were before the history. This holds however long the history was, in whatever order objects were made, used and destroyed, and when calls in it were refused.',
     ['histories'], 'all interleavings of making, using and destroying objects of every kind, with refused calls',
     'The suite makes each object a few times and never looks at what is left.',
     ['wizard/hashmap.c', 'wizard/splay-tree.c', 'wizard/string.c', 'wizard/xml-tree.c', 'wizard/entropy.c', 'wizard/blob.c', 'wizard/authenticate.c'],
     [('destroy methods and error paths releasing what was acquired', 'wizard/hashmap.c DestroyHashmap, wizard/zip.c RestoreZIP, wizard/blob.c OpenBlob, wizard/secret.c DestroySecretInfo')],
     GEN, 'TLA+ model of live objects (Balance.tla): TLC-generated behaviours replayed into the code, memory and descriptors in use validated by TLC whenever nothing is live')

prop('E01', 'Every reported error reaches the handler of its severity once, in order',
     'Errors recorded in an error report are delivered to the handler for their severity exactly once and in order when the report is drained (an immediate repetition of the same error counts once), draining leaves the report empty, and merging one report into another preserves contents and order.',
     ['histories'], 'all sequences of recording, merging, clearing and draining, all severities',
     'The suite never inspects a report.',
     ['wizard/exception.c'],
     [('list of recorded errors under a lock', 'wizard/exception.c ThrowException, CatchException, InheritException')],
     GEN, 'TLA+ queue model (Exceptions.tla): TLC-generated behaviours replayed into the code, traces validated by TLC')

prop('G01', 'Logging emits exactly the enabled events, rendered by the format',
     'An event is written if and only if its kind is enabled at that moment, exactly once to each configured destination, with the text its format prescribes, whatever other threads log or change meanwhile. Log files go on to the next generation when closed or grown past their limit without losing an event, and an error report is logged by its own severity.',
     ['histories', 'configurations'], 'all masks, formats, destinations and event sequences',
     'The suite lists log settings only.',
     ['wizard/log.c'],
     [('event mask test and format expansion under a lock', 'wizard/log.c LogWizardEventList, TranslateEvent')],
     GEN, 'TLA+ model of filtering and formatting (Log.tla): TLC-generated behaviours replayed into the code, traces validated by TLC')

prop('T01', 'MIME lookup depends only on name, content and the table',
     'The type reported for a file name and content is that of the highest-ranking table entry that matches (lowest priority number, the later entry among equals), where an entry with a file name pattern is decided by the name if one is given and any other by its magic. The answer is the same after every history of look-ups and in every thread, and the lists of types are sorted, complete and never changed by look-ups.',
     ['histories', 'inputs'], 'all look-up histories, names and contents',
     'The suite lists the table once.',
     ['wizard/mime.c'],
     [('cached ordered table searched by pattern and magic', 'wizard/mime.c GetMimeInfo')],
     GEN, 'TLA+ model of table look-up (Mime.tla): TLC-generated tables and histories replayed into the code, traces validated by TLC')

NOT_APPLICABLE = {}


def main():
    have = {f[:-3] for f in os.listdir(os.path.join(ROOT, 'checks')) if f.endswith('.py') and f[0].isupper()}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            o = {'id': p['id'], 'title': p['title'], 'statement': p['statement'].strip(),
                 'quantifier': {'over': p['over'], 'text': p['text']},
                 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'],
                             'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
            if p['observe']:
                o['anchors']['observe_at'] = p['observe']
            f.write(json.dumps(o) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] in have:
            checks.append({'property': p['id'], 'quick_cmd': 'bin/check %s quick' % p['id'],
                           'thorough_cmd': 'bin/check %s thorough' % p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': p['technique'], 'level': p['level'], 'level_note': p['level_note']})
        else:
            na.append({'property': p['id'], 'reason': NOT_APPLICABLE.get(p['id'], 'specified, check not built yet')})
    m = {'version': 1, 'setup_cmd': 'bin/setup',
         'hooks': {'guard': 'none', 'enable': 'no hooks: the checks observe the public interface and the utilities from outside', 'source_commits': []},
         'checks': checks, 'not_applicable': na,
         'notes': 'All checks use TLA+ with TLC. Specifications in spec/, drivers in harness/, one check per property in checks/.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties', len(checks), 'claimed')


main()
