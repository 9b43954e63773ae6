import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","Every signature a key produces verifies and returns the exact message",
 "For every parameter set, key pair and message of any length, each successful signing call yields signature-plus-message of exactly the parameter set's signature size plus the message length, ending in the unmodified message, and verification under the matching public key accepts it and returns exactly that message and length. This holds for every signature in the key's lifetime, from the first index to the last, with both the plain and the fast signer, and either build verifies the other's signatures.",
 ["inputs","histories","configurations"],"all 77 OIDs (and any legal custom n/w/height/layers/BDS-k), all seeds, all messages, all indices of a key's lifetime, both signer builds",
 "Tests sign one random 32-byte message repeatedly with one XMSS and one XMSSMT SHA2-256 parameter set; no SHAKE, 192- or 512-bit set, no other message length and few subtree crossings are ever verified.",
 ["xmss.c","xmss_core.c","xmss_core_fast.c","xmss_commons.c","wots.c","hash.c"],
 [("signing in both cores","xmss_core.c:xmssmt_core_sign, xmss_core_fast.c:xmss_core_sign/xmssmt_core_sign"),("verification","xmss_commons.c:xmssmt_core_sign_open")],
 ["return codes, smlen/mlen, output buffers of xmss[mt]_sign and xmss[mt]_sign_open"])

p("C02","Verification accepts exactly the valid signatures and zeroes rejected output",
 "Verification succeeds if and only if the root recomputed from the index, randomizer, one-time signatures, authentication paths, public seed and message as RFC 8391 prescribes equals the root in the public key; so any change to a signed message, to any bit of the signature (index included), to its length, or to the public key makes it fail. On failure the result is nonzero, the reported message length is 0 and the message area of the output buffer holds only zeros.",
 ["inputs","configurations"],"all parameter sets, all signature bytes (valid, synthesised-valid, bit-flipped, spliced, re-indexed, extended, truncated messages), all public keys",
 "The tests flip one bit of the last message byte for two parameter sets; the wider bit-flip loop is compiled out, and nothing touches index, public key, splices or other parameter sets.",
 ["xmss_commons.c","xmss.c","wots.c","hash.c"],
 [("root recomputation and comparison","xmss_commons.c:xmssmt_core_sign_open, compute_root, l_tree"),("WOTS public key from signature","wots.c:wots_pk_from_sig")],
 ["return code, *mlen and m of xmss[mt]_sign_open"])

p("C03","Verification of arbitrary bytes is memory safe and rejects malformed input",
 "Verification of any byte string as signed message, of any length including empty and shorter than a signature, under any public key bytes, terminates without reading outside the given inputs or writing outside an output buffer as long as the signed message. Inputs too short to contain a signature are rejected with a nonzero result and message length 0, and an unknown parameter-set identifier in the key is rejected.",
 ["inputs","configurations"],"all byte strings up to several signature lengths as signed message, all public key bytes including unknown OIDs, all parameter sets",
 "Tests only verify well-formed signatures of the right length; no test feeds a short, empty, random or hostile input, and none runs under a sanitizer or guard pages.",
 ["xmss_commons.c","xmss.c","hash.c","fips202.c"],
 [("length handling","xmss_commons.c:xmssmt_core_sign_open"),("OID dispatch","xmss.c:xmss_sign_open, xmssmt_sign_open")],
 ["sanitizer reports, guard pages around sm/pk/m, return code, *mlen"])

p("C04","Public keys and signatures match RFC 8391 / SP 800-208 byte for byte",
 "For every parameter set, seeds, index and message, the public root and the signature bytes equal those defined by RFC 8391 with the SP 800-208 hash functions and key derivation (as stated in this code base), in both the plain and the fast signer, so an independent implementation given the same seeds, index and message computes the same values.",
 ["inputs","configurations"],"all OIDs plus custom n/func/w/height/layers, all seeds, all indices up to the full height of 60 bits, all messages",
 "The tests are self-consistency checks (sign then verify with the same code); test/vectors prints values but compares them with nothing, so a consistent deviation in hashing, padding, addressing or encoding passes.",
 ["hash.c","hash_address.c","wots.c","xmss_commons.c","xmss_core.c","xmss_core_fast.c","utils.c"],
 [("keyed/masked hashing and domain separation","hash.c:thash_f, thash_h, prf, prf_keygen, hash_message"),("address encoding","hash_address.c, hash.c:addr_to_bytes"),("WOTS+, L-tree, hypertree","wots.c, xmss_commons.c, xmss_core.c:treehash")],
 ["pk bytes, sm bytes, output of the wots.h / hash.h functions, compared with an independent model"])

p("C05","The fast stateful signer produces the same signatures as the plain one",
 "For the same key material, index and message the signer with incremental tree-traversal state and the signer that recomputes every authentication path from scratch return identical signatures, at every index of the key's lifetime, across every subtree boundary at every layer, for every tree height, number of layers and traversal trade-off. This also holds when the secret key is saved and reloaded between any two signatures.",
 ["histories","configurations"],"complete signing histories from key generation to exhaustion for all tree shapes reachable in reasonable time, and every legal BDS parameter k",
 "Tests never compare the two signers; the fast one is only walked 1024 steps on each of two shapes with BDS k = 0, and in the two-layer case crosses one subtree boundary.",
 ["xmss_core_fast.c","xmss_core.c"],
 [("BDS traversal","xmss_core_fast.c:bds_round, bds_treehash_update, bds_state_update, treehash_init"),("layer switching","xmss_core_fast.c:xmssmt_core_sign, deep_state_swap"),("state (de)serialisation","xmss_core_fast.c:xmssmt_serialize_state, xmssmt_deserialize_state")],
 ["signature bytes after each call"],
 [dict(name="BDS state in sk",meaning="stack, auth, keep, treehash and retain nodes per layer and per next tree, plus upper-layer WOTS signatures",where="xmss_core_fast.c")])

p("C06","A one-time key is never used for two different values",
 "Each successful signing call uses exactly the index stored in the secret key, puts that index into the signature, and leaves the secret key holding the next index, so indices form the sequence 0, 1, 2, ... with no repeats or gaps and nothing else of the key's seeds, root or identifier changes. Over a key's whole life no one-time key at any layer signs two different values.",
 ["histories","configurations"],"all signing histories including save/restore copies, all starting indices including carries between index bytes, all parameter sets, both signers",
 "Tests never look at the index in the signature or in the key (maxsigs prints it), do not follow carries beyond two bytes, and cannot see which one-time key signed what.",
 ["xmss_core.c","xmss_core_fast.c"],
 [("index read, embed, increment","xmss_core.c:xmssmt_core_sign, xmss_core_fast.c:xmss_core_sign/xmssmt_core_sign"),("upper-layer one-time signatures kept in the key","xmss_core_fast.c:wots_sigs")],
 ["index bytes of sm and sk before and after each call; (one-time address, signed value) pairs"],
 [dict(name="index",meaning="next unused one-time key",where="first index_bytes of sk after the OID")])

p("C07","An exhausted key signs its last index, then refuses for ever and is wiped",
 "A key yields one valid signature for each of its indices, except that the final index is withheld when the stored index has no value left to mark the key as finished. From then on every signing call fails with a nonzero result, however often it is repeated, without emitting a signature with a reused or out-of-range index, and the secret seeds are erased from the key no later than the last successful signature or first refusal.",
 ["histories","configurations"],"all parameter sets and custom heights (including heights that fill the index bytes completely), all histories that end at or beyond the last index, any number of further calls, both signers",
 "maxsigsxmss looks at return codes only, for one parameter set, two calls past the end; it cannot see that the last signature is invalid or that a different height wraps around to index 0.",
 ["xmss_core.c","xmss_core_fast.c"],
 [("end-of-key check and erasure","xmss_core.c:xmssmt_core_sign, xmss_core_fast.c:xmss_core_sign/xmssmt_core_sign")],
 ["return codes, verification of the last signatures, secret key bytes after exhaustion"],
 [dict(name="index",meaning="all one-time keys used when it reaches 2^h",where="sk")])

p("C08","WOTS+ signatures recompute the key and cannot be advanced to other digests",
 "For every digest, seeds and address, the public key recomputed from a WOTS+ signature and its digest equals the generated public key, and under any other digest, address or public seed, or after any change to the signature, it differs. For any two different digests, at least one chain of each one's signature lies strictly beyond the other's, so no signature can be turned into one for another digest by further hashing, for every supported Winternitz parameter.",
 ["inputs","configurations"],"all n in {24,32,64}, hash functions, w in {4,16,256}, digests including all-zero/all-one/extreme checksums, arbitrary 256-bit addresses",
 "test/wots checks one random digest for one parameter set; no test touches w=4/256, extreme checksums or the incomparability of chain lengths.",
 ["wots.c","params.c"],
 [("digit and checksum computation","wots.c:base_w, wots_checksum, chain_lengths"),("chains","wots.c:gen_chain"),("len1/len2","params.c:xmss_xmssmt_initialize_params")],
 ["outputs of wots_pkgen, wots_sign, wots_pk_from_sig"])

p("C09","SHAKE128 and SHAKE256 match FIPS 202 for all input and output lengths",
 "For every input and every requested output length the extendable-output functions return exactly the FIPS 202 result, write exactly the requested number of bytes and read exactly the given input, and shorter outputs are prefixes of longer ones.",
 ["inputs"],"all input lengths (including 0 and around multiples of the rate), all output lengths, all contents",
 "No test compares SHAKE with a reference or signs with a SHAKE parameter set.",
 ["fips202.c"],
 [("sponge padding, absorbing, squeezing","fips202.c:keccak_absorb, keccak_squeezeblocks, shake128, shake256")],
 ["output buffers compared with OpenSSL's implementation"])

p("C10","Parameter-set names and identifiers map to the standard parameters, others fail",
 "Every standard parameter-set name maps to its standard identifier, and every standard identifier configures the hash function, output length, height, layer count and Winternitz parameter the standard assigns, with all derived sizes (index, one-time signature, signature, public and secret key) consistent with them and with what the key and signature functions actually produce. Every other name and every other 32-bit identifier is refused with a nonzero result.",
 ["inputs","configurations"],"all 2^32 identifiers for both families, all standard names and arbitrary other strings, all legal custom parameter structures",
 "test/oid only checks that the listed names are recognised; no value, size, unknown name or unknown identifier is checked.",
 ["params.c","params.h"],
 [("name and OID tables","params.c:xmss_str_to_oid, xmssmt_str_to_oid, xmss_parse_oid, xmssmt_parse_oid"),("derived sizes","params.c:xmss_xmssmt_initialize_params, xmss_xmssmt_core_sk_bytes")],
 ["return codes, params structure"])

p("C11","Key generation turns fresh randomness into a well-formed key pair",
 "For every parameter set key generation puts the parameter-set identifier in front of both keys, index 0, secret seed, PRF key, root and public seed into the secret key and root and public seed into the public key at the documented positions, with the two root copies and the two seed copies equal. The three seeds come from disjoint parts of the system randomness consumed, in full length, and the pair depends on nothing else, in particular not on what the output buffers held before; an unknown identifier yields a nonzero result.",
 ["inputs","configurations"],"all parameter sets, all random streams, all prior buffer contents, both signers",
 "Tests never inspect key bytes; a short, shared or uninitialised seed, or dependence on old buffer contents, still signs and verifies.",
 ["xmss.c","xmss_core.c","xmss_core_fast.c"],
 [("seed drawing and layout","xmss_core.c:xmssmt_core_keypair/xmssmt_core_seed_keypair, xmss_core_fast.c:xmss_core_keypair/xmssmt_core_keypair"),("OID prefix","xmss.c:xmss_keypair, xmssmt_keypair")],
 ["pk, sk, bytes drawn from the random source"])

p("C12","Valid calls touch only the documented buffers and leave their inputs alone",
 "Key generation, signing and verification read and write only within the public key, secret key, signature-plus-message and message buffers at the sizes announced for the parameter set, never beyond them or beyond their own working storage, and message, signature and public key inputs are left unchanged.",
 ["inputs","histories","configurations"],"all parameter sets, message lengths including 0, all indices incl. last and subtree boundaries, both signers",
 "Tests use exactly sized heap/stack buffers without sanitizers or guards, so overruns by a few bytes go unnoticed, and only for two parameter sets.",
 ["xmss_core.c","xmss_core_fast.c","xmss_commons.c","hash.c","wots.c","params.c"],
 [("size computation","params.c:xmss_xmssmt_initialize_params"),("in-place prefix before the message","hash.c:hash_message"),("state layout in sk","xmss_core_fast.c:xmssmt_deserialize_state")],
 ["guard pages, AddressSanitizer, snapshots of inputs"])

p("C13","The random source delivers every requested byte despite faults",
 "A request for any number of random bytes returns only after exactly that many bytes, consecutive in the source, from the operating system source have been stored, in order, each used once (also across forked processes and several threads), also when opening or reading the source fails or delivers fewer bytes than asked, and nothing outside the requested area is written.",
 ["inputs","fault_sequences"],"all request sizes including 0 and above one megabyte, all sequences of failed opens, failed/short/empty reads, sequences of requests, forks between requests, requests of several threads",
 "Tests read from a healthy /dev/urandom, which never returns short reads for these sizes and has no observable content to compare.",
 ["randombytes.c"],
 [("open/read retry loop","randombytes.c:randombytes")],
 ["buffer contents against a scripted source behind open/read"])

p("C14","The command-line tools generate, sign and verify consistently through files",
 "A key pair file written by the key generation tool lets the signing tool output, for any message file, a signature followed by the message that the verification tool accepts with exit status 0 (given the key pair file or only its public part), and signing changes only the secret-key part of the key file, advancing its index by one. With a used-up key the signing tool exits nonzero without output, and neither secret seed is left in the key file afterwards. If the signed file or public key is altered in any way, the verification tool exits nonzero, and names of unknown parameter sets make key generation exit nonzero without output.",
 ["inputs","histories","configurations"],"all tool variants (plain/fast, single/multi-tree), parameter sets, message files of any size and content incl. empty, histories of several signatures, alterations of signed files and keys",
 "The ui programs have no tests at all.",
 ["ui/keypair.c","ui/sign.c","ui/open.c"],
 [("file handling","ui/sign.c, ui/open.c, ui/keypair.c")],
 ["exit status, stdout, key file bytes"])

p("C15","The signing tool never releases a signature before the key file is advanced",
 "At every point at which the signing tool can be killed or one of its writes can fail, if any byte of a signature has left the process then the key file already holds the advanced key, so a later run never reuses the same one-time key. If signing is refused, the key cannot be stored or the signature cannot be written, the tool exits nonzero, and in the first two cases outputs nothing.",
 ["crash_points","fault_sequences","histories"],"every crash point between system calls of a signing run, every failing or partial write to key file or standard output, exhausted keys, message sizes from empty to many buffer sizes, all tool variants",
 "The ui programs have no tests, and a crash or full disk between two writes is not something a test run meets by chance.",
 ["ui/sign.c"],
 [("order of storing the key and emitting the signature","ui/sign.c:main")],
 ["system calls of the process, key file and stdout contents after a kill or write error"],
 [dict(name="key file",meaning="public key followed by secret key with index",where="ui/sign.c")])

p("C16","Operations on different keys do not influence each other",
 "The result of every key generation, signing and verification depends only on its arguments (and drawn randomness): any interleaving of operations on keys of different parameter sets, any earlier operations, any earlier contents of output buffers, and concurrent use of different keys from several threads give the same results as running each key's operations alone.",
 ["histories","schedules","inputs"],"all interleavings of operations of several keys and parameter sets in one process, concurrent threads with separate keys, varying buffer contents and addresses",
 "Each test uses a single key and parameter set in a fresh single-threaded process, so leftover or shared state cannot show.",
 ["xmss.c","xmss_core.c","xmss_core_fast.c","xmss_commons.c","wots.c","hash.c","fips202.c"],
 [("all state passed through parameters, working storage on the stack","whole library")],
 ["results of interleaved/concurrent runs against isolated runs"])

p("C17","Messages of any size are signed and verified in full, beyond 4 GiB too",
 "The message digest covers every byte of the message and its exact length for all lengths that the interface's 64-bit length type and memory allow, including lengths that do not fit 31 or 32 bits, in signing as well as in verification, and lengths are reported without truncation.",
 ["inputs"],"message lengths around hash block and rate multiples, powers of two up to 2^16 and beyond, 2^31 and 2^32, all hash functions",
 "Tests only use 32-byte messages.",
 ["hash.c","fips202.c","xmss_core.c","xmss_core_fast.c","xmss_commons.c"],
 [("message hashing","hash.c:hash_message, core_hash"),("length arithmetic","xmss_core.c, xmss_core_fast.c, xmss_commons.c")],
 ["signature bytes against the model for large messages; verification of messages differing in one byte anywhere"])

p("C18","The command-line tools reject malformed files cleanly",
 "Given missing arguments or files, or key, signature or message files that are empty, truncated at any length, carry unknown parameter identifiers or hold arbitrary bytes that are no complete key with a valid identifier (or no valid signature), the tools end on their own with a nonzero exit status, without crashing, and the signing tool outputs no signature and leaves the key file unchanged.",
 ["inputs","configurations"],"all truncations and corruptions of key files (public and secret part), signed files and identifiers, missing files and wrong argument counts, all tool variants",
 "The ui programs have no tests.",
 ["ui/keypair.c","ui/sign.c","ui/open.c"],
 [("file reading and identifier parsing","ui/sign.c, ui/open.c, ui/keypair.c")],
 ["exit status or signal, stdout, key file bytes"])
p("C19","The key generation tool reports success only for a delivered key pair",
 "If the key generation tool exits with status 0, the complete public key followed by the complete secret key has been accepted by its standard output; whenever a write fails, stays short or the device is full, it exits nonzero (or is ended by the signal), and what it has written is the beginning of the key pair. A user who trusts the exit status therefore never keeps a truncated secret key.",
 ["fault_sequences","configurations"],"every write of the tool failing, short, or followed by failure; full devices, file size limits at any length, vanished readers; all parameter sets and tool variants",
 "The ui programs have no tests, and no test makes a write fail.",
 ["ui/keypair.c"],
 [("output of the key pair","ui/keypair.c:main")],
 ["exit status and output bytes under write faults"])
p("C20","The work of one call is bounded over the whole life of a key",
 "The stateful fast signer never does more than a small fixed amount of work in one signing call, whatever the key's index and history: with trees of height h' and traversal parameter k it computes at most (h'-k)/2+2 leaves (one-time public keys), makes one one-time signature plus one for each lower tree that ends at this index, and never rebuilds a tree. The plain signer computes each layer's tree at most once per signature, key generation each layer's first tree at most once, and verification recomputes one one-time key per layer whatever bytes it is given; signing and verification put the message through the hash function once. Calls on exhausted keys and verification of input shorter than a signature do no tree or one-time computation at all.",
 ["inputs","histories","configurations"],"all parameter sets and legal custom shapes with every BDS parameter k, all indices of a key's lifetime including the ends of trees on several layers at once, all inputs to verification, both signers",
 "Tests do not observe the work of a call; a signer that recomputes whole trees at rare indices (2^18, 2^20) passes them and only shows as a signature taking minutes instead of milliseconds.",
 ["xmss_core_fast.c","xmss_core.c","xmss_commons.c"],
 [("distribution of updates over signatures","xmss_core_fast.c:xmssmt_core_sign (updates), bds_treehash_update, bds_state_update, bds_round"),("tree computation","xmss_core.c:treehash, xmss_core_fast.c:treehash_init"),("verification","xmss_commons.c:xmssmt_core_sign_open")],
 ["number of calls of wots_sign, wots_pk_from_sig, leaf computations, tree-node hashes and hash computations during each API call"],
 [dict(name="update budget",meaning="leaf computations still allowed in the current signing call",where="xmss_core_fast.c:xmssmt_core_sign")])
p("C21","Results depend on the inputs only, not on the platform or on old memory",
 "Every result (derived parameters, key pairs from given randomness, signatures, updated secret keys, verdicts and returned messages) is a function of the explicit inputs alone: it is byte for byte the same whatever the compiler and optimisation level, the signedness of plain char, the word size (32- or 64-bit long and pointers), and the previous contents of stack, heap and output buffers; no decision and no output byte depends on uninitialised memory. Keys and signatures made by one build are therefore usable with every other build.",
 ["inputs","histories","configurations"],"all parameter sets and legal custom shapes, all indices up to 60 bits and stored indices beyond the end, all histories and verification inputs; builds: gcc and clang, -O0 to -O3, signed and unsigned char, i386 and x86-64, memory prefilled with different patterns, MemorySanitizer",
 "The tests run one build on one platform, where uninitialised memory is usually zero; no result is compared across builds, and test/xmss_determinism only compares two key pairs of one build.",
 ["params.c","hash.c","hash_address.c","utils.c","wots.c","xmss_commons.c","xmss_core.c","xmss_core_fast.c","fips202.c","xmss.c"],
 [("integer encodings","utils.c:ull_to_bytes, bytes_to_ull, hash_address.c, hash.c:addr_to_bytes"),("index arithmetic","xmss_core.c:xmssmt_core_sign, xmss_core_fast.c:xmss_core_sign/xmssmt_core_sign"),("state initialisation and serialisation","xmss_core_fast.c:xmssmt_serialize_state, xmssmt_deserialize_state, keypair functions")],
 ["output buffers and return values of the xmss.h, params.h and xmss_core.h functions of differently compiled builds"])
p("C22","Calls leave nothing behind and their memory does not depend on the message",
 "Over any history of key generations, signatures, refused signatures, accepted and rejected verifications and requests for randomness, the library does not accumulate resources: after a warm-up neither the heap memory it holds nor the number of open descriptors keeps growing. One call on a standard parameter set needs at most 1 MiB of stack and heap together, and signing or verifying a long message needs no more than a short one (beyond the caller's own buffers), so messages larger than the stack are signed and verified.",
 ["histories","inputs","configurations"],"all standard parameter sets and custom shapes, both signers, generated rounds of successful, refused and failing operations, message lengths up to several megabytes",
 "The tests are short-lived processes with 32-byte messages and few calls; no test observes memory or descriptors, and rejected input is tried once.",
 ["xmss.c","xmss_core.c","xmss_core_fast.c","xmss_commons.c","hash.c","fips202.c","randombytes.c"],
 [("working memory of the calls","xmss_core_fast.c, xmss_core.c, xmss_commons.c, hash.c:core_hash"),("descriptor of the random source","randombytes.c:fd")],
 ["allocations and releases by the library, /proc/self/fd, stack high-water mark of each call"])
p("C23","The tools sign and accept only what they have read completely",
 "Whatever goes wrong while the command-line tools read their files - a read, seek, open or memory request that fails, is interrupted or is short, a file that turns out shorter than it was measured, a message file whose length cannot be found (pipes, /proc files, endless devices) - the signing tool never outputs anything but the signature over the complete content of the message file followed by that content, exits with status 0 only after doing so, and otherwise exits nonzero without output, with the key file holding the old or the correctly advanced key and any further bytes of the file untouched; the verification tool never exits with status 0 for a file that is not, as a whole, a valid signed message. No such fault ends a tool by a signal.",
 ["fault_sequences","inputs","configurations"],"every call of the tools that opens, measures, reads or allocates, failing in every way, once or from there on; messages of any length in files of any kind; all parameter sets and tool variants",
 "The ui programs have no tests, and read errors or unusual kinds of files are not something a test meets.",
 ["ui/sign.c","ui/open.c"],
 [("finding the length of the message and reading it","ui/sign.c:main, ui/open.c:main")],
 ["exit status, stdout and key file bytes of the tools under faults of their input side"])
p("C24","Signing runs at the same time never share a one-time key",
 "When several processes of the signing tool run on one key file at the same time, under every interleaving of their system calls and also when one of them is killed in between, no two of them release signatures with the same index; every run that exits with status 0 has output a valid signature of its message, a run that does not output a signature exits nonzero, and the key file afterwards holds the key advanced past every released index. The runs all end.",
 ["schedules","crash_points","histories"],"all interleavings of two to eight signing processes at system call granularity, kills at any point, any key index, all tool variants",
 "The ui programs have no tests; a race between two processes depends on a schedule no test run controls.",
 ["ui/sign.c"],
 [("exclusive use of the key file","ui/sign.c:main")],
 ["stdout and exit status of every process and the key file afterwards"],
 [dict(name="key file",meaning="public key followed by secret key with index",where="ui/sign.c")])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
