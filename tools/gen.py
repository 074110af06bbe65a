#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Each property: id, title,
statement, quantifier kinds, quantifier text, why tests cannot, files,
mechanism [(name, where)], note."""
import json, os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, U = "src/collection/", "src/util/"
P = []

def p(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note))

p("C01", "Sorted maps and sets behave as a sorted dictionary over any history",
  "After any history of put, remove, get and existence tests, a sorted map returns for each key the value last put and not removed since (nil otherwise), put and remove return the previous value (or key, for a set), and the size is the number of keys there; a sorted set agrees with it. "
  "The cost of a lookup stays logarithmic: no history makes a lookup compare with many more stored keys than a balanced tree of that size needs.",
  ["histories", "inputs"], "every sequence of operations over every ordered key type and key set, in any order of insertion and removal",
  "TestAVL runs two fixed sequences of about ten operations and a random fill; it asserts nothing about values after removals in general, nor about the balance after mixed histories.",
  [C+"avl.go", C+"sorted_map.go", C+"sorted_set.go"],
  [("insertion, removal and rotations of the AVL tree", C+"avl.go Put, Remove, reBalance and rotations"), ("map and set on top of the tree", C+"sorted_map.go, "+C+"sorted_set.go")],
  "model-based stateful property testing against a map model, with comparison counting",
  "Generated histories with up to 1500 keys against a model map; the bound on comparisons is that of an AVL tree.")

p("C02", "Sorted iteration visits every entry once, in key order, and peeks truthfully",
  "An iterator over a sorted map or set visits every entry exactly once in ascending key order with its current value. "
  "Peeking returns what the next step returns without advancing, has-next is true exactly while something is left, and an exhausted iterator keeps returning nothing; iterators over the same collection do not disturb each other.",
  ["histories", "schedules"], "every collection content reachable by puts and removals, every interleaving of next, peek and has-next over several iterators",
  "TestAVL prints a few iterations and compares peek with next once; no test interleaves iterators, exhausts them or asks in unusual orders.",
  [C+"avl.go", C+"sorted_map.go", C+"sorted_set.go"],
  [("in order walk with a stack", C+"avl.go AVLIterator"), ("map and set iterators", C+"sorted_map.go, "+C+"sorted_set.go")],
  "model-based stateful property testing of interleaved iterators",
  "Contents come from generated histories of up to 1500 keys; collections do not change during an iteration.")

p("C03", "Range iteration visits exactly the entries from start up to but excluding end",
  "A range iterator over a sorted map or set visits, in ascending order, exactly the entries whose key is not below start and is below end; either bound may be missing from the collection, or absent altogether. "
  "Peek, has-next and exhaustion behave as for full iteration, and a start above the end is refused.",
  ["histories", "inputs"], "every collection content, every pair of bounds present, absent, outside or missing, every interleaving of next, peek and has-next",
  "No stable test iterates over a range whose bounds are not stored keys; TestAVL uses a handful of bounds on one tree.",
  [C+"avl.go", C+"sorted_map.go", C+"sorted_set.go"],
  [("range iterator of the tree", C+"avl.go AVLRangeIterator / RangeIterator"), ("range iterators of map and set", C+"sorted_map.go, "+C+"sorted_set.go RangeIterator")],
  "model-based stateful property testing against a filtered sorted model",
  "Bounds are drawn around and between stored keys; collections do not change during an iteration.")

p("C04", "Hash maps and sets behave as a dictionary whatever the keys hash to",
  "After any history of put, remove, get and existence tests, with any capacity, load factor and growth multiplier (also out of range), a hash map returns for each key the value last put and not removed since, put and remove return the previous value (or key, for a set), and the size is the number of keys there. "
  "This holds for keys that collide in any way, and while keys hash well a lookup looks at a few stored keys only.",
  ["histories", "configurations", "inputs"], "every sequence of operations, every configuration, every hash behaviour of keys including constant hashes",
  "TestHash runs one fixed sequence over ten well hashing integers in the default configuration, never across several resizes with collisions.",
  [C+"hash.go", C+"hash_map.go", C+"hash_set.go"],
  [("chaining, growing and shrinking", C+"hash.go Put, Remove, resize"), ("validity checks of the configuration", C+"hash.go NewCustomHash")],
  "model-based stateful property testing with adversarial hash functions",
  "Histories with up to 1500 keys, seven ways of hashing, configurations with NaN and infinities.")

p("C05", "Iterating a hash map or hash set visits every entry exactly once",
  "An iterator over a hash map or hash set visits every entry exactly once, with its current value, in whatever order. "
  "Peek returns what the next step returns without advancing, has-next is true exactly while something is left, and an exhausted iterator keeps returning nothing.",
  ["histories", "configurations"], "every content and configuration of a hash map or set, every interleaving of next, peek and has-next",
  "TestHash iterates but asserts nothing of what it sees: iteration over anything was empty and the test passed.",
  [C+"hash.go", C+"hash_map.go", C+"hash_set.go"],
  [("walk over the buckets and their chains", C+"hash.go entryIterator, HashIterator"), ("map and set iterators", C+"hash_map.go, "+C+"hash_set.go Iterator")],
  "model-based stateful property testing of interleaved iteration",
  "Contents come from generated histories. Iterating the bare hash table below map and set is a known finding (see KNOWN_FINDINGS.txt).")

p("C06", "Slice comparison is a total lexicographic order that agrees with equality",
  "Comparing two slices of any supported element type gives the lexicographic order (a nil slice first, a proper prefix before what extends it), bare or wrapped as a comparable. "
  "Equality is true exactly when the comparison gives zero, and no comparison reads beyond the slices or changes them. A wrapped slice (itself not nil) comes after nil, and equals neither nil, nor a pointer that is nil, nor an object of another type. A missing (nil) element of a slice of comparables is before every other element, and equals a missing one only.",
  ["inputs"], "every pair and triple of slices of each element type, including nil, empty, prefixes of each other and slices inside larger arrays",
  "No stable test compares slices directly; the map tests compare integers only.",
  [C+"comparable.go", C+"util.go"],
  [("comparison of slices", C+"comparable.go CompareXxxSlice"), ("equality of slices", C+"comparable.go, "+C+"util.go EqualXxxSlice"), ("wrapped slices", C+"comparable.go ComparableXxxSlice")],
  "property testing against a reference order, over derived pairs",
  "Ten element types; slices are up to a few dozen elements.")

p("C07", "Equal slices hash alike, different ones do not, and hashing has no side effects",
  "For every hashable slice type, equal contents give equal hashes under any hash function and different contents give different ones (up to collisions of the hash function); the hash of a slice of hashables is the exclusive or of the hashes of its elements, so there the order makes no difference and equal elements cancel in pairs. "
  "Hashing neither fails nor reads beyond the slice nor changes it, whatever larger array it is part of. A hashable equals neither nil, nor a pointer that is nil, nor an object of another type.",
  ["inputs"], "every slice of each hashable type, in any surrounding array, under any hash function and seed",
  "No stable test hashes a slice of numbers or of hashables.",
  [C+"hashable.go"],
  [("hashing of wrapped slices", C+"hashable.go HashableXxxSlice.HashUint32"), ("equality of wrapped slices", C+"hashable.go Equal")],
  "metamorphic property testing (equal and nearly equal pairs) with several hash functions",
  "Three hash functions at once stand for 'any'; a collision of all three on different contents is taken as a violation.")

p("C08", "The seeded hash is Murmur3 for every seed, length and alignment",
  "The 32 bit hash of a byte string equals the published Murmur3 (x86, 32 bits) result for every seed, length and position of the bytes in memory.",
  ["inputs"], "every byte string, seed and memory offset",
  "TestMurmur compares a dozen fixed vectors.",
  [C+"hash.go"],
  [("block and tail mixing through an unsafe slice of words", C+"hash.go MurmurSeed.Hash")],
  "differential property testing against an independent implementation",
  "The reference is written from the publication and works on bytes; a little endian machine is assumed.")

p("C09", "Number conversions round-trip and minimum and maximum pick the right operand",
  "Converting a time, a 32 or 64 bit integer or a non-negative big integer of up to 256 bits to bytes gives its fixed width big endian form, and converting back gives the same number (times to the nanosecond, within their range). Bytes behind an encoded number make no difference; fewer bytes than its width give 0 (an error for a time), never a part of the number; of a larger big integer the low 256 bits are kept. "
  "Minimum and maximum return the smaller and larger operand for every integer type, and exactly nil and nil pointers, maps, channels and slices are nil, whatever the type. The ternary helper gives the first thing exactly when the condition holds.",
  ["inputs"], "every number of each type, including the extremes and zero",
  "TestSetupTimestamp measures speed; the random number tests convert nothing at the extremes.",
  [C+"util.go"],
  [("conversions", C+"util.go XxxToByteArray, ByteArrayToXxx"), ("minimum and maximum", C+"util.go MinXxx, MaxXxx"), ("nil test", C+"util.go IsNil"), ("ternary", U+"misc_util.go Ternary")],
  "round-trip and differential property testing with boundary-biased numbers",
  "References are the standard library's big endian encodings.")

p("C10", "Variable length numbers and byte strings round-trip and reject truncation",
  "Every signed or unsigned 64 bit number and every byte string decodes from its variable length encoding, whatever follows it, to itself and to the length of its encoding. "
  "The encoding is the documented one, and every non-empty strict prefix of it is rejected with an error.",
  ["inputs"], "every 64 bit number, every byte string, every cut and everything that may follow",
  "Stable tests reach these through keys and values of small sizes only and never truncate.",
  [U+"misc_util.go"],
  [("variable length encodings", U+"misc_util.go EncodeVarint64, EncodeUvarint64, EncodeVarchar"), ("decoders and their length checks", U+"misc_util.go DecodeVarint64, DecodeUvarint64, DecodeVarchar")],
  "round-trip, differential and truncation property testing",
  "Byte strings up to 70000 bytes; the reference encoder is independent.")

p("C11", "Keys round-trip through their encoding, keep their limit and reject truncation",
  "A key of any sub keys encodes to the documented bytes or is refused when these exceed the maximum key length; decoding them, whatever follows, gives a key with the same sub keys that holds exactly its own bytes. "
  "Adding a sub key after encoding is reflected by the next encoding and by whether the key says it is encoded, copies encode alike, and strict prefixes of an encoding are rejected. An empty sub key cannot be added.",
  ["inputs", "histories"], "every sequence of non-empty sub keys, every interleaving of adding and encoding, every cut and everything that may follow",
  "TestKey and TestKeyRandom round-trip keys without anything behind the encoding, never add after encoding, and never truncate.",
  [U+"key_util.go"],
  [("key encoder", U+"key_util.go Key.Encode, Key.Add"), ("key decoder", U+"key_util.go MappedKey.Decode, NewMappedKey"), ("limit", U+"const_util.go MAX_KEY_LENGTH")],
  "stateful round-trip property testing against a reference encoder",
  "Keys of up to 1000 sub keys and sizes around the limit.")

p("C12", "Key order is total, lexicographic by sub key, and agrees with equality and hash",
  "Comparing two keys orders them lexicographically sub key by sub key (a prefix before what extends it), whether each was constructed or decoded or is the empty key; equality is true exactly when the comparison is zero, and neither ever holds for nil or a pointer that is nil. "
  "Equal keys hash alike under any hash function, and different keys, including permutations or regroupings of the same sub keys, are told apart by their hashes.",
  ["inputs"], "every pair of keys in every representation, every hash function",
  "TestKey compares random unrelated keys; prefixes, permutations and mixed representations are not tried.",
  [U+"key_util.go"],
  [("comparison and equality", U+"key_util.go Compare, Equal"), ("hash over sub keys", U+"key_util.go HashUint32")],
  "property testing over derived pairs in all representations",
  "Several hash functions at once stand for 'any'.")

p("C13", "Values round-trip through their encoding, keep their limits and edits show",
  "A value (bytes, an array of values, a list of records, nested in any way) encodes to the documented bytes or is refused when a limit is exceeded; decoding them, whatever follows, gives the same elements in any order of access. "
  "Appending and deleting elements after encoding is reflected by the next encoding and by whether the value says it is encoded, a copy of a decoded value encodes to the same bytes, and strict prefixes are rejected.",
  ["inputs", "histories"], "every nested value, every sequence of edits with encodings in between, every order of access, every cut and everything that may follow",
  "TestValueRandom round-trips random values once; boundary lengths, edits after encoding, trailing bytes and truncation are not covered.",
  [U+"value_util.go"],
  [("encoders", U+"value_util.go Primitive, ValueArray, RecordList Encode"), ("lazy decoders", U+"value_util.go SimpleMappedValue, ValueAt, RecordAt"), ("limits", U+"const_util.go")],
  "stateful round-trip property testing against a reference encoder",
  "Nesting up to depth 3, up to 65536 elements, lengths around every length class.")

p("C14", "Records round-trip through their encoding with any combination of parts",
  "A record with any combination of key, value, scheme, timestamp and signature encodes to the documented bytes, or is refused when a part is too long to be decoded; decoding them, whatever follows, gives exactly the parts that were set. "
  "Parts set after encoding are reflected by the next encoding and by whether the record says it is encoded, copies encode alike, and strict prefixes are rejected.",
  ["inputs", "histories"], "every combination and size of parts, every order of setting and encoding, every cut and everything that may follow",
  "The record tests are not among the stable ones, and round-trip a full record only.",
  [U+"record_util.go"],
  [("record encoder and magic byte", U+"record_util.go Record.Encode"), ("record decoder", U+"record_util.go MappedRecord.Decode"), ("limits", U+"const_util.go MAX_KEY_LENGTH, MAX_VALUE_LENGTH, MAX_SCHEME_LENGTH")],
  "stateful round-trip property testing against a reference encoder",
  "A signed record has a timestamp, and signature numbers fit 32 bytes (see DESIGN.md).")

p("C15", "Decoders survive any input and accept only what they can represent",
  "Every decoder (keys, values, records, schemes, consensus times and ids, perfect hash tables, variable length data), given any bytes, either returns an error or an object that can be read entirely, whose consumed length is within the input, and which decodes from exactly these bytes again to the same thing. "
  "No input makes it or a later access panic, hang or exhaust memory.",
  ["inputs", "fault_sequences"], "every byte string, in particular damaged encodings of valid objects",
  "No stable test decodes anything that was not encoded just before.",
  [U+"misc_util.go", U+"key_util.go", U+"value_util.go", U+"record_util.go", U+"scheme_util.go", U+"consensus_util.go", U+"mph_util.go"],
  [("length checks of all decoders", U+"*_util.go Decode"), ("lazy element access", U+"value_util.go ValueAt, RecordAt"), ("table validation", U+"mph_util.go NewMPHTable")],
  "structure-aware fuzzing (mutated encodings) with an invariant oracle",
  "Mutations of generated encodings and random bytes; nesting as generated, so deeply nested hostile values are not explored.")

p("C16", "Copies of keys, values, records, schemes and ids are independent of the original",
  "A copy (of either kind) of a constructed or decoded object reads and encodes as the original did. "
  "Changing any part of one of the two, including its underlying bytes, never shows in the other.",
  ["inputs", "histories"], "every object, every kind of copy, every later change to either side",
  "Tests compare a copy with its original once and never change either.",
  [U+"key_util.go", U+"value_util.go", U+"record_util.go", U+"scheme_util.go", U+"consensus_util.go"],
  [("copies", U+"*_util.go Copy, CopyConstruct")],
  "metamorphic property testing: mutate one side, compare the other with a snapshot",
  "Timestamps and signature numbers are immutable and may be shared.")

p("C17", "Schemes decode what was encoded, with any combination of components",
  "A scheme of domain, tablet and buckets, each there or not, decodes from its documented encoding, whatever follows, to the same components and to exactly its own bytes. "
  "A constructed scheme encodes to these bytes or is refused beyond the limit, copies encode alike, and strict prefixes are rejected.",
  ["inputs"], "every combination and size of components, every cut and everything that may follow",
  "No stable test touches schemes.",
  [U+"scheme_util.go"],
  [("scheme magic and components", U+"scheme_util.go Encode, Decode"), ("limit", U+"const_util.go MAX_SCHEME_LENGTH")],
  "round-trip property testing against a reference encoder",
  "Up to 200 buckets.")

p("C18", "Consensus times round-trip and are ordered by their fields",
  "A consensus time of either kind encodes to its fixed width form and reads back, whatever follows, as the same time. "
  "The comparison operators order two times of a kind by their fields from the most to the least significant, agree with each other, and are the same for times made directly and read back; comparing times of different kinds is an error, as are truncated or unknown bytes.",
  ["inputs"], "every pair of times, in particular those which differ in a single field or at a boundary",
  "No stable test touches consensus times.",
  [U+"consensus_util.go"],
  [("encoding", U+"consensus_util.go LedgerTime and RaftTime Buf, NewConsensusTime"), ("comparison", U+"consensus_util.go EQ, NE, LT, LE, GT, GE")],
  "property testing over derived pairs against field-wise order",
  "Reference order is lexicographic over the fields.")

p("C19", "Consensus ids expose exactly their components, or are rejected",
  "A consensus id with any subset of its components reads back, whatever follows, with these components and no others, and has exactly its own bytes. "
  "A truncated id, or one with reserved bits, is rejected with an error; copies read alike.",
  ["inputs"], "every combination and size of components, every cut and everything that may follow",
  "No stable test touches consensus ids.",
  [U+"consensus_util.go"],
  [("magic and components", U+"consensus_util.go MappedConsensusID")],
  "property testing against a reference encoder, with truncation",
  "Component sizes up to a few hundred bytes.")

p("C20", "Perfect hash tables find every key at its index and no other key",
  "A perfect hash table built from any list of distinct keys is built in bounded time, and finds each of them at its position in the list. "
  "A key that is not in the list is never found when the table verifies by key, and only with negligible probability when it verifies by hash, even one made to collide under guessable seeds; the empty table finds nothing.",
  ["inputs"], "every list of distinct keys of any size, in either verification mode, every key looked up",
  "The stable build tests use a few fixed words and one dictionary of single word keys; sub keys that are permuted, shared or missing, and sizes around powers of two, are not covered.",
  [U+"mph_util.go", U+"key_util.go"],
  [("two level displacement build", U+"mph_util.go MPHBuild"), ("lookup and verification", U+"mph_util.go Lookup"), ("hash of keys", U+"key_util.go HashUint32")],
  "property testing against the list as the model, with a bound on hashing",
  "Up to 3000 keys.")

p("C21", "Encoded perfect hash tables decode to tables with the same answers",
  "A perfect hash table decodes from its encoding, whatever follows, to one that answers every lookup as the original and encodes to the same bytes, each time, whatever was done with those of before. "
  "Strict prefixes of an encoding are rejected with an error.",
  ["inputs"], "every table, every key looked up, every cut and everything that may follow",
  "TestSerializeHash and TestSerializeKey decode one fixed table each, with nothing behind it.",
  [U+"mph_util.go"],
  [("table encoding", U+"mph_util.go Encode"), ("table decoding", U+"mph_util.go NewMPHTable")],
  "round-trip property testing, decoded table against the original",
  "Up to 600 keys.")

p("C22", "Base 58 text round-trips every byte string and rejects foreign characters",
  "Every byte string, with its leading zeros, encodes to its standard base 58 text and decodes back to itself; every text over the alphabet decodes to bytes that encode to that text. "
  "A text with any other character is rejected.",
  ["inputs"], "every byte string and every text",
  "No stable test touches base 58.",
  [U+"base58_util.go"],
  [("conversion by big integers and leading zeros", U+"base58_util.go Base58Encode, Base58Decode")],
  "round-trip and differential property testing",
  "Byte strings up to 200 bytes; the reference uses long division.")

p("C23", "Saved key pairs load back with their secret only, per class and identity",
  "A key pair saved for a class and identity loads back as the same public and private key with the secret it was saved with, until it is saved over; another secret, a secret of an invalid length, or a pair never saved gives an error, and classes and identities do not affect each other. "
  "The private key is encrypted on disk with a fresh nonce and not readable by others; files carry the documented checksum, and failures to write, or of the random source, are reported.",
  ["histories", "inputs", "fault_sequences"], "every history of saving and loading over all classes, every key including those with leading zeros, every secret, obstacles in the file system",
  "TestLCKeyGen saves and loads one key pair with one secret.",
  [U+"lc_util.go", U+"ecdsa_util.go", C+"util.go"],
  [("saving and loading", U+"lc_util.go lc_save_key_pair, lc_load_pub_key, lc_load_priv_key"), ("authenticated encryption and checksum", U+"lc_util.go"), ("fixed width numbers", C+"util.go BigIntToByteArray")],
  "model-based stateful property testing, files decoded by a reference",
  "The key directory is redirected to a scratch directory when building; not atomic across crashes (not claimed).")

p("C24", "Damaged key files are reported, never loaded as a different key",
  "Whatever happens to the content of a key file (bits flipped, cut, extended, emptied, replaced), loading it gives an error or the very key that was saved, and never panics. "
  "For a private key file this holds even if the checksum was made to fit; the other file of the pair still loads.",
  ["fault_sequences", "inputs"], "every damage to either file of every key pair",
  "No test loads a damaged file.",
  [U+"lc_util.go"],
  [("hex dump and checksum", U+"lc_util.go lc_load_key_data"), ("authenticated decryption", U+"lc_util.go lc_load_priv_key"), ("curve check", U+"lc_util.go lc_load_pub_key, "+U+"ecdsa_util.go")],
  "fault-injecting property testing of stored files",
  "Damage that keeps the checksum by chance (2^-32) is not considered.")

p("C25", "Restored keys sign and verify, and nothing else verifies",
  "A private key restored from its number, and a public key restored from its X coordinate alone, are the same as the generated ones; a signature by the private key over any hash is accepted by every form of the public key. "
  "It is refused for another hash (in its first 256 bits), another signature number (but for the negative of the second), or another key, and X coordinates off the curve give no key.",
  ["inputs"], "every private key, every hash, every single change to hash, signature or key",
  "TestECDSAGenerateKey signs and verifies with one generated key, whose restored form differed for half of all keys.",
  [U+"ecdsa_util.go"],
  [("key generation with canonical Y", U+"ecdsa_util.go ECDSAGenerateKey"), ("Y from X", U+"ecdsa_util.go ECDSACalculateY, ECDSAGetPublicKey"), ("signing", U+"ecdsa_util.go ECDSASign, ECDSAVerify")],
  "property testing against an independent point computation, with negative cases",
  "The standard library's curve and ECDSA are trusted.")

p("C26", "Random numbers stay within their range and reach all of it",
  "A random number drawn from a range of any integer type is at least the lower bound and below the upper bound, for every range of the type; every value of a narrow range comes up, and wide ranges give varied values. "
  "Unrestricted draws vary in every bit.",
  ["inputs"], "every range of each of eight integer types, including those across zero and up to the extremes",
  "TestRandInt32 checks a single range of one type.",
  [U+"rand_util.go"],
  [("ranges", U+"rand_util.go RandXxxRange"), ("source", U+"rand_util.go RandXxx")],
  "statistical property testing of ranges with boundary-biased bounds",
  "The random source is replaced by a reproducible one where the code lets it.")

p("C27", "A trie behaves as a map from keys to values over any history",
  "After any history of setting, removing and getting, a trie returns for each key the value last set and not removed since, and nothing otherwise; setting and removing return the previous value. "
  "Keys that are prefixes of each other, and the empty key, do not affect each other.",
  ["histories", "inputs"], "every history over keys nested in each other in any way",
  "No stable test touches tries.",
  [U+"trie_util.go"],
  [("descent by sub key", U+"trie_util.go Trie.Get, Trie.Set"), ("clean up of unused nodes", U+"trie_util.go Trie.Set"), ("children", U+"trie_util.go TrieNode over "+C+"sorted_map.go")],
  "model-based stateful property testing against a map model",
  "Histories of up to 60 operations over nested keys of up to 12 sub keys.")

p("C28", "Trie iteration visits exactly the entries in bounds, in key order",
  "Iterating a trie, entirely, below a key, or over a range of keys (start inclusive, end exclusive, either may be absent or missing from the trie), visits every entry within the bounds exactly once in key order with its value, and no key outside the bounds or removed. "
  "Peek returns what comes next without advancing, has-next is true exactly while something is left, an exhausted iterator keeps returning nothing, and a start above the end is refused.",
  ["histories", "inputs"], "every trie content, every kind of bounds, every interleaving of next, peek and has-next",
  "No stable test touches trie iterators.",
  [U+"trie_util.go"],
  [("depth first walk", U+"trie_util.go TrieKeyIterator"), ("bounds", U+"trie_util.go TrieRangeIterator"), ("children in order", C+"avl.go")],
  "model-based stateful property testing against a filtered sorted model",
  "Keys without a value that lie on the path to an entry may be visited with no value; the trie does not change during a walk.")

p("C29", "Digests and cipher key padding are the standard ones for every input",
  "Single and double SHA-256 and MD5 digests equal the standard ones for every input, and padding to a cipher key keeps short inputs zero padded and the last 16 bytes of longer ones. "
  "The input is never changed, and a result stays as it is whatever is computed later.",
  ["inputs"], "every byte string",
  "No stable test compares digests or padding with anything.",
  [U+"ecdsa_util.go"],
  [("digests", U+"ecdsa_util.go SumSHA256, SumSHA256d, SumMD5"), ("padding", U+"ecdsa_util.go AESPad")],
  "differential property testing against the standard library",
  "Inputs up to 70000 bytes.")

p("C30", "The key generator makes usable keys and never touches others unasked",
  "A successful run of the key generator prints the public key and leaves one new key pair of the requested class that loads with the passphrase, also at the prompt, and with no other; a requested alias leads to it. "
  "A run with an unknown class, a short or wrongly repeated passphrase, an alias that is a key or one of its files, or a taken alias (even one whose key is gone) whose replacement is neither forced nor confirmed fails and changes nothing, and no run changes other keys or aliases. A key pair saved at the prompt loads likewise, and a passphrase refused there saves nothing.",
  ["histories", "inputs", "fault_sequences"], "every history of runs with any arguments, answers and passphrases, including input that ends early or is all there at once",
  "No test runs the key generator.",
  ["src/main/pkeygen.go", U+"lc_util.go", U+"ecdsa_util.go"],
  [("arguments, alias and overwrite question", "src/main/pkeygen.go"), ("passphrase prompt", U+"lc_util.go PromptPassphrase, PromptText, LCLoadPrivKeyPrompt"), ("key files", U+"lc_util.go")],
  "end-to-end stateful property testing of the program against a model of the key directory",
  "Input comes from a pipe; the key directory is redirected to a scratch directory when building.")

p("C31", "Diagnostics go where they were last directed, every time",
  "After any sequence of directing diagnostics to standard output or to the temporary log file, each message appears once, in order, in the place selected last and nowhere else; what the file held before, and what others write to it meanwhile, stays, and failing to open it is reported and leaves diagnostics where they went.",
  ["histories"], "every sequence of selections and messages",
  "No test selects where diagnostics go.",
  [U+"lc_util.go"],
  [("selection of the log output", U+"lc_util.go LCSetLoggerStdout, LCSetLoggerFileTmp")],
  "stateful property testing against a model of both outputs",
  "The temporary log file is redirected to a scratch directory when building.")

p("C32", "A trie decodes from its encoding to the same keys and values",
  "After any history of edits and encodings, encoding a trie and decoding the bytes, whatever follows them, gives a trie with the same value for each key and none for others, whose iterators (entire, below a key, over a range) visit the same entries in the same order; exactly the encoding is taken, and it depends only on the keys and values the trie holds; only an encoded trie gives one. "
  "Cut off encodings and values that do not fit are refused, damaged ones never panic and, if accepted, read consistently; copies of a trie hold the same and are independent of it, and so is what was encoded before.",
  ["histories", "inputs", "crash_points"], "every trie content and history, every value type, every cut and damage of the encoding",
  "No stable test encodes a trie.",
  [U+"trie_util.go"],
  [("encoding of nodes and of the whole trie", U+"trie_util.go Trie.Encode, TrieNode.Encode"), ("decoding", U+"trie_util.go MappedTrie.Decode, MappedTrieNode.Decode"), ("copies", U+"trie_util.go Trie.Copy, Trie.CopyConstruct, MappedTrie.Copy")],
  "round-trip, metamorphic and mutation-based property testing",
  "An empty value is the same as none once encoded; values are constructed ones (decoded values cannot be encoded again, by design).")

p("C33", "Printing shows every element once, indented, and changes nothing",
  "Turning a key, sorted tree, hash table or trie into a string gives one line, without indent; printing it gives lines that end in a return and start with at least the given indent: first the object, and then each element exactly once, 4 deeper than what it belongs to (sub keys of a key, entries of trees below their parent and of hash tables below what they are chained to, nodes of tries below the node above, in key order). "
  "Neither fails for any content or indent, encoded or not, nor changes the object.",
  ["histories", "inputs"], "every content reachable by edits, every indent",
  "Tests print, but look at nothing that is printed.",
  [C+"object.go", C+"avl.go", C+"hash.go", U+"key_util.go", U+"trie_util.go"],
  [("contract of printing", C+"object.go IPrintable"), ("collections", C+"avl.go Print, ToString, "+C+"hash.go Print, ToString"), ("keys and tries", U+"key_util.go Print, ToString, "+U+"trie_util.go Print, ToString")],
  "model-based property testing of the printed text",
  "Keys and values of collections whose own text is one line.")

p("C34", "Encoding state is honest: what is not encoded or not decoded is not readable",
  "A constructed key, value, record or scheme can be read at any time, and says it is encoded exactly when its bytes and magic are readable, which then are the encoding of what it was given (elements changed after that show once it is encoded again); decoding it is refused. A decoded one (also simple values and tries) says it is encoded and decoded; decoding it again takes the same length, and trying to encode or copying it leaves it as it is. "
  "Before it is decoded, and after decoding has failed, it says so, and each accessor panics instead of giving something.",
  ["histories", "inputs"], "every history of editing, encoding, decoding and copying of every content, every cut of a scheme",
  "Tests encode and decode each object once and read it once.",
  [U+"encodable.go", U+"key_util.go", U+"value_util.go", U+"record_util.go", U+"scheme_util.go", U+"trie_util.go"],
  [("the contract", U+"encodable.go IEncodable"), ("state of built objects", U+"*_util.go Encode, IsEncoded, Buf and the editing methods"), ("state of decoded objects", U+"*_util.go Decode, IsDecoded and the accessors")],
  "stateful model-based property testing",
  "Values without content decoded from no bytes are not claimed; a built trie's state is decided by C32.")

p("C35", "Trie nodes keep their place, key, value and children, and so do their copies",
  "However a hierarchy of trie nodes is put together (children put, replaced and removed, values set, nodes encoded), each node gives for a key the child last put there (nothing once removed), the children in key order, its parent, its value, the full key that leads to it, and says it is encoded, and gives its bytes, only while nothing changed; iterators over the nodes visit them in key order. Encoded nodes decode one by one, each below its parent, to the same hierarchy, which refuses changes, cut nodes and a second node of the same key. "
  "A copy of a node reads as the original with all below it, can be printed, and neither shows what is changed in the other.",
  ["histories", "inputs"], "every history of putting, removing, setting, encoding and copying nodes by hand; every cut of a node",
  "No test builds a trie node, and tries only use a part of what nodes offer.",
  [U+"trie_util.go"],
  [("nodes by hand", U+"trie_util.go TrieNode"), ("decoded nodes", U+"trie_util.go MappedTrieNode"), ("iterators over nodes", U+"trie_util.go NewTrieKeyIterator, NewTrieRangeIterator")],
  "stateful model-based property testing",
  "Nodes put below another parent or key than the ones they were made for, and empty sub keys (Key.Add refuses them), are not claimed.")

p("C36", "Goroutines do not disturb each other",
  "Goroutines which each work on objects of their own (collections, keys, values, records, tries, tables, base 58 text, digests, keys and signatures, key files of their own ids, random numbers) each get exactly what they would get alone. "
  "An object that nothing changes can be read by any number of goroutines at once, in every way it can be read, each getting what one reader gets. "
  "Neither is a data race.",
  ["schedules", "histories"], "every two to five histories at once over separate objects, every set of readings at once of one object, under many schedules",
  "The tests run nothing at once.",
  [C+"*.go", U+"*.go"],
  [("no state shared between objects", U+"*_util.go, "+C+"*.go package variables"), ("reading changes nothing", U+"*_util.go accessors, "+C+"avl.go, hash.go Get, Has, Iterator"), ("shared random source", U+"rand_util.go, ecdsa_util.go")],
  "differential property testing of concurrent histories under the race detector",
  "Schedules are those the Go scheduler gives. Arrays and record lists that were decoded decode their elements at the first access, and building objects encode what is below them: these are not claimed for readers at once, nor is where diagnostics go.")

p("C37", "Decoders take exactly the documented formats, and read what the bytes say",
  "Given any bytes, each decoder (numbers, byte strings, keys, values, simple values, records, schemes, consensus times and ids, perfect hash tables, tries) accepts them exactly when they begin with a well-formed encoding of its format: no unknown or contradictory magic, nothing missing, truncated, too large or too often there. "
  "What it accepts it takes to the length the format gives, and every part, at every level, reads as the bytes say; an element that is malformed is an error when it is read, and only then.",
  ["inputs", "fault_sequences"], "every byte string, in particular every encoding, with the bytes around it and any damage",
  "Tests decode only what they have just encoded, so neither what is refused nor what other encoders write is seen.",
  [U+"misc_util.go", U+"key_util.go", U+"value_util.go", U+"record_util.go", U+"scheme_util.go", U+"consensus_util.go", U+"mph_util.go", U+"trie_util.go"],
  [("magic bytes", U+"value_util.go, record_util.go, consensus_util.go Decode"), ("lengths and counts", U+"*_util.go Decode"), ("hierarchy", U+"trie_util.go MappedTrie.Decode")],
  "structure-aware fuzzing against reference decoders",
  "Where the format leaves a choice (reserved bits, numbers longer than needed inside a structure, table sizes that are no power of two), acceptance is not judged, only what is accepted is compared.")

p("C38", "File helpers write exactly what they are asked to, and report failures",
  "Opening a file by name creates it in the temporary directory, or empties it whatever it held. "
  "Each write puts exactly the given number of zero bytes where this file handle has come to, and nothing else of the file changes, whoever else writes it; it is all there as soon as the call returns, and stays when the file is synchronised or closed. "
  "What cannot be opened, written or synchronised (a directory, a closed file) panics.",
  ["histories"], "every history of opening, writing, synchronising and closing files, with others writing them",
  "The benchmarks measure speed and look at no file.",
  [U+"fsync.go"],
  [("file helpers", U+"fsync.go Open, Write, Sync, Close")],
  "stateful model-based property testing",
  "Power failures are not simulated: that bytes are on the disk once synchronised is left to the system.")

exec(open(os.path.join(root, "tools", "more.py")).read()) if os.path.exists(os.path.join(root, "tools", "more.py")) else None

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]], "hook_needed": None}}) + "\n")

json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{"property": x["id"], "quick_cmd": "./run.sh %s quick" % x["id"], "thorough_cmd": "./run.sh %s thorough" % x["id"],
                "evidence_file": "evidence/%s.json" % x["id"], "technique": x["technique"], "level": "exploration", "level_note": x["note"]} for x in P],
    "not_applicable": [],
    "notes": "Every check builds the harness from /verif/harness against /repo's working tree in a scratch directory; nothing in /repo is hooked. KNOWN_FINDINGS.txt lists recorded and repaired defects.",
}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
