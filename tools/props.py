# The properties, one entry each: properties.jsonl and MANIFEST.json come from here (tools/gen.py).
I, H, F, S, C, P = 'inputs', 'histories', 'fault_sequences', 'schedules', 'configurations', 'programs'
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), level='model_checking', technique='', note='', claimed=True, reason=''):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      observe=observe, state=state, level=level, technique=technique, note=note, claimed=claimed, reason=reason))


ENUM = 'bounded-exhaustive explicit enumeration of the real code against a reference model (stateless model checking)'
HIST = 'bounded-exhaustive exploration of operation histories of the real code in lockstep with a reference model'

# ---------------------------------------------------------------- bit sets
prop('B01', '256-bit sets behave as mathematical sets over any history of operations',
     'A 256-bit set is exactly the set of the small integers put in and not taken out: membership, counting, listing, union, intersection, equality, subset and ordering answer as for the mathematical set of the 256 byte values. Combining two sets changes neither of them, and a clone is independent of its original.',
     [I, H], 'every element 0..255, pairs of sets of every pattern, every history of operations up to a depth',
     'The tests check a handful of bits and random sets; word boundaries, orderings of pairs and histories with aliasing clones are beyond samples.',
     ['pkg/bitset256/bitset256.go'], [('one bit per element, four 64-bit words', 'pkg/bitset256/bitset256.go')],
     ['Get/Set/Reset/Toggle, Union/Intersect, Equals/Less/IsSubsetOf, Count/Indices'],
     technique=HIST, note='All elements and all pairs of patterns within the bounds; the order is checked to be total, transitive and consistent with equality.')
prop('B02', 'Serialized 256-bit sets read back to the same set, and nothing else does',
     'Writing a set as bytes or as hexadecimal text and reading it back gives the same set; different sets have different forms. Input of the wrong length or with non-hexadecimal characters is refused and never panics.',
     [I], 'every set of up to two elements and patterns, every byte at every place, malformed texts and lengths',
     'The tests read back a few fixed sets.',
     ['pkg/bitset256/bitset256.go'], [('AsBytes/FromBytes, AsHex/FromHex, text marshalling', 'pkg/bitset256/bitset256.go')],
     ['the written forms and what reading them gives'], technique=ENUM, note='Does not claim the documented numeric order of the bytes: an existing test pins another one (see DESIGN.md).')
# ---------------------------------------------------------------- addresses
prop('D01', 'Generated addresses are well formed, deterministic and valid for their kind',
     'Generating an address from enough key data and a valid kind gives 48 characters of the ndau alphabet that begin with the network prefix and the kind, carry a correct checksum, and depend only on the data and the kind. Every such address validates as what it is; too little data and unknown kinds are refused. Different key data or kinds give different addresses.',
     [I], 'every kind byte, data of every length up to a bound and every value of each byte, against an independent computation of the address',
     'The tests generate a few addresses and check prefixes.',
     ['pkg/address/address_impl.go', 'pkg/address/address.go', 'pkg/b32/b32.go', 'pkg/b32/checksum.go'], [('sha256 of the data, 26 bytes, with a 16-bit checksum, in base 32', 'pkg/address/address_impl.go')],
     ['Generate, Validate, ParseKind, Kind', 'b32 Encode/Decode/Checksum16/Check'], technique=ENUM, note='Generation is compared byte for byte with a reference written from the documentation.')
prop('D02', 'Corrupted addresses are rejected',
     'An address with any one character replaced, two neighbouring characters swapped, or any error within 16 consecutive bits never validates, and neither does one which is longer or shorter or has white space, padding or other foreign characters in it. Upper and lower case letters mean the same.',
     [I], 'every single-character error (all 256 bytes at all 48 places), every swap, every burst of up to 16 bits, every combination of three flipped bits, every insertion and deletion, over several addresses',
     'The tests try one or two typos; the guarantee is about all of them.',
     ['pkg/address/address_impl.go', 'pkg/b32/checksum.go', 'pkg/b32/b32.go'], [('16-bit checksum over the address bytes, length and alphabet checks', 'pkg/address/address_impl.go')],
     ['Validate'], technique=ENUM, note='Exhaustive for the error classes named, over the base addresses used.')
prop('D03', 'An address has one canonical value however it was spelled or carried',
     'Validating any accepted spelling of an address gives the same canonical lower-case value, so that equal addresses compare equal and hash equal. Carrying an address as text, JSON or message pack keeps that value, and refuses what does not validate where it is parsed from text, and message pack of another shape.',
     [I], 'every letter-case change of single characters and patterns, every kind, near misses, every carrier, addresses which differ in one character read one after the other',
     'The tests check lower-case addresses only.',
     ['pkg/address/address_impl.go', 'pkg/address/address.go', 'pkg/address/address_gen.go'], [('canonicalisation in Validate and UnmarshalText', 'pkg/address/address_impl.go')],
     ['Validate, String, MarshalText/UnmarshalText, MarshalMsg/UnmarshalMsg'], technique=ENUM, note='Exhaustive for the spellings named, over the base addresses used.')
# ---------------------------------------------------------------- words
prop('W01', 'Every byte string becomes recovery words and back without loss',
     'Writing any bytes as recovery words uses the fixed 2048-word list, the documented 11-bit grouping and the checksum in the last word; reading the words gives the bytes back. Arguments are not changed, and unknown languages are refused.',
     [I], 'every byte string of up to 2 bytes, every length up to a bound with every value of every byte, every value of the final bytes of 16- and 32-byte seeds',
     'The tests try some random lengths; the checksum and the padding depend on every length and every bit.',
     ['pkg/words/words.go', 'pkg/words/english.go'], [('bit packing in groups of 11 with a crc in the last word', 'pkg/words/words.go')],
     ['FromBytes, ToBytes'], technique=ENUM, note='Where the format itself is ambiguous (two byte strings with one word list, a known finding) the shorter one is expected.')
prop('W02', 'Word lists which no bytes encode to are rejected',
     'A list of recovery words is accepted exactly if some byte string encodes to it; a list with a wrong word, a wrong checksum, words swapped, dropped or doubled, or with a non-word in it is otherwise refused, and no list whatever makes the reader panic.',
     [I], 'every list of up to 2 words, every word in every place of encodings of 1..33 bytes, every swap, drop and doubling, every word count to 40',
     'The tests try a few invalid lists.',
     ['pkg/words/words.go'], [('checksum comparison and run lengths in ToBytes', 'pkg/words/words.go')],
     ['ToBytes'], technique=ENUM, note='Acceptance is compared with a reference decoder for every list enumerated.')
prop('W03', 'Prefix lookup lists exactly the matching words in order',
     'Looking up a prefix gives, in list order, exactly the words which begin with it, all of them or the first so many as asked for; a prefix of no word gives nothing, and no prefix or limit makes it panic.',
     [I], 'every prefix of every word, one letter beyond, every string of 1 and 2 bytes, against every limit class',
     'The tests look up three prefixes.',
     ['pkg/words/words.go'], [('scan of the sorted list', 'pkg/words/words.go')], ['FromPrefix'], technique=ENUM, note='Exhaustive over the prefixes of all words.')
# ---------------------------------------------------------------- signatures
prop('S01', 'Keys and signatures survive every serialization unchanged',
     'A key or signature written as bytes, message pack or text has exactly the documented bytes and reads back, into a fresh or a used object, with the same algorithm, key bytes and extra bytes. Later changes of the input buffer do not change what was read, and the announced message size is never too small.',
     [I], 'every algorithm, public and private, extra data of every length up to a bound, every written and read form, fresh and used receivers',
     'The tests round-trip a few generated keys without extra bytes.',
     ['pkg/signature/keybase.go', 'pkg/signature/public_key.go', 'pkg/signature/private_key.go', 'pkg/signature/signature.go', 'pkg/signature/container.go', 'pkg/signature/container_gen.go'],
     [('identified container with algorithm id and packed data', 'pkg/signature/algorithm.go'), ('checksum fitted to 5 bytes, base 32', 'pkg/signature/checksum.go')],
     ['Marshal*/Unmarshal*, FullString, ParseKey and friends'], technique=ENUM, note='The written bytes are compared with a reference encoder.')
prop('S02', 'Malformed keys and signatures are refused, never accepted and never a panic',
     'Reading bytes or text as a key or signature succeeds only for input some key or signature is written as (in any msgpack spelling of the same container): unknown algorithms, wrong sizes, truncation, trailing data and wrong prefixes are errors. No input makes a reader panic.',
     [I], 'every single-byte change, every truncation and extension, every container header of two bytes, every algorithm id, texts with every character changed, re-checksummed corruptions; parts of every length given to the constructors, for the four kinds of algorithm and some of the caller\'s own',
     'The tests check one or two bad inputs; panics hide in the rest.',
     ['pkg/signature/algorithm.go', 'pkg/signature/keybase.go', 'pkg/signature/public_key.go', 'pkg/signature/private_key.go', 'pkg/signature/signature.go', 'pkg/signature/checksum.go'],
     [('size and leftover checks after unpacking', 'pkg/signature/keybase.go')],
     ['Unmarshal, UnmarshalMsg, UnmarshalText, Parse*'], technique=ENUM, note='Acceptance is compared with a reference parser for every input enumerated.')
prop('S04', 'Text checksums detect transcription errors',
     'Adding a checksum to any bytes makes a length that fills base 32 exactly, and checking it gives the bytes back. Data with any byte changed, truncated, or with a checksum narrower or wider than documented does not pass, and no bytes make the check panic.',
     [I], 'every data length up to a bound, every value of every byte of checksummed data, every claimed width',
     'The tests flip the low bit of some characters.',
     ['pkg/signature/checksum.go', 'pkg/b32/b32.go'], [('3 to 7 bytes of sha224 with their count in front', 'pkg/signature/checksum.go')],
     ['AddChecksum, CheckChecksum'], technique=ENUM, note='A 24-bit or longer hash: a changed input could pass with probability 2^-24; all inputs enumerated were refused.')
# ---------------------------------------------------------------- hierarchical keys
prop('K01', 'Private key derivation follows BIP-32 for every seed, path and key',
     'A seed of 16 to 64 bytes, and no other, makes the master key which BIP-32 with ndau\'s constants gives it; each child, normal or hardened, has exactly the private key, chain code, depth, number and parent fingerprint BIP-32 gives it. Keys always have 32 bytes, however small their value; derivation ends with an error at depth 255.',
     [I, H], 'seeds of every length 0..80, every path of up to 3 (thorough 4) steps over 14 child numbers, all child numbers of one or two bits, private keys at the edges of the range, keys with leading zero bytes, chains to depth 255',
     'The tests derive a few keys and compare them with themselves; wrong arithmetic for rare key values (leading zeros, near the group order) is invisible there.',
     ['pkg/key/extendedkey.go', 'pkg/bip32/bip32.go'], [('HMAC-SHA512 and addition modulo the group order', 'pkg/key/extendedkey.go'), ('padding of short keys', 'pkg/key/extendedkey.go')],
     ['NewMaster, Child, HardenedChild, PrivateToPublic'], technique=HIST, note='Compared with an independent implementation of BIP-32 and of the curve in big integers.')
prop('K02', 'Public derivation matches private derivation and never yields hardened keys',
     'Making a key public and deriving a normal child gives the same key, in all its fields, as deriving the child and making it public. A hardened child is never derived from a public key, nor is a normal child ever given where a hardened one was asked for; private material is never obtained from a public key.',
     [I, H], 'every path of up to 3 (thorough 4) steps with the step to public anywhere, all child numbers of one or two bits, keys at the edges of the range',
     'The tests compare one or two children.',
     ['pkg/key/extendedkey.go', 'pkg/bip32/bip32.go'], [('point addition for public parents', 'pkg/key/extendedkey.go'), ('hardened check', 'pkg/key/extendedkey.go')],
     ['Public, Child, HardenedChild, SPubKey, SPrivKey, ECPubKey, ECPrivKey'], technique=HIST, note='Both sides are also compared with an independent BIP-32.')
prop('K03', 'Path derivation composes and follows the path grammar',
     'Deriving by path from a parent path to a child path gives the key which the remaining steps, one by one, give; it needs the parent path to be a proper prefix of the child path and both to follow the grammar, and otherwise fails. Deriving in several stages and in one gives the same key, and the starting key is left unchanged.',
     [I], 'every string of up to 6 (thorough 7) symbols of the path alphabet as parent and as child, every pair of paths of up to 3 steps over 5 elements, paths of many steps, boundary numbers',
     'The tests parse ten paths and derive one.',
     ['pkg/key/path.go'], [('regular expression and prefix test', 'pkg/key/path.go')], ['DeriveFrom'], technique=ENUM, note='Acceptance and the resulting key are compared with a reference parser and BIP-32.')
prop('K04', 'Operations on one key never change another key',
     'Whatever sequence of derivations, conversions, serializations, reloads and clearings is performed, each extended key and signature key continues to hold what was last put in it; clearing or reloading a key affects that key only. A key that was cleared and loaded again behaves as a fresh one.',
     [H], 'every history of up to 4 (thorough 5) operations on a private key and everything made from it, comparing all live objects after every operation; every operation on keys cleared, never filled or left by a failed read',
     'Aliasing and stale caches need particular sequences of operations; no test performs them.',
     ['pkg/key/extendedkey.go', 'pkg/signature/keybase.go'], [('memoized public key, copies of the byte slices', 'pkg/key/extendedkey.go')],
     ['every accessor of extended and signature keys'], technique=HIST, note='Exhaustive over the operation alphabet to the depth given.')
prop('K05', 'Extended keys survive serialization, new and old, and bad ones are refused',
     'The text of an extended key reads back to the same key with its depth, number, fingerprint and chain code, also into a key used before. The previous serialization of any valid key converts to that key; wrong lengths, wrong checksums, changed characters, and keys out of range or off the curve are refused, as are texts of other kinds of key.',
     [I], 'keys at the edges in all fields, every character of the old and new texts replaced by every byte, every payload length, every first byte, small and large x coordinates',
     'The tests contain one old key.',
     ['pkg/key/convert_serialization.go', 'pkg/key/extendedkey.go'], [('extra data layout', 'pkg/key/extendedkey.go'), ('checksum, range and curve checks', 'pkg/key/convert_serialization.go')],
     ['MarshalText, UnmarshalText, FromSignatureKey, AsSignatureKey, FromOldSerialization'], technique=ENUM, note='Compared with a reference encoder; x coordinates not below the field prime are left to the curve library.')
prop('K06', 'Seeds use exactly the randomness they were given or fail',
     'A seed of a permitted length consists of the first bytes its random source delivers, in whatever portions it delivers them. If the source fails before it delivered enough, making the seed fails; lengths outside 16..64 are refused. Without a source the system\'s is used and fills the whole seed.',
     [F, I], 'every length 0..255, every chunking to 70 bytes, every number of bytes before a failure, three kinds of failure, empty reads',
     'The tests never use a source which delivers in portions or fails.',
     ['pkg/bip32/bip32.go'], [('io.ReadFull', 'pkg/bip32/bip32.go')], ['GenerateSeed'], level='fault_enumeration',
     technique='exhaustive enumeration of short reads and failures of the random source', note='Every chunk size, failure point and failure kind within the bounds.')
prop('S03', 'Signatures verify exactly for their own message and key',
     'A signature made with a private key over any message verifies with the matching public key, and is the same every time. With any other message, key or signature bytes, or a key or signature of another algorithm or of none, verification answers false; it never panics. The algorithms are Ed25519 and ECDSA over secp256k1 and sha256, as other implementations have them.',
     [I], 'messages of every length up to a bound and around block sizes, keys at the edges, every flipped bit of messages and of signature numbers, every truncation, all pairs of keys, messages and signatures, keys which are none',
     'The tests sign and verify a few random messages; leniency shows only for particular malformed input.',
     ['pkg/signature/public_key.go', 'pkg/signature/private_key.go', 'pkg/signature/algorithms/secp256k1/secp256k1.go', 'pkg/signature/algorithms/ed25519/ed25519.go'],
     [('algorithm comparison before verification', 'pkg/signature/public_key.go'), ('deterministic ECDSA over sha256', 'pkg/signature/algorithms/secp256k1/secp256k1.go')],
     ['Sign, Verify, Generate'], technique=ENUM, note='Verification is compared with crypto/ed25519 and a big-integer ECDSA; lenient DER framing of the curve library is left out.')
prop('S05', 'Registered algorithms keep their ids, their names and each other apart',
     'After any sequence of registrations each id denotes the algorithm first registered under it, each algorithm is written with its own id and reads back as itself, and the built-in algorithms remain as they were. A registration which would take an id or an algorithm name already taken is refused and changes nothing.',
     [H], 'every sequence of 2 (thorough 3) registrations of 5 algorithms under 9 ids, one registration under every id; each in a process of its own',
     'The registry is global and has no way back, so a test process sees one history only.',
     ['pkg/signature/algorithm.go'], [('idMap and nameMap', 'pkg/signature/algorithm.go')], ['RegisterAlgorithm, marshalled keys, NameOf, SameAlgorithm'],
     technique=HIST, note='Anonymous and nil algorithms are left out.')
prop('S06', 'Generated key pairs use the randomness given, or generation fails',
     'Generating a key pair from a random source gives the pair which the bytes the source delivered determine, in whatever portions they came, and a failing source gives an error and no key. Without a source the system\'s is used; the two keys always belong together.',
     [F, I], 'both algorithms, chunks of 1..40 bytes, empty answers, failures of 3 kinds after every number of bytes, alone or with the last bytes',
     'The tests never let the random source fail.',
     ['pkg/signature/keybase.go', 'pkg/signature/algorithms/ed25519/ed25519.go', 'pkg/signature/algorithms/secp256k1/secp256k1.go'], [('reading the source', 'pkg/signature/algorithms/secp256k1/secp256k1.go')],
     ['signature.Generate'], level='fault_enumeration', technique='exhaustive enumeration of short reads and failures of the random source', note='Every chunk size, failure point and failure kind within the bounds.')
# ---------------------------------------------------------------- mobile and wasm
prop('Y01', 'The mobile API gives exactly what the underlying packages define',
     'Keys made, derived, converted, read and written through the string-based mobile API are the keys which BIP-32 and the documented text format give, at every step of any sequence of calls; addresses, signatures and words likewise. Negative child numbers, bad base64, bad keys and operations a public key cannot do are errors; no call changes the key it is made on, none panics.',
     [I, H], 'every sequence of up to 3 (thorough 4) calls over every method from 6 keys, all paths of two elements, child numbers of one and two bits, seeds and messages of every length up to a bound, damaged keys and word lists',
     'The tests compare about one example per method.',
     ['pkg/keyaddr/key.go', 'pkg/keyaddr/key_conv.go', 'pkg/keyaddr/signature.go', 'pkg/keyaddr/words.go'], [('string wrappers with base64', 'pkg/keyaddr/key.go')],
     ['every exported function of keyaddr'], technique=HIST, note='Compared with a reference implementation of BIP-32, addresses and words; base64 is Go\'s decoder.')
prop('J01', 'Every WebAssembly call is answered once and never stops the module',
     'A call of a function of the WebAssembly module with a callback last is answered by exactly one invocation of it, with the value the Go API gives for these arguments or with an error: wrong numbers or types of arguments and numbers outside 32 bits are errors. A call without a callback is reported to the error handler: the page\'s own, or the default one, which logs, if the page has none when it loads the module. Entries below the log level are not logged, errors given to callbacks are at any level. No call, alone, in a sequence or from within a callback, throws or stops the module, until exit is called.',
     [I, H], 'every function with every combination of 18 JavaScript values of all types, 0..5 arguments with the callback last or not, boundary numbers, every pair of 24 calls in sequence, nested and at every log level; every state of handler and level a page can have at the start',
     'The existing JavaScript tests call each function once or twice, and cannot be run in the Go suite at all.',
     ['cmd/keyaddr/handlers.go', 'cmd/keyaddr/helpers.go', 'cmd/keyaddr/main.go'], [('handleArgs', 'cmd/keyaddr/helpers.go'), ('one goroutine per call', 'cmd/keyaddr/handlers.go')],
     ['the functions of KeyaddrNS under node'], technique=HIST, note='The compiled module runs under node; throwing callbacks and exit from within a callback are left out, non-integer child numbers get one answer of either kind.')
# ---------------------------------------------------------------- arithmetic
prop('A01', 'Signed arithmetic gives the exact result or an error, never a wrong number',
     'Adding, subtracting, multiplying, dividing, taking remainders and multiplying-then-dividing signed 64-bit numbers gives exactly the mathematical result, rounded towards zero where it is a quotient, with the remainder\'s sign that of the dividend. A result outside 64 bits is an overflow error and a zero divisor a division error, both with the number 0.',
     [I], 'all pairs of some thousands of edge numbers, all small numbers, all triples of edge numbers for multiply-then-divide',
     'The tests compare some dozens of pairs; overflow boundaries are lines through the whole plane of operands.',
     ['pkg/signed/math.go'], [('overflow tests around each operation; 128-bit decimal context', 'pkg/signed/math.go')],
     ['Add, Sub, Mul, Div, Mod, DivMod, MulDiv'], technique=ENUM, note='Compared with math/big on every operand enumerated; the decimal library is replaced by the stand-in in shim/decimal.')
prop('A02', 'Unsigned arithmetic gives the exact result or an error, never a wrong number',
     'Adding, subtracting, multiplying, dividing, taking remainders and multiplying-then-dividing unsigned 64-bit numbers gives exactly the mathematical result, rounded down where it is a quotient. A result below zero or beyond 64 bits is an overflow error and a zero divisor a division error, both with the number 0.',
     [I], 'all pairs of some thousands of edge numbers, all small numbers, all triples of edge numbers for multiply-then-divide',
     'The tests compare some dozens of pairs; overflow boundaries are lines through the whole plane of operands.',
     ['pkg/unsigned/math.go'], [('overflow tests around each operation; 128-bit decimal context', 'pkg/unsigned/math.go')],
     ['Add, Sub, Mul, Div, Mod, DivMod, MulDiv'], technique=ENUM, note='Compared with math/big on every operand enumerated; the decimal library is replaced by the stand-in in shim/decimal.')
prop('A03', 'The exponential of a fraction is right to its last digits or an error',
     'ExpFrac of a numerator and a denominator, the numerator not above the denominator, gives e to that fraction times the denominator to within 3 units, for every denominator for which it does not refuse to answer; it answers for all denominators to 10^17. A numerator larger than the denominator is an error; nothing panics.',
     [I], 'all fractions of small denominators, edge numerators of edge denominators up to the largest, the limits of what is refused',
     'The tests compute a dozen fractions of one denominator; convergence and overflow depend on both numbers.',
     ['pkg/unsigned/exp.go', 'pkg/signed/exp.go'], [('Taylor series with a common denominator', 'pkg/unsigned/exp.go')], ['ExpFrac, of signed and unsigned numbers'],
     technique=ENUM, note='Compared with a 256-bit series; the bound of 3 units is of the order of the terms\' truncation.')
prop('A04', 'The integer logarithm gives the exact floor for every number',
     'LnInt of any number above zero is the largest whole number whose power of e does not exceed it, on both sides of every boundary up to the largest 64-bit number.',
     [I], 'every boundary and the numbers around it, all numbers up to a bound, all edge numbers',
     'The tests sample a few numbers, all far from the boundaries that rounding moves.',
     ['pkg/unsigned/log.go'], [('table of boundaries', 'pkg/unsigned/log.go')], ['LnInt'], technique=ENUM, note='Boundaries are computed with 256 bits.')
# ---------------------------------------------------------------- amounts and times
prop('T01', 'Arithmetic on amounts and timestamps is exact or an error',
     'Adding and subtracting amounts of ndau gives the exact amount or an overflow error. Adding a duration to a timestamp, or taking one from it, gives the exact moment, or the earliest or latest there is when it lies outside the range. The time between two timestamps is their exact difference, and absolute values (save that of the smallest amount, which has none) and comparisons agree with the numbers; nothing ever wraps around.',
     [I], 'all pairs of edge numbers', 'The tests check one or two sums; wrapping needs particular pairs.',
     ['pkg/types/ndau.go', 'pkg/types/timestamp.go', 'pkg/types/duration.go'], [('calls of pkg/signed', 'pkg/types')],
     ['Ndau.Add/Sub/Abs/Compare, Timestamp.Add/Sub/Since/Compare'], technique=ENUM, note='Compared with math/big.')
prop('T02', 'Amounts read and write as text exactly, or not at all',
     'The text of any amount has up to 8 decimals and reads as the number of ndau it is, sign included. Reading an amount gives exactly what the text says, and texts with too many decimals, too large a number or other characters are refused. What is written for an amount of zero or more reads back as that amount.',
     [I], 'ranges around zero and the limits, edge numbers, every short text over the number characters, long numbers with fractions and spaces, every byte inserted',
     'The tests parse some texts; overflow and lost signs show only for particular numbers.',
     ['pkg/types/ndau.go'], [('regular expression, whole and fractional parts', 'pkg/types/ndau.go')], ['Ndau.String, ParseNdau'], technique=ENUM,
     note='Reading negative amounts and the empty text is not claimed.')
prop('T03', 'Durations read and write as text exactly, or not at all',
     'The text of any duration lists years of 365 days, months of 30 days, days, hours, minutes, seconds and microseconds whose sum is the duration, sign included, and reads back as the same duration. Any text in that form gives exactly what it says, with unused parts left out, and texts of longer durations than there are or of another form are refused.',
     [I], 'ranges around zero, every unit and the limits, edge numbers, every subset of parts with 0..3 digits each, every short text', 'The tests read some dozens of texts, none near the limits.',
     ['pkg/types/duration.go', 'pkg/constants/constants.go'], [('regular expression and unit constants', 'pkg/types/duration.go')], ['Duration.String, ParseDuration, MarshalText/UnmarshalText'],
     technique=ENUM, note='Texts without any digit are not claimed.')
prop('T04', 'Timestamps and calendar dates agree, both ways, over the whole range',
     'A timestamp counts the microseconds since the beginning of the year 2000, UTC: its text, its time value and its parts are those of the calendar, leap years included, and a text or time value of a moment not before then reads as its count. Moments before the epoch and malformed texts are errors, as are times beyond the largest timestamp.',
     [I], 'every day for ten thousand years at its first and last microsecond, every second of some days, edge numbers, every damaged character of some texts', 'The tests convert a few dates of this century.',
     ['pkg/types/timestamp.go'], [('time.Duration arithmetic from the epoch', 'pkg/types/timestamp.go')], ['TimestampFrom, AsTime, ParseTimestamp, String'], technique=ENUM,
     note='Texts are claimed for the years 2000 to 9999; a sign behind the decimal point, which Go\'s own time.Parse accepts, is left out.')
prop('T05', 'Weighted average age follows its definition, within the limits or with an error',
     'After a deposit the weighted average age is the old age plus the time since the last update, weighted by the old balance\'s share of the new balance, cut to the microsecond; a withdrawal or no change leaves it only as much older as time passed. Along any history it stays within a microsecond per update of the exact average of the coins\' ages; an age or balance which cannot be represented is an error and leaves the age as it was.',
     [I, H], 'all combinations of edge ages, intervals, transfers and balances; every history of deposits, withdrawals and waiting to a depth', 'The tests compute a few cases.',
     ['pkg/types/duration.go'], [('MulDiv by the balances', 'pkg/types/duration.go')], ['UpdateWeightedAverageAge'], technique=HIST, note='Compared with rational arithmetic.')
# ---------------------------------------------------------------- EAI
prop('E01', 'Rates read and write as text exactly, or not at all',
     'The text of a rate of zero or more is its percentage with up to ten decimals and reads back as that rate; rates from percentages and rows of rate tables likewise. A text gives exactly the rate it says or is refused: when it has more decimals, no percent sign, or says more than the largest rate.',
     [I], 'ranges around zero, 1 %, 100 % and the limit, edge numbers, every short text over the characters of rates, long numbers, rows right and wrong', 'The tests read some rates, none near the limits.',
     ['pkg/eai/rate.go'], [('regular expression; percent and fraction', 'pkg/eai/rate.go')], ['Rate.String, ParseRate, RateFromPercent, RTRow.MarshalText/UnmarshalText'], technique=ENUM, note='Negative rates are not claimed.')
prop('E02', 'Rate tables give the rate and the slices of every window, frozen or not',
     'The rate of a table at a moment is that of the last row at or before it, and 0 before the first. The slices of any window, shifted by an offset (to ends which are durations) and frozen for its last part or not, list exactly the rates which the table gives during it, with durations that add up to the window; windows of no length have no slices. The default tables are the documented ones.',
     [I], 'every table with rows at some of 6 (thorough 8) moments and 4 patterns of rates, with every window, offset and freeze; tables of up to 100 rows at every row; the default tables around every boundary', 'The tests slice a few windows of one table.',
     ['pkg/eai/rate.go'], [('RateAt, Slice, SliceF', 'pkg/eai/rate.go')], ['RateTable.RateAt/Slice/SliceF, the default tables'], technique=ENUM, note='Compared with a pointwise definition; neighbouring slices of one rate count as one.')
prop('E03', 'EAI is the documented continuous growth of the balance for any account state',
     'The EAI of an account is its balance times e to the sum of rate times duration, less the balance, to within the rounding of the rate denominator: with the rates of its weighted average age while unlocked, of age plus notice period plus the bonus while locked, standing still between notice and unlock, and unlocked after. It is never negative, and an EAI or a factor beyond the largest number is an error.',
     [I, H], 'every table of up to 5 rows over months, every age, last calculation, block, notice period, bonus and notice; one microsecond around all boundaries; balances of every size, up to 45 years', 'The tests compute some examples; the regions of locked, notified and unlocked periods against the table\'s boundaries are beyond samples.',
     ['pkg/eai/eai.go', 'pkg/eai/rate.go', 'pkg/unsigned/exp.go'], [('calculateEAIFactor: slices of the rate table, ExpFrac', 'pkg/eai/eai.go')], ['Calculate'], technique=ENUM,
     note='Compared with an independent pointwise integration and a 256-bit exponential. Negative balances and rates, notices later than the block, and the legacy unlock flag after unlocking are not claimed.')
prop('E04', 'EAI does not depend on how often it is credited, along any account history',
     'Crediting EAI at any moments on the way gives the same balance as crediting it once, within rounding, over any history of waiting, deposits, locking, giving notice and unlocking; and the rate reported for a moment is the rate with which the time right after it is calculated.',
     [H], 'every history of 7 (thorough 8) account events; every account credited at each month', 'The tests never credit one account twice.',
     ['pkg/eai/eai.go', 'pkg/eai/rate.go', 'pkg/types/duration.go'], [('calculateEAIFactor', 'pkg/eai/eai.go'), ('CalculateEAIRate', 'pkg/eai/eai.go')], ['Calculate, CalculateEAIRate, UpdateWeightedAverageAge'],
     technique=HIST, note='Compared with the exact balance, kept with 256 bits along the history.')
# ---------------------------------------------------------------- prices
prop('P01', 'The price curve rises with every sale block, as documented, to its final price',
     'The price of the next ndau is the same for all of a block of 1000 ndau and higher in every next block up to the last: 2 to the 14/9999 per block to block 10000, right to 8 digits, 1 dollar in block 0 and 16384 in block 9999; then the documented cubic to within 3 dollars; from block 30000 on the final price of 500450.83. The old curve differs in its 10000 for 9999 only. Past prices are replayed, so every price is to the nanocent the one the documented integer method gives: a table of doublings, times a fixed ratio for each block after, and whole dollars for each term of the cubic.',
     [I], 'every sale block at its first and last napu, many amounts within, every edge amount, by each of the three functions', 'The tests compare the internal functions block by block, not what they are given; boundaries and dispatch are not covered.',
     ['pkg/pricecurve/pricecurve.go'], [('table of doublings and repeated ratio', 'pkg/pricecurve/pricecurve.go'), ('integer cubic', 'pkg/pricecurve/pricecurve.go')],
     ['PriceAtUnit, PriceAtUnit9999, PriceAtUnit10000'], technique=ENUM, note='Every sale block is visited; compared with a 320-bit root and the exact polynomial. Negative numbers sold are not claimed.')
prop('P02', 'The approximate price and its inverse agree for every price',
     'The floating-point price is the documented curve of the number of ndau sold, agrees with the integer price at every block\'s start, and its inverse gives for any price the greatest multiple of 1000 ndau, below 30 million, sold at less than it, or 0.',
     [I], 'every 10th (thorough: every) ndau to 30,010,000; every block\'s price, its floating-point neighbours and prices between', 'The tests look up five prices.',
     ['pkg/pricecurve/pricecurve.go'], [('binary search', 'pkg/pricecurve/pricecurve.go')], ['ApproxPriceAtUnit, ApproxUnitAtPrice'], technique=ENUM, note='The inverse is compared with a linear search.')
prop('P03', 'The total price charges each part of a sale block at that block\'s price',
     'The total price of an amount is the sum over the sale blocks it is taken from, beginning with what is left of the current one, of the part taken, fractions of an ndau included, times the price when the part\'s first ndau is sold. Buying in two parts of which the first ends a block costs the same as buying at once.',
     [I], 'amounts and numbers sold in steps of 1/48 (thorough 1/360) block, a napu more or less, at 19 places on the curve; splits; up to 40,000 blocks', 'The tests start at block boundaries and buy whole ndau only.',
     ['pkg/pricecurve/pricecurve.go', 'ExcelVBAndau.md'], [('loop over sale blocks', 'pkg/pricecurve/pricecurve.go')], ['ApproxTotalPriceFor'], technique=ENUM, note='Floating point, compared to a billionth.')
prop('P04', 'Dollar texts are read exactly or refused',
     'A text of an optional minus, an optional dollar sign, digits and 2 to 11 decimals, if any, with commas and underscores anywhere and spaces around, gives exactly the number of nanocents it says; everything else, and amounts beyond the largest number, is an error.',
     [I], 'every text of up to 7 (thorough 8) characters of the alphabet, long numbers around the limits with all signs and separators, every byte inserted', 'The tests read 30 texts, none large.',
     ['pkg/pricecurve/nanocent.go'], [('regular expression, dollars and cents', 'pkg/pricecurve/nanocent.go')], ['ParseDollars'], technique=ENUM, note='Compared with a reference reader.')
prop('G01', 'Amounts, times, prices, rates and rate tables survive message pack unchanged',
     'What is written of an amount, duration, timestamp, price, rate, row, table or slice as message pack is one value of the announced size or less, and reads back as the same, in memory or as a stream, into a fresh or a used object, leaving what follows. Anything else, numbers beyond 64 bits, short and wrong input, is an error; no input panics.',
     [I], 'edge numbers and ranges, every pair of edge numbers as rows, lists of 0..40 and around 65536 rows, every short byte string, every integer format, every byte at every place', 'The generated tests write zero values only.',
     ['pkg/types/ndau_gen.go', 'pkg/types/duration_gen.go', 'pkg/types/timestamp_gen.go', 'pkg/eai/rate_gen.go', 'pkg/pricecurve/nanocent_gen.go'], [('generated marshallers', 'pkg/*/*_gen.go')],
     ['MarshalMsg, UnmarshalMsg, EncodeMsg, DecodeMsg, Msgsize'], technique=ENUM, note='Compared with a reference reader of message pack. Lists of more than 65535 announced rows with less input are left out: the generated code allocates them first.')
# ---------------------------------------------------------------- concurrency
SCHED = 'systematic exploration of schedules (preemption bound 1 and 2) of the real code, instrumented with a change-over point before every statement and run under a controlled scheduler, with happens-before race detection'
prop('C01', 'Key, address, word and signature calls may run at the same time',
     'Calls made by several goroutines at the same time, each on values of its own or on shared values which nobody changes, give what each gives alone, also when they are the first calls of the program, and never access the same memory without synchronization. Left out are registering algorithms, and shared extended private keys, which remember their public key.',
     [S], 'every ordered pair of 33 operations, with every first change of thread at the first 3 and last visits of every statement; every operation with itself, with two changes; every operation first in its process',
     'No test runs two calls at once; nearly all races and stale values need a particular change of thread in a particular statement.',
     ['pkg/address/address_impl.go', 'pkg/b32/b32.go', 'pkg/b32/checksum.go', 'pkg/bip32/bip32.go', 'pkg/bitset256/bitset256.go', 'pkg/key/extendedkey.go', 'pkg/keyaddr/key.go', 'pkg/signature/key.go', 'pkg/signature/signature.go', 'pkg/words/words.go'],
     [('package-level tables, regular expressions and encodings', 'pkg/b32, pkg/words, pkg/key, pkg/signature')], ['results of every call, the race detector'],
     technique=SCHED, note='Two threads, at most two changes of thread, at statements of the packages of this repository; the race detector sees no order but the one which the code itself makes.')
prop('C02', 'EAI, price, amount and time calculations may run at the same time',
     'Calculations made by several goroutines at the same time, each on values of its own or on shared rate tables and locks which nobody changes, give what each gives alone, also when they are the first of the program, and never access the same memory without synchronization.',
     [S], 'every ordered pair of 14 operations, with every first change of thread at the first 3 and last visits of every statement; every operation with itself, with two changes; every operation first in its process',
     'No test runs two calculations at once.',
     ['pkg/eai/eai.go', 'pkg/eai/rate.go', 'pkg/pricecurve/pricecurve.go', 'pkg/pricecurve/nanocent.go', 'pkg/signed/math.go', 'pkg/unsigned/math.go', 'pkg/unsigned/exp.go', 'pkg/types/duration.go', 'pkg/types/ndau.go', 'pkg/types/timestamp.go'],
     [('package-level tables, decimal contexts and regular expressions', 'pkg/eai, pkg/pricecurve, pkg/signed, pkg/unsigned, pkg/types')], ['results of every call, the race detector'],
     technique=SCHED, note='Two threads, at most two changes of thread; the decimal library is a stand-in whose own steps are not interleaved.')
prop('F01', 'Message pack streams which fail are reported, and portions do not matter',
     'Writing an amount, time, price, rate, table, address or key container to a message pack stream either delivers all of its bytes or gives an error, whenever the underlying writer fails, once or for good. Reading one gives the value written, in whatever portions it arrives, or an error if the stream ends or fails before it is complete.',
     [F], 'every type, the buffer written out at every place of the value, a failure in every turn of the writer, once or for good; portions of several sizes and a failure after every number of bytes, alone or with the last bytes',
     'The tests write to memory and read from it: no stream ever fails, ends early or delivers in portions.',
     ['pkg/types/ndau_gen.go', 'pkg/types/duration_gen.go', 'pkg/types/timestamp_gen.go', 'pkg/eai/rate_gen.go', 'pkg/pricecurve/nanocent_gen.go', 'pkg/address/address_gen.go', 'pkg/signature/container_gen.go'],
     [('errors of the stream are returned at once', 'pkg/*/*_gen.go')], ['EncodeMsg, DecodeMsg'], level='fault_enumeration',
     technique='exhaustive enumeration of write failures, short reads and read failures of the streams', note='Every failure point of every value enumerated, with the smallest buffer the library permits.')
# ---------------------------------------------------------------- independence of calls
prop('R01', 'Key, word and signature calls depend on their arguments only',
     'Whatever was called before, and with whatever memory, a call that makes or reads keys, addresses, words, signatures, sets or texts gives what it gives in a program of its own. It changes none of its arguments, nor anything behind their ends, and no earlier result; and overwriting an argument or a result after the call changes no later answer.',
     [H], 'every ordered pair of some 690 calls (70 functions, each with several arguments which differ by a byte, a field or an order), every three calls of one function, every two with their arguments in the same memory or with the results overwritten; each compared with the same call in a process of its own',
     'The tests call each function in one order with new arguments; what is remembered wrongly shows only for particular pairs of calls.',
     ['pkg/address/address_impl.go', 'pkg/b32/b32.go', 'pkg/b32/checksum.go', 'pkg/bip32/bip32.go', 'pkg/bitset256/bitset256.go', 'pkg/key/extendedkey.go', 'pkg/keyaddr/key.go', 'pkg/signature/key.go', 'pkg/signature/keybase.go', 'pkg/signature/signature.go', 'pkg/words/words.go'],
     [('no state but constant tables and the registered algorithms', 'pkg/*')], ['results, arguments and earlier results of every call'], technique=HIST,
     note='Histories of two and three calls. Each answer is compared with that of a fresh process; whether that one is right is for the other properties to say.')
prop('R02', 'Amount, time, EAI and price calls depend on their arguments only',
     'Whatever was calculated before, and with whatever memory, a calculation, reading or writing of numbers, amounts, times, rates, tables, EAI and prices gives what it gives in a program of its own. It changes none of its arguments, rate tables and locks included, and no earlier result; and changing an argument or a result after the call changes no later answer.',
     [H], 'every ordered pair of some 710 calls (70 functions, each with several arguments which differ by one unit or one field), every three calls of one function, every two with their arguments, tables and locks in the same memory or with the results overwritten; each compared with the same call in a process of its own',
     'The tests call each function in one order with new arguments; what is remembered wrongly shows only for particular pairs of calls.',
     ['pkg/signed/math.go', 'pkg/signed/exp.go', 'pkg/unsigned/math.go', 'pkg/unsigned/exp.go', 'pkg/types/ndau.go', 'pkg/types/duration.go', 'pkg/types/timestamp.go', 'pkg/eai/eai.go', 'pkg/eai/rate.go', 'pkg/pricecurve/pricecurve.go', 'pkg/pricecurve/nanocent.go'],
     [('no state but constant tables', 'pkg/*')], ['results, arguments and earlier results of every call'], technique=HIST,
     note='Histories of two and three calls. Each answer is compared with that of a fresh process; whether that one is right is for the other properties to say.')
# ---------------------------------------------------------------- other processors
BUILDS = 'exhaustive enumeration of the real code in a 32-bit build: the bounded spaces of the other properties against their oracles, and the answers of a catalogue of calls compared with other builds'
prop('X01', 'Key, address, word and signature functions are the same on 32-bit processors',
     'Everything the other properties say of words, sets, addresses, keys, key texts and signatures holds too where an int has 32 bits, as on the telephones the key library is built for: the same answers, and no panic.',
     [H], 'the spaces of W01 to W03, B01, B02, D01, D03, K02, K03, K05, K06, S01, S02, S04 to S06 and Y01 in a 32-bit build (all of K, D and S in thorough); the answers of some 690 calls in builds for 386, amd64 and amd64 with fused multiplications',
     'The tests run on a 64-bit machine only, where an int holds every size and number.',
     ['pkg/words/words.go', 'pkg/bitset256/bitset256.go', 'pkg/signature/algorithm.go', 'pkg/signature/checksum.go', 'pkg/key/extendedkey.go', 'pkg/keyaddr/key.go', 'pkg/keyaddr/words.go'],
     [('ints hold no more than 32 bits', 'pkg/words, pkg/signature, pkg/key')], ['results of every call in a 32-bit build'], technique=BUILDS,
     note='The 32-bit build is for 386, run on this machine. The message pack library itself panics on some corrupt sizes there; ndaumath does not pass them on, which is checked; its generated IdentifiedData used directly is left out.')
prop('X02', 'Amount, time, EAI and price functions are the same on 32-bit processors',
     'Everything the other properties say of arithmetic, amounts, times, rates, EAI and prices holds too where an int has 32 bits: the same answers to the last unit, so that a 32-bit node or wallet agrees with the rest of the network.',
     [H], 'the spaces of A01, A03, A04, T01 to T05, E01 to E04, P02 to P04 and F01 in a 32-bit build (all but R02 in thorough); the answers of some 670 calls in builds for 386, amd64 and amd64 with fused multiplications',
     'The tests run on a 64-bit machine only, where an int holds every amount.',
     ['pkg/signed/math.go', 'pkg/signed/exp.go', 'pkg/unsigned/math.go', 'pkg/unsigned/log.go', 'pkg/types/ndau.go', 'pkg/types/duration.go', 'pkg/types/timestamp.go', 'pkg/eai/eai.go', 'pkg/eai/rate.go', 'pkg/pricecurve/pricecurve.go', 'pkg/pricecurve/nanocent.go'],
     [('ints hold no more than 32 bits', 'pkg/types, pkg/eai, pkg/pricecurve, pkg/unsigned')], ['results of every call in a 32-bit build'], technique=BUILDS,
     note='The 32-bit build is for 386, run on this machine. Floating point approximations may differ in their last digits and are compared with the curve, not with other builds.')
