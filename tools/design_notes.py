"""Texts of DESIGN.md: how each property is decided, and which planted bugs were missed at first"""
ORACLE = dict(
B01='A Go `map[byte]bool` per live set, updated by each operation; after every operation all observers of all live sets are compared with the maps. Ordering is compared with the order of the sets as 256-bit numbers word by word as the code documents, and checked to be a strict total order on its own terms.',
B02='The 32 bytes and the hexadecimal text written out by an independent encoder of the layout which the existing test `TestAsHexString` pins; a text is acceptable exactly if it is 64 hexadecimal digits.',
D01='An address computed from the documentation: sha256 of the data, trimmed to 26 bytes, prefixed with network and kind in the ndau alphabet, with a CRC-16 over length, and base 32; every comparison is of the whole string.',
D02='"Never accepted": each corruption of the classes named must be refused by `Validate`; for bursts the mathematics of the 16-bit CRC guarantee this, so a single accepted one is a defect of the implementation.',
D03='The canonical form is the lower-case string; every accepted spelling must be that value, and a decoder written from the documentation says which spellings are acceptable.',
W01='BIP-39\'s word list by hash, and an encoder written with `math/big`: the bytes as a big number in 11-bit groups, padded and with a checksum in the last word as documented.',
W02='The reference decoder accepts a list exactly if re-encoding the bytes it stands for gives the same words.',
W03='A linear scan of the list with `strings.HasPrefix`.',
S01='Bytes of every form assembled from the documented container (`[id, data]` in msgpack, key data with its length, extra bytes; text prefix and checksum in ndau base 32); receivers both fresh and used.',
S02='A reference decoder of the same format: exactly what it accepts is acceptable. Everything else must be an error; a panic is a violation.',
S03='Ed25519 from Go\'s standard library (which the wrapper also uses) *and* secp256k1 point arithmetic and ECDSA verification with `math/big` written for this check; RFC 6979 determinism by repeated signing.',
S04='The documented layout: pad width byte, payload, the tail of the sha256 sum, made to fill whole groups of base 32. A message passes exactly if the reference makes the same bytes.',
S05='A map of id to algorithm which follows the documented rules; each history runs in a process of its own because the registry is global.',
S06='The key pair which the first 32 bytes of the source determine, computed with independent arithmetic; or an error, exactly if the source ended or failed before it delivered enough.',
K01='BIP-32 written with `math/big`: HMAC-SHA512, scalar addition modulo the group order, serialized points; compared in all fields (key, chain code, depth, number, fingerprint).',
K02='The same reference from the public side: point addition; and the rule that public keys have no hardened children.',
K03='A reference grammar of paths (regular expression and 32-bit range) and step-by-step derivation with the reference of K01.',
K04='A model object per live key which holds what was last put in it; after *every* operation *every* live object is compared with its model.',
K05='Writers and readers of both texts (key text and old base-58 serialization) written from BIP-32 and the documentation; a text is acceptable exactly if the reference reads it.',
K06='A scripted reader which delivers portions, empty answers and failures; the model is "first n bytes or an error".',
Y01='The reference key objects of K01–K05 behind the string API: for each call the string which the documented text of the reference result has; an error exactly where the reference has no result.',
J01='(Also what the console got, and what the page had set before the module is loaded.) Node runs the real WebAssembly module; a JavaScript driver performs each sequence of calls and records what callbacks and error handler got; expectations (value, error or report) come from the Go packages natively and from the documented argument types.',
A01='`math/big`.', A02='`math/big`.',
A03='The exponential series in rationals with an explicit bound of the remainder, to 60 digits.',
A04='Powers of e to 80 digits from the series in `math/big`, hence the first number of each logarithm exactly.',
T01='`math/big` integers clamped to the range.',
T02='Decimal strings handled as strings of digits, never as numbers of the code under test.',
T03='A reference formatter and parser of the documented grammar `[-]p?NyNmNdtNhNmNsNus`.',
T04='A calendar which counts days by its own leap-year rule, not by `time`.',
T05='Exact rational ages of the coins along the history, and the documented formula step by step with `math/big`.',
E01='As T02, over the denominator 10^12.',
E02='The table as a function of time, evaluated at every moment by a linear scan; windows and freezes are evaluated moment by moment, then compared with the slices.',
E03='The integral of the documented rates over time, evaluated piecewise with exact rationals, and its exponential to 60 digits.',
E04='The same integral along the whole history, compared after each event, plus an account which is credited once at the end.',
P01='2^(14n/9999) by high-precision roots (`math/big` floats of 200 bits), the cubic of the ndau document evaluated in rationals; and to the nanocent, the integer method of the code\'s comments redone with a table computed from the 320-bit roots (the old curve\'s, which is history, was rounded down).',
P02='The same curve; the inverse by its definition (greatest block start with a lower price).',
P03='The sum over sale blocks taken piece by piece in exact integers from the code\'s own unit prices (whose correctness is P01).',
P04='A reference grammar and strings of digits.',
G01='A reference msgpack reader which knows every integer and array format, and what each type accepts.',
R01='The same call in a process of its own, which did nothing before.',
R02='The same call in a process of its own, which did nothing before.',
X01='The oracles of the properties whose spaces are run; for the catalogue the answers of the amd64 build.',
X02='As X01.',
F01='The bytes which the format prescribes (written out in the harness for addresses and containers), and "all of them or an error".',
C01='Each operation\'s result alone in a process of its own; and the race detector with no happens-before edges but the code\'s own.',
C02='As C01.',
)
CAUGHT = {}
CAUGHT.update({
 'C01-verify-memo': 'missed at first: what a schedule leaves behind was not looked at; operations are now called again after every schedule',
 'C02-price-memo': 'missed at first: the two threads asked for prices of the same blocks; they now ask for different ones of both curves',
 'E02-binary-search': 'missed at first: tables with several rows at one moment were not enumerated; `same-moments` added',
})
