TECH = ('bounded symbolic execution of the LLVM IR of the real code, assertions decided by term rewriting, SAT sweeping and '
        'z3 bit-vector queries; counterexamples replayed natively')
PROPS = []


def P(id, title, statement, quant, why, files, mech, how, **kw):
    d = dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, how=how)
    d.update(kw)
    PROPS.append(d)


HASHHOW = ('`h_hash.c` feeds a message of symbolic bytes to the public functions, split in up to three updates at every kind '
           'of offset relative to the block size, and compares the digest with an independent implementation of the standard '
           'written in `ref_hash.h`; the solver has to show the two digests equal for all message contents. `h_hashlen.c` starts '
           'from an arbitrary (symbolic) internal length, so that the carry into the high length word is covered without '
           'hashing gigabytes.')
HASHWHY = ('The tests hash a handful of fixed vectors, mostly in one update; they cannot range over contents, over all the '
           'residues of the length modulo the block size, over the ways of splitting the message, nor reach lengths beyond 2^29 bytes.')
for i, n, f, blk in (('P01', 'MD5', 'md5', 64), ('P02', 'SHA-1', 'sha1', 64), ('P03', 'SHA-256', 'sha256', 64),
                     ('P04', 'SHA-512 and SHA-384', 'sha512', 128)):
    P(i, '%s digests match the standard, however the message is split' % n,
      'The %s digest of a message is the one defined by the standard, for every content and every length. It does not depend on '
      'how the message is cut into successive updates, and starting again on the same context gives the digest of the new '
      'message alone.' % n,
      'every message content, every length residue modulo the block size, every split in updates, every total length the '
      'length field can express', HASHWHY, ['src/hash/%s.c' % f, 'include/cry/%s.h' % f, 'include/cry/hash.h'],
      [('block buffering across updates', 'src/hash/%s.c update' % f), ('padding and length encoding', 'src/hash/%s.c digest' % f),
       ('compression function', 'src/hash/%s.c' % f)], HASHHOW, over=['inputs', 'histories'])
P('P05', 'AES encrypts and decrypts as FIPS-197 says, for all keys, data and histories',
  'For each key size, encrypting a sequence of whole blocks gives the FIPS-197 ciphertext of each, and decrypting gives back the plaintext, in '
  'place or between separate buffers. A context may be rekeyed and may alternate encryption and decryption in any order without '
  'changing any result.',
  'every 128, 192 and 256 bit key, every block, every order of encryption, decryption and rekeying',
  'The tests are known-answer vectors with one key and one direction per context; a wrong entry in a table, in a round key or a stale '
  'schedule shows only for some keys or some histories.',
  ['src/crypt/aes.c', 'include/cry/aes.h'], [('key schedule', 'src/crypt/aes.c cry_aes_key_set'), ('lazy inverse key schedule', 'src/crypt/aes.c cry_aes_decrypt'),
   ('T-tables and final round', 'src/crypt/aes.c')],
  'The library (tables, unrolled rounds) and a byte-wise transcription of FIPS-197 (`ref_aes.h`) run on the same symbolic key and block; the '
  'terms are cut at round boundaries (each round is shown equal on arbitrary equal states, then the composition is closed by '
  'rewriting). Round keys of arbitrary symbolic keys are compared word by word.', over=['inputs', 'histories'])
P('P06', 'DES and triple DES follow FIPS-46-3 for all keys and data',
  'DES with an 8 byte key and triple DES with 16 and 24 byte keys give the standard ciphertext for every block, and decryption '
  'inverts encryption. Key parity bits do not matter and sequences of blocks are processed independently, in place or not.',
  'every key of each size and every block', 'The tests use a few published vectors; S-box and permutation entries are touched only by some inputs.',
  ['src/crypt/des.c', 'include/cry/des.h'], [('key schedule', 'src/crypt/des.c'), ('SP boxes', 'src/crypt/des.c'), ('EDE composition', 'src/crypt/des.c')],
  'Symbolic key and block through the real functions against the bit-level tables of the standard (`ref_des.h`): the Feistel round is '
  'shown equal on arbitrary state, subkeys are compared as bit vectors.')
P('P07', 'CBC chaining is correct for any cipher, size, split in calls and aliasing',
  'CBC encryption and decryption over any block cipher apply the standard chaining to the whole blocks of each call, continue the '
  'chain across calls, invert each other, and give the same result in place as between separate buffers. A trailing partial block '
  'is left alone, nothing is written outside the destination, and the source is not modified.',
  'every block cipher with 8 or 16 byte blocks, key, IV, data, length, split in two calls, aliasing, and failure of an internal allocation',
  'Tests run AES with short fixed vectors in one call; in place decryption of more than 512 bytes, the fall back when memory is '
  'short, 8 byte blocks and continued chains are not exercised.',
  ['src/crypt/cbc.c', 'include/cry/cbc.h'], [('chaining value update', 'src/crypt/cbc.c'), ('in place decryption buffer', 'src/crypt/cbc.c cry_cbc_decrypt')],
  'The cipher behind the interface is an uninterpreted permutation (`absciph.h`), so one solver run covers all ciphers and keys; the '
  'outputs are compared with the textbook recurrence.', over=['inputs', 'histories', 'fault_sequences'])
P('P08', 'CFB and 8-bit CFB are correct for any cipher, size, split and aliasing',
  'Full-block and 8-bit cipher feedback over any block cipher give the standard result, decryption inverts encryption, and the feedback state '
  'continues across calls. Partial final blocks are handled, in place operation gives the same result, and nothing is accessed outside the buffers given.',
  'every block cipher with 8 or 16 byte blocks, key, IV, data, length, split in two calls, aliasing',
  'The tests hold a few vectors of one or four blocks in one call.', ['src/crypt/cfb.c', 'include/cry/cfb.h'],
  [('feedback register', 'src/crypt/cfb.c')], 'Uninterpreted permutation as the cipher, symbolic data, textbook recurrence as oracle.', over=['inputs', 'histories'])
P('P09', 'CTR keystream and counter are correct, including carry and wrap-around',
  'Counter mode over any block cipher xors the data with the encryptions of consecutive big-endian counters starting at the IV, wrapping '
  'modulo the block. The counter goes on after the blocks consumed when the operation is continued, and the result in place is the same as between '
  'separate buffers.', 'every block cipher with 8 or 16 byte blocks, key, initial counter, data, length, split in two calls, aliasing',
  'Carry out of the low counter bytes happens once in 256 blocks or less, never in the fixed vectors; the batch of blocks used for '
  'speed has boundary cases that depend on the size of the call.', ['src/crypt/ctr.c', 'include/cry/ctr.h'],
  [('counter increment', 'src/crypt/ctr.c'), ('batches of blocks', 'src/crypt/ctr.c')],
  'Uninterpreted permutation, symbolic counter split by the number of trailing 0xff bytes, textbook keystream as oracle.', over=['inputs', 'histories'])
P('P10', 'Buffer xor gives the exact result for every overlap of its arguments',
  'Xoring two areas into a destination, or one area into another, gives byte for byte the xor of the original contents, for any '
  'sizes and for any overlap between destination and sources. Nothing outside the destination is written.',
  'every size up to the bound, every relative position of the areas, every content, every alignment, failure of the internal allocation',
  'Tests call it on disjoint or identical buffers only.', ['src/crypt/memxor.c', 'src/crypt/memxor.h', 'include/cry/memxor.h'],
  [('case analysis on the overlap', 'src/crypt/memxor.c cry_memxor2')],
  'Offsets are enumerated by case split, contents are symbolic, each resulting byte is compared with the xor of the original bytes.',
  over=['inputs', 'fault_sequences'])
P('P11', 'GCM ciphertext and tag follow the standard for any cipher, IV, data and lengths',
  'GCM over any 128-bit block cipher gives the ciphertext and the tag defined by SP 800-38D for every IV length, additional data, data and '
  'tag length, whether additional data and data come in one or several pieces (whole blocks but the last), and in place. '
  'Decryption inverts encryption and computes the same tag. The counter is 32 bits wide and wraps, the authenticated lengths are 64 bits wide.',
  'every cipher and key, IV, additional data, data, split in pieces, total length', 'The tests run the published vectors with AES and 12 byte IVs in one call; '
  'counter wrap, lengths over 4 GiB, other IV sizes and pieces of additional data are not reached.',
  ['src/crypt/gcm.c', 'include/cry/gcm.h'], [('GF(2^128) multiplication by tables', 'src/crypt/gcm.c'), ('counter and length block', 'src/crypt/gcm.c')],
  'The cipher is an uninterpreted permutation; the table multiplication is compared with the bit-serial definition, as linear forms over GF(2), for an '
  'arbitrary hash key (one multiplication) and for fixed hash keys (many blocks).', over=['inputs', 'histories'])
P('P12', 'CMAC is the standard MAC of the whole message however it is split',
  'CMAC over any 128-bit block cipher gives the tag of RFC 4493 for the concatenation of all updates, whatever their sizes, including empty messages, '
  'messages of whole blocks and empty updates. A context can be used again with the same key for another message.',
  'every cipher and key, message, length and split in pieces', 'The tests use four vectors in one update; the last block must be held back until it is known to be the last, '
  'which depends on how updates fall on block boundaries.', ['src/crypt/cmac.c', 'include/cry/cmac.h'],
  [('subkeys', 'src/crypt/cmac.c'), ('held back last block', 'src/crypt/cmac.c')], 'Uninterpreted permutation as the cipher, symbolic message, RFC 4493 as oracle.', over=['inputs', 'histories'])
P('P13', 'HMAC is the standard construction for any hash, key length and message split',
  'HMAC over any hash function with 64 byte blocks is H(K^opad, H(K^ipad, m)), with keys longer than a block hashed first and shorter keys padded with zeros, for '
  'every message in any split into updates. A context can be used again with the same key.', 'every hash function, key, key length, message and split',
  'The tests take vectors of some hashes; key lengths around the block and digest size and reuse are not covered.', ['src/hash/hmac.c', 'include/cry/hmac.h'],
  [('key preparation', 'src/hash/hmac.c'), ('inner and outer digest', 'src/hash/hmac.c')],
  'The hash is an uninterpreted function of the bytes it was fed; the library tag must be the same term as the definition.', over=['inputs', 'histories'])
P('P14', 'CRCs equal the polynomial definition for all data and all splits',
  'CRC-16 CCITT, IBM and DNP and CRC-32 Ethernet give the remainder of the documented polynomial with the documented initial value and final transformation, for '
  'all data, in one call or over updates, as a number or as bytes.', 'every data, length, split, and every register value before a byte',
  'A wrong table entry shows for one byte value in 256 only; tests use one string.', ['src/crc/crc16.c', 'src/crc/crc32.c', 'include/cry/crc.h'],
  [('tables', 'src/crc'), ('register update', 'src/crc')], 'Bit-serial definition against the table driven code, as linear forms over GF(2), from an arbitrary register.', over=['inputs', 'histories'])
P('P15', 'ARC4 key setup and keystream are exact and continue across calls',
  'For every non-empty key ARC4 gives the output defined by its published algorithm, setting a key restarts the stream, the stream continues across calls of any size, in place or not.',
  'every key of 1 to 256 bytes, every state, data and split in calls', 'Tests use three keys; index wrap-around and key lengths that do not divide 256 are not covered.',
  ['src/crypt/arc4.c', 'include/cry/arc4.h'], [('key schedule', 'src/crypt/arc4.c cry_arc4_key_set'), ('generator', 'src/crypt/arc4.c cry_arc4_crypt')],
  'Both sides run on symbolic keys and on an arbitrary permutation state; symbolic array accesses are kept as selections over all 256 cells.', over=['inputs', 'histories'])
P('P16', 'Trivium keystream matches the specification for all keys, IVs and states',
  'Trivium with keys and IVs of up to 10 bytes (shorter ones padded with zeros) gives the keystream of the specification with the byte order of the library. Setting an IV restarts '
  'the stream with the current key; the stream goes on in whole words from call to call.', 'every key, IV, state, data and split',
  'Tests use a few vectors; a wrong tap can be hidden by the structure of those keys.', ['src/crypt/trivium.c', 'include/cry/trivium.h'],
  [('word-parallel update', 'src/crypt/trivium.c'), ('key and IV loading', 'src/crypt/trivium.c')],
  'From an arbitrary 288-bit state the library is compared with the bit-serial specification clock by clock; initialisation is compared with a 32-clock transcription of it.', over=['inputs', 'histories'])
P('P17', 'Base64 encodes every input, decodes it back and refuses malformed text',
  'Encoding gives the RFC 4648 text of any bytes and returns its length; decoding inverts it. Text whose length is not a multiple of four, or with a character '
  'outside the alphabet, or with padding elsewhere than in the last one or two places, is refused. Only the space for the result is written.', 'every byte string, every text',
  'Tests decode a few good strings.', ['src/crypt/base64.c', 'include/cry/base64.h'], [('final group', 'src/crypt/base64.c cry_base64_encode'), ('character check', 'src/crypt/base64.c cry_base64_decode')],
  'All bytes or characters are symbolic; the oracle works on the alphabet by arithmetic.')
P('P18', 'Affine and Hill ciphers compute the key map and its inverse, or refuse the key',
  'The affine cipher maps each byte to a*x+b modulo 256 with the key bytes taken cyclically, and decryption inverts it; a key that is empty or has an even factor is refused. '
  'The Hill cipher multiplies each whole block by the key matrix (the largest square that fits the key) modulo 256, decryption multiplies by its inverse; a key with '
  'an even determinant is refused and one with an odd determinant accepted.', 'every key, data, in place or not', 'Tests use one key each; sign errors in cofactors or inverses show for some keys only.',
  ['src/crypt/affine.c', 'src/crypt/hill.c', 'src/misc.c', 'include/cry/affine.h', 'include/cry/hill.h'],
  [('modular inverse', 'src/misc.c cry_long_inv'), ('matrix inverse', 'src/crypt/hill.c'), ('key checks', 'src/crypt/affine.c, src/crypt/hill.c')],
  'Byte arithmetic on symbolic keys; products are compared as polynomials over the ring Z/256 or by z3. The inverse of the determinant is replaced by an arbitrary number in the matrix part; '
  'the helper that computes it has its own check over its 256 arguments.')
P('P19', 'Big number addition, subtraction and comparison are exact for all signs',
  'Adding, subtracting and comparing big numbers, signed or by absolute value, gives the exact result in normal form (no leading zero digits, zero not negative) for all '
  'signs and sizes, zero included, for every digit width, and when the result is one of the operands or both operands are the same. Operands that are not the result '
  'stay as they were; a subtraction of absolute values that would be negative is refused.', 'every digit value, sign, size up to the bound, aliasing and spare room in the result',
  'Carries and borrows over several digits and results that shrink show for few values; tests do not alias.',
  ['src/mpi/mpi_add.c', 'src/mpi/mpi_sub.c', 'src/mpi/mpi_add_abs.c', 'src/mpi/mpi_sub_abs.c', 'src/mpi/mpi_cmp.c', 'src/mpi/mpi_cmp_abs.c', 'include/cry/mpi.h'],
  [('carry propagation', 'src/mpi/mpi_add_abs.c'), ('borrow propagation', 'src/mpi/mpi_sub_abs.c'), ('sign cases', 'src/mpi/mpi_add.c, src/mpi/mpi_sub.c')],
  'Digits are symbolic; the oracle is arithmetic on 256-bit integers.')
P('P23', 'Big number shifts and bit counts are exact for every amount and sign',
  'Shifting multiplies the absolute value by a power of two, or divides it rounding down, keeps the sign, gives a number in normal form, in place or not. '
  'The number of bits and bytes of a number is exact.', 'every digit value, sign, shift amounts on and around digit boundaries and beyond the size, digit widths',
  'Tests shift a few numbers by a few amounts.', ['src/mpi/mpi_shl.c', 'src/mpi/mpi_shr.c', 'src/mpi/mpi_core.c'],
  [('digit and bit part of the shift', 'src/mpi/mpi_shl.c, src/mpi/mpi_shr.c'), ('bits of a digit', 'src/mpi/mpi_core.c')],
  'Symbolic digits against shifts of 256-bit integers.')
P('P24', 'Big numbers convert to and from big endian bytes without loss',
  'Loading bytes gives the non-negative number they denote, whatever leading zeros and whatever the destination held. Storing writes the shortest big endian form, or fills the buffer '
  'with leading zeros when padding is asked for, and refuses a buffer that is too small; nothing outside is written.', 'every byte string, digit value, buffer size, digit width',
  'Padding, leading zeros and partial digits depend on sizes the tests do not combine.', ['src/mpi/mpi_bin.c', 'src/mpi/mpi_core.c'],
  [('partial top digit', 'src/mpi/mpi_bin.c cry_mpi_load_bin'), ('size test and padding', 'src/mpi/mpi_bin.c cry_mpi_store_bin')],
  'Symbolic bytes and digits; in the store part the length is explored value by value.')
P('P26', 'Big numbers convert to and from machine integers and copy exactly',
  'Setting a number from a long and reading it back is exact for every long; reading a number outside the range of a long is refused. Copy, absolute value and swap give '
  'independent numbers with the exact value, also onto themselves, whatever the destination held.', 'every long, digit value, sign, digit width',
  'The ends of the range and digits narrower than a long are not tested.', ['src/mpi/mpi_core.c', 'src/mpi/mpi_abs.c'],
  [('range test', 'src/mpi/mpi_core.c cry_mpi_get_int'), ('digits of a long', 'src/mpi/mpi_core.c cry_mpi_set_int')],
  'Symbolic long and digits against 256-bit integers.')
P('P38', 'AES key wrap follows RFC 3394 and never releases a key that fails the check',
  'Wrapping gives the RFC 3394 value for every key-encryption key and every key of a positive multiple of 8 bytes; unwrapping inverts it. Unwrapping accepts exactly the '
  'inputs whose recovered check value is right; otherwise it fails and the output holds no key data. Other lengths are refused. Nothing outside the output is written.',
  'every key-encryption key, key data and wrapped value; number of blocks up to the bound', 'Tests take six vectors of at most 4 blocks; the step counter passes 255 at 43 blocks, '
  'and no test unwraps a damaged value.', ['src/utils/aes_wrap.c', 'include/cry/utils.h'],
  [('step counter', 'src/utils/aes_wrap.c'), ('integrity check', 'src/utils/aes_wrap.c cry_aes_unwrap')],
  'The file is compiled with an uninterpreted keyed permutation in place of AES and compared with the RFC text; for large keys unwrapping uses one fixed permutation.', over=['inputs'])
P('P39', 'The random generators give their documented stream for any split of requests',
  'The AES generator gives the encryption of a counter under the key, key and first counter taken from the seed (padded with zeros, excess ignored): the bytes do not depend on how requests are split, '
  'and no byte is given twice or skipped. The counter is 128 bits wide. The LFSR113 generator gives the published sequence, folding seeds of any size into its state and '
  'replacing components below the required minimum. Seeding again restarts either; without seeding the default seed is used.', 'every seed, seed size, sequence of requests up to the bound, counter value',
  'Residual bytes and the carry of the counter depend on the history of requests.', ['src/prng/prng_aes.c', 'src/prng/prng_lfsr113.c', 'include/cry/prng.h'],
  [('residual bytes', 'src/prng/prng_aes.c'), ('seeding', 'src/prng/prng_lfsr113.c')],
  'AES is an uninterpreted permutation; both generators run against their definitions from symbolic seeds.', over=['inputs', 'histories'])
P('P20', 'Big number products are exact for every algorithm, sign and aliasing',
  'The product of two big numbers is exact and in normal form for all signs and sizes, zero included, whichever algorithm is used (schoolbook, comba, Karatsuba, Toom-3, single digit) and '
  'when the result is one of the operands or both operands are the same. Other operands are unchanged and temporary memory is released.',
  'digit values, signs, sizes and aliasing within the bounds; every digit width', 'Carries in the columns, splits of odd sizes and interpolation steps go wrong for few operands; the fast algorithms only run for very large numbers in tests.',
  ['src/mpi/mpi_mul.c', 'src/mpi/mpi_mul_abs.c', 'src/mpi/mpi_mul_baseline.c', 'src/mpi/mpi_mul_comba.c', 'src/mpi/mpi_mul_karatsuba.c', 'src/mpi/mpi_mul_toom3.c', 'src/mpi/mpi_pvt.h'],
  [('column sums', 'src/mpi/mpi_mul_comba.c'), ('split and recombination', 'src/mpi/mpi_mul_karatsuba.c, src/mpi/mpi_mul_toom3.c'), ('sign', 'src/mpi/mpi_mul.c')],
  'The algorithms are run on symbolic digits and compared with the sum of the products of pairs of digits.')
P('P21', 'Big number squares are exact for every algorithm and never negative',
  'The square of a big number is exact, not negative and in normal form, whichever algorithm is used (schoolbook, comba, Karatsuba), in place or not, whatever the result held before.',
  'digit values, signs, sizes within the bounds; every digit width', 'Doubling of cross products loses a carry for few operands.',
  ['src/mpi/mpi_sqr.c', 'src/mpi/mpi_sqr_baseline.c', 'src/mpi/mpi_sqr_comba.c', 'src/mpi/mpi_sqr_karatsuba.c', 'src/mpi/mpi_pvt.h'],
  [('doubled columns', 'src/mpi/mpi_sqr_comba.c'), ('recombination', 'src/mpi/mpi_sqr_karatsuba.c')], 'As for products.')
P('P22', 'Big number division gives quotient and remainder exactly and refuses zero',
  'For every dividend and non-zero divisor, division gives the quotient rounded towards minus infinity and the absolute value of the remainder (so that for a positive divisor 0 <= r < b and a = q*b + r), '
  'both in normal form; the variant by absolute values does so for the absolute values (its remainder may carry the sign of the dividend when that is the smaller one). Quotient or remainder may be left out or be one of the operands; operands that are no result are unchanged. Division by zero fails.',
  'operands within the bounds, every sign, aliasing', 'The correction steps of long division are needed for few operands; tests divide a handful of positive numbers.',
  ['src/mpi/mpi_div.c', 'src/mpi/mpi_div_abs.c', 'include/cry/mpi.h'], [('quotient digit estimate and correction', 'src/mpi/mpi_div_abs.c'), ('signs', 'src/mpi/mpi_div.c')],
  'a = q*b + r and the range of r are asserted on the results, as integers of 64 bits.')
P('P32', 'Elliptic curve points form the group: addition, doubling and multiplication',
  'For points of a curve over a prime field, adding, doubling and multiplying by a non-negative integer give the point that the group law prescribes, in every special case: equal points, opposite points, '
  'points of order two, the point at infinity, factor zero, factors beyond the order, results in place of operands. Operands that are no result are unchanged.',
  'every pair of points of the curves in the bounds, every factor within the bounds, aliasing', 'Tests multiply the generators of large curves by a few factors, which never meets the special cases.',
  ['src/ecp/ecp_add.c', 'src/ecp/ecp_dbl.c', 'src/ecp/ecp_mul.c', 'src/ecp/ecp_core.c', 'include/cry/ecp.h'],
  [('addition', 'src/ecp/ecp_add.c'), ('tangent', 'src/ecp/ecp_dbl.c'), ('sliding window', 'src/ecp/ecp_mul.c')],
  'The real point code runs on small cyclic curves, whose group is given by a table of the multiples of the generator, with an arbitrary pair of points; big numbers of one digit are computed directly '
  '(they have their own properties). Multiplication runs with the group law given by the table.', over=['inputs'])
P('P34', 'DSA accepts exactly the valid signatures and makes only valid ones',
  'Verification succeeds if and only if 0 < r < q, 0 < s < q and r = (g^(z/s) y^(r/s) mod p) mod q, where z is the message digest cut to the number of bytes of q. Signing succeeds, draws its secret from the random generator, and gives r, s for which this holds.',
  'every r, s (also negative, zero or too large), digest, random numbers, within the groups in the bounds', 'Tests verify a few right signatures; accepting a wrong one needs r or s out of range or equal to zero.',
  ['src/crypt/dsa.c', 'include/cry/dsa.h'], [('range of r and s', 'src/crypt/dsa.c cry_dsa_verify'), ('retry on zero', 'src/crypt/dsa.c cry_dsa_sign')],
  'The file is compiled with arbitrary values for the random numbers and run in small groups with arbitrary r, s and digest; the equation is evaluated from discrete logarithms. One digit big numbers are computed directly.', over=['inputs'])
P('P35', 'ECDSA accepts exactly the valid signatures and makes only valid ones',
  'Verification succeeds if and only if 0 < r < n, 0 < s < n and the point (z/s) G + (r/s) Q is not at infinity and has x mod n = r, where z is the message digest cut to the number of bytes of n. '
  'Signing succeeds, draws its secret from the random generator, and gives r, s for which this holds. Generated private keys lie in 1..n-1 and belong to the public key.',
  'every r, s (also negative, zero or too large), digest, random numbers, within the curves in the bounds', 'Tests verify a few right signatures; x >= n, zero components and the point at infinity never occur on the standard curves by chance.',
  ['src/crypt/ecdsa.c', 'include/cry/ecdsa.h'], [('range of r and s', 'src/crypt/ecdsa.c cry_ecdsa_verify'), ('retry on zero', 'src/crypt/ecdsa.c cry_ecdsa_sign')],
  'The file is compiled with arbitrary values for the random numbers and run on small curves of prime order, where the group law is a table.', over=['inputs'])
P('P36', 'Elgamal accepts exactly the valid signatures and makes only valid ones',
  'Verification succeeds if and only if 0 < r < p, 0 < s < p-1 and g^z = y^r r^s mod p, where z is the message as a number; messages longer than p are refused. Signing succeeds, '
  'draws its secret from the random generator, and gives r, s for which this holds. The encoded form is r and s in as many bytes as p has, each.',
  'every r, s (also negative, zero or too large), message, random numbers, within the groups in the bounds', 'A missing range check lets anyone forge signatures; no test tries values out of range.',
  ['src/crypt/elgamal.c', 'include/cry/elgamal.h'], [('range of r and s', 'src/crypt/elgamal.c cry_elgamal_verify2'), ('invertible secret', 'src/crypt/elgamal.c secret_gen')],
  'As for DSA.', over=['inputs'])
