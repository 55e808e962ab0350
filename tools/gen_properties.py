#!/usr/bin/env python3
"""Writes properties.jsonl. (The properties are maintained here.)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe)))

CH = 'cipher/chacha_poly.py'
p('C01', 'ChaCha20 output is the RFC 7539 key stream for every key, nonce and counter',
  'Encrypting any octet string with any 256-bit key, any 96-bit nonce and any initial block counter from 0 to 2^32-1 gives the input XORed with the RFC 7539 ChaCha20 key stream that starts at that block, and the output has exactly the length of the input, whatever that length is. Decryption is the same function and restores the input.',
  ['inputs'], 'all keys, nonces, 32-bit initial counters and message lengths (as far as the counter allows)',
  'The tests hold about ten RFC vectors; carries, rotations, word order and counter bits that these keys and counters 0, 1, 7 and 42 do not exercise are never seen, nor are lengths around block boundaries.',
  [CH], [('quarter round', CH + ' chacha_q_round'), ('block function', CH + ' ChaCha.chacha20_block'), ('encrypt loop', CH + ' ChaCha.encrypt')], ['ChaCha.encrypt', 'ChaCha.decrypt'])
p('C02', 'A ChaCha object never reuses a key stream block, whatever the call history',
  'For every sequence of encrypt and decrypt calls on a ChaCha object, each call starts at the first key stream block that no earlier call has used, so that no two octets processed by one object are combined with the same key stream octet and a receiver making the same sequence of calls recovers every message. Once a call would need a block beyond number 2^32-1 it is refused with an exception and produces no output, and using one object never affects another one.',
  ['histories'], 'all sequences of calls, chunk lengths and starting counters, including those next to the end of the counter',
  'The tests encrypt once per object with small counters; histories of several calls, chunk boundaries and the exhaustion of the counter are not reached.',
  [CH], [('block counter', CH + ' ChaCha.encrypt')], ['ChaCha.encrypt', 'ChaCha.decrypt'])
p('C03', 'Poly1305 gives the RFC 7539 tag for every key and message',
  'For any 32-octet key and a message of any length, the Poly1305 tag is the 16 octets that RFC 7539 defines: r clamped, the message read as little-endian 16-octet blocks with one bit added, the accumulator reduced modulo 2^130-5, and s added modulo 2^128.',
  ['inputs'], 'all 32-octet keys and all messages',
  'Ten RFC vectors; accumulator values next to 2^130-5, 2^130 and 2^128, clamped bit positions and partial last blocks of each length are mostly not sampled.',
  [CH], [('clamp and Horner loop', CH + ' clamp, poly1305_mac')], ['poly1305_mac'])
p('C04', 'AEAD_CHACHA20_POLY1305 sealing is RFC 7539 and decryption inverts it',
  'For any key, any split of the 96-bit nonce into constant and iv, any associated data and any plaintext, AEAD encryption returns the ciphertext and tag of RFC 7539 section 2.8. Decrypting what was encrypted returns exactly the plaintext, together with the tag calculated over the received ciphertext for the two-value interface; for the one-string interface the message is iv, ciphertext and tag in this order, and one AEAD object gives these results for any sequence of its calls.',
  ['inputs', 'histories'], 'all keys, nonces, associated data and plaintext lengths, and sequences of encrypt and decrypt calls on one object',
  'Two RFC vectors; lengths of associated data and text relative to the 16-octet padding, empty inputs, and repeated use of one object are not explored, and nothing decrypts with the one-string interface.',
  [CH], [('AEAD construction', CH + ' ChaCha20_AEAD, ChaCha_Poly_AEAD')], ['ChaCha20_AEAD.encrypt', 'ChaCha20_AEAD.decrypt', 'ChaCha_Poly_AEAD.encrypt', 'ChaCha_Poly_AEAD.decrypt'])
p('C05', 'No altered AEAD message is accepted',
  'A sealed message that was changed in any way before it is opened (any bit of iv, ciphertext or tag, any bit of the associated data, truncation, extension, moving octets between associated data and ciphertext, another key or nonce, another message\'s tag) is never accepted: the one-string interface raises an exception instead of returning a plaintext, and the tag calculated by the two-value interface differs from the received one.',
  ['inputs', 'fault_sequences'], 'all single-bit changes, all truncations and extensions, and recombinations of sealed messages',
  'No test feeds a forged message.', [CH], [('tag over associated data, ciphertext and both lengths', CH + ' ChaCha20_AEAD.encrypt'), ('comparison', CH + ' ChaCha_Poly_AEAD.decrypt')],
  ['ChaCha20_AEAD.decrypt', 'ChaCha_Poly_AEAD.decrypt'])
p('C06', 'Nonces and keys are used as given, missing nonces are fresh, bad sizes refused',
  'A ChaCha object made without a nonce uses exactly 12 octets that it obtains from the operating system\'s random source for this object alone, whatever these octets are, and a nonce that was given is used unchanged without consulting that source. Keys that are not 32 octets, nonces that are not 12 octets and initial counters outside 0 to 2^32-1 are refused with an exception before any output, also for the AEAD objects.',
  ['inputs', 'fault_sequences', 'histories'], 'all answers of the random source, all sizes of keys and nonces, all orders of object creation',
  'The tests never leave the nonce out and never pass a wrong size.', [CH], [('nonce choice', CH + ' ChaCha.__init__'), ('size checks', CH + ' ChaCha.initialize')], ['ChaCha', 'ChaCha20_AEAD'])
AC, AS = 'cipher/aes_cmac.py', 'cipher/aes_siv.py'
p('C07', 'AES-CMAC conforms to SP 800-38B for every key and message',
  'For every 128, 192 or 256-bit key and every message of any length, AES-CMAC returns the 16-octet tag of SP 800-38B (RFC 4493), and its two subkeys are always one block long. When another 128-bit block cipher is passed, the whole calculation uses that cipher.',
  ['inputs'], 'all keys, messages and block ciphers with 16-octet blocks', 'The three tests use one key; the carries of the subkey doubling and subkeys with leading zero octets depend on the key. They cannot run where PyCrypto is missing.',
  [AC], [('subkey doubling', AC + ' subkey'), ('last block', AC + ' aes_cmac, pad')], ['aes_cmac', 'subkey'])
p('C08', 'AES-SIV conforms to RFC 5297 and decryption restores the plaintext',
  'For every key of 32, 48 or 64 octets, every list of associated data strings and every plaintext, AES-SIV encryption returns the synthetic iv and ciphertext of RFC 5297, deterministically and without changing its arguments. Decryption with the same key and list returns the plaintext.',
  ['inputs', 'histories'], 'all keys, associated data lists (number and lengths), plaintexts and call sequences on one object', 'Four tests with RFC vectors; list lengths, empty strings, the 16-octet boundary and counter carries are not covered, and the tests cannot run where PyCrypto is missing.',
  [AS, AC, 'cipher/common.py', 'cipher/encoding.py'], [('s2v', AS + ' s2v, dbl'), ('counter mode', AS + ' siv_encrypt')], ['siv_encrypt', 'siv_decrypt', 'AES_SIV', 's2v'])
p('C09', 'No altered AES-SIV message is accepted',
  'Opening an AES-SIV message after any change to it, to the associated data list (a bit, an element added, removed, split, joined or reordered), or to the key raises an exception and returns no plaintext. (The second half of the key is not used for an empty plaintext.) Messages shorter than one block are refused too.',
  ['inputs', 'fault_sequences'], 'all single-bit changes, truncations and extensions, and all small rearrangements of the associated data', 'No test feeds a forged message.',
  [AS], [('iv comparison', AS + ' siv_decrypt')], ['siv_decrypt', 'AES_SIV.decrypt'])
EN = 'cipher/encoding.py'
p('C10', 'Integers and octet strings convert into each other without loss',
  'Each of the library\'s integer to octet string conversions gives the shortest big-endian representation of every non-negative integer (one zero octet for zero), left-padded with zero octets to the requested length, and refuses negative integers and integers that do not fit the requested length. The conversion back is the big-endian value of any octet string, so that converting there and back restores the integer.',
  ['inputs'], 'all non-negative integers, lengths and octet strings', 'A handful of values; the boundaries at every power of 256, zero with padding and oversize values are not covered for each of the copies.',
  [EN, 'cipher/common.py', 'ecc/ecc.py'], [('int_to_string, string_to_int', EN + ', cipher/common.py, ecc/ecc.py')], ['int_to_string', 'string_to_int'])
p('C11', 'Base 27, 85 and 94 text encodings lose nothing and agree with RFC 1924',
  'For every non-empty octet string, each text encoding contains only characters of its alphabet, is the numeral of the string\'s big-endian value in that base with the alphabet\'s digits (base 85 being that of RFC 1924), and decoding it with the original length as padding gives back exactly the original octets, leading zero octets included. Text with a character outside the alphabet is refused.',
  ['inputs'], 'all octet strings and all texts', 'The tests encode a few fixed strings and never decode with padding.',
  [EN], [('base_N_encode, base_N_decode', EN)], ['b27encode', 'b27decode', 'b85encode', 'b85decode', 'b94encode', 'b94decode', 'base_N_encode', 'base_N_decode'])
HM = 'hash/hmac.py'
p('C12', 'HMAC objects give RFC 2104 tags for every key, message and call history',
  'After any sequence of setKey, update, digest, reset and one-shot calls on an HMAC-SHA1 or HMAC-MD5 object, a digest equals RFC 2104 HMAC of the octets updated since the last reset or key change under the current key, for keys of every length including longer than the hash block; taking a digest does not disturb the running calculation. Objects are independent of each other, and an object without a key refuses to produce a digest.',
  ['histories', 'inputs'], 'all call sequences, keys and messages', 'The tests make single calls with a few keys, and cannot run here because the old crypto package is missing.',
  [HM], [('key padding', HM + ' HMAC.setKey'), ('inner and outer hash', HM + ' HMAC.digest')], ['HMAC', 'HMAC_SHA1', 'HMAC_MD5'])
p('C13', 'PBKDF2 conforms to RFC 2898 for every key size and iteration count',
  'For every password of up to 63 octets, salt, iteration count and key size, pbkdf2 returns exactly the requested number of octets of PBKDF2 (RFC 2898) with HMAC-SHA1 or the pseudorandom function it is given, so that shorter keys are prefixes of longer ones. The WPA passphrase mapping is this function with 4096 iterations and 32 octets, and refuses passphrases shorter than 8 or longer than 63 characters.',
  ['inputs'], 'all passwords, salts, iteration counts and key sizes', 'A few vectors, which cannot run here; block boundaries of the key size and short iteration counts are not covered.',
  ['hash/pbkdf2.py', HM], [('block loop', 'hash/pbkdf2.py pbkdf2')], ['pbkdf2', 'dot11PassPhraseToPSK'])
p('C14', 'The 802.11i PRF gives the specified bits for every length',
  'For every key, prefix and data string and every multiple of eight bits up to 256 SHA-1 blocks, the 802.11i PRF returns exactly that many bits of the concatenation of HMAC-SHA1(key, prefix, zero octet, data, block number) for block numbers from 0. Other bit counts are refused, and the fixed-size variants equal the general one.',
  ['inputs'], 'all keys, prefixes, data strings and output lengths', 'Four vectors which cannot run here; outputs that end at a multiple of 20 octets and long outputs are not covered.',
  ['hash/prf_dot11.py'], [('block loop', 'hash/prf_dot11.py PRF')], ['PRF', 'PRF_128', 'PRF_192', 'PRF_256', 'PRF_384', 'PRF_512', 'PRF_768'])
p('C15', 'Michael and the TKIP MIC conform to 802.11i for every key and message',
  'For every 8-octet key and message of any length, the Michael MIC is the one of IEEE 802.11i, and the TKIP MIC is Michael over destination address, source address, priority with three zero octets (none of the four in draft version D2) and the data. Keys of another size, addresses that are not 6 octets, priorities outside 0 to 15 and unknown versions are refused, and a MIC depends only on the current key and this call\'s arguments.',
  ['inputs', 'histories'], 'all keys, addresses, priorities, messages and sequences of calls on one object', 'Short vectors that cannot run here.',
  ['hash/michael.py', 'hash/tkip_mic.py'], [('block function and padding', 'hash/michael.py b, Michael.hash'), ('header', 'hash/tkip_mic.py TKIP_MIC.hash')], ['Michael.hash', 'TKIP_MIC.hash'])
p('C16', 'TKIP key mixing gives the 802.11i key for every history of the mixer',
  'After any sequence of setKey, setTA, setPnBytes and newKey calls, the key that newKey returns is the 802.11i TKIP mixing function of the current temporal key, the current transmitter address and the packet number of this call, however the earlier packet numbers ran (in sequence, across the 16-bit wrap, backwards or repeated). It is refused before a key and an address were set, and keys, addresses or packet numbers of a wrong size are refused.',
  ['histories', 'inputs'], 'all call sequences, keys, addresses and 48-bit packet numbers', 'Eight vectors with a fresh mixer each, which cannot run here; the cached phase 1 key is only wrong after several calls.',
  ['hash/tkip_key_mixing.py'], [('cached phase 1 key', 'hash/tkip_key_mixing.py TKIP_Mixer.newKey, setKey, setTA'), ('mixing phases', 'hash/tkip_key_mixing.py phase1KeyMixing, phase2KeyMixing')], ['TKIP_Mixer.newKey'])
EC, EL, CU = 'ecc/ecc.py', 'ecc/ellipticcurve.py', 'ecc/curves.py'
p('C20', 'Points of a Weierstrass curve form the curve\'s abelian group',
  'On every Weierstrass (and Koblitz) curve over a prime field, addition, doubling, negation and subtraction of points with coordinates in the range 0 to p-1 give the results of the group law, again with coordinates in that range: the identity is neutral, P plus its negative is the identity, doubling equals adding a point to itself, and addition is commutative and associative. This includes the identity itself, points of order two, points with a zero coordinate, and points outside the subgroup of the generator.',
  ['inputs', 'configurations'], 'all curves, all pairs of points', 'The tests add half a dozen points on one toy curve; none has a point of order two or uses the identity as an operand.',
  [EC, EL], [('addition and doubling', EC + ' SmallWeierstrassCurveFp')], ['Point.__add__', 'Point.__sub__', 'Point.__neg__', 'Point.double'])
p('C21', 'Scalar multiples on Weierstrass curves are repeated additions',
  'For every point P of a Weierstrass curve and every integer k (zero, negative, and larger than any order), k*P and P*k equal the k-fold sum of P (of -P for negative k). This holds on the shipped curves for every scalar, so that (k+m)*P = k*P + m*P and n times the generator is the identity.',
  ['inputs', 'configurations'], 'all curves, points and integers', 'Three X9.62 examples on one curve; recoding patterns of the scalar, negative scalars and points outside the generator\'s subgroup are not covered.',
  [EC, EL, CU], [('signed-digit multiplication', EC + ' SmallWeierstrassCurveFp.scalar_multiple')], ['Point.__mul__', 'Point.__rmul__'])
p('C22', 'Points of an Edwards curve form its group, with scalar multiples',
  'On every complete Edwards or twisted Edwards curve (a a square and d a non-square modulo p), addition, doubling, negation and subtraction follow the Edwards group law with identity (0,1), give coordinates in the range 0 to p-1, and k*P is the k-fold sum for every integer k. The shipped Edwards curves are covered.',
  ['inputs', 'configurations'], 'all complete curves, all points and integers', 'No test uses an Edwards curve.',
  [EC, EL, CU], [('Edwards addition', EC + ' TwistedEdwardsCurveFp')], ['Point.__add__', 'Point.__mul__', 'Point.__neg__'])
p('C23', 'Points of a Montgomery curve form its group, with scalar multiples',
  'On every Montgomery curve y^2 = x^3 + a*x^2 + x over a prime field, addition, doubling, negation and subtraction follow the group law with the point at infinity as identity, give coordinates in the range 0 to p-1, and k*P is the k-fold sum for every integer k. Points of order two and four and the shipped Montgomery curves are covered.',
  ['inputs', 'configurations'], 'all curves, all points and integers', 'The only test of a Montgomery curve fails by construction (assert 0==1).',
  [EC, EL, CU], [('Montgomery addition', EC + ' MontgomeryCurveFp')], ['Point.__add__', 'Point.__mul__', 'Point.__neg__'])
p('C24', 'Both Montgomery ladders give the x-coordinate of the scalar multiple',
  'For every Montgomery curve, every point P on it other than the identity and every integer k, both ladder functions return the x-coordinate of k*P, and 0 when k*P is the identity. On Curve25519 this gives the X25519 shared secrets of RFC 7748.',
  ['inputs', 'configurations'], 'all curves, points and integers of any length', 'No test calls a ladder.',
  [EC], [('ladders', EC + ' montgomery_ladder, montgomery_ladder2, cswap')], ['MontgomeryCurveFp.montgomery_ladder', 'MontgomeryCurveFp.montgomery_ladder2'])
p('C25', 'Only points on the curve can be made, and curves do not mix',
  'Making a point from coordinates succeeds exactly when the coordinates satisfy the curve\'s equation modulo p (or are the identity\'s), for every curve family; a pair off the curve is refused, whichever coordinate is wrong and by how little. Two points are equal exactly when they belong to the same curve object and have the same coordinates, and adding Weierstrass points of different curve objects is refused.',
  ['inputs', 'configurations'], 'all curves and all coordinate pairs', 'No test makes a point that is off the curve.',
  [EC, EL], [('on_curve', EC), ('validation', EL + ' Point.__init__')], ['EllipticCurve.point', 'on_curve', 'Point.__eq__'])
p('C26', 'Every shipped curve has the published, consistent domain parameters',
  'Each shipped curve has a prime p, coefficients that make it non-singular, a generator on the curve, and a prime n that is the order of the generator and with the cofactor h satisfies the Hasse bound; p, coefficients, generator, n, h, oid, and where given the seeds and the twist constant z are those published for the curve its curveId names, and agree with each other. Each curve id names one curve, every curve has a curveId, strength, oid, p, n and h, and the lists of curves by family hold each curve exactly once in the right family.',
  ['configurations'], 'all shipped curves and all their parameters', 'test_G_times_n multiplies the generators of the Weierstrass curves only; other families, coefficients of unused curves, primality and cofactors are unchecked.',
  [CU], [('parameter tables and lists', CU)], ['curves.allCurves', 'curves.*'])
p('C27', 'Encoded and compressed points can be recovered',
  'The raw encoding of every affine point is its two coordinates as big-endian octet strings of the curve\'s coordinate size, so that different points have different encodings of equal length, and other encodings are refused. For every x that occurs on a Weierstrass curve, recovering y from x gives one of the two square roots, and for every other x it raises an exception.',
  ['inputs', 'configurations'], 'all curves and points, all x', 'The tests recover y for generators only and never encode a point.',
  [EL, EC, 'ecc/numbertheory.py'], [('encode', EL + ' Point.encode'), ('y_from_x', EC)], ['Point.encode', 'y_from_x'])
p('C28', 'New private keys are between 1 and n-1 and depend on fresh random octets',
  'Whatever octets the operating system\'s random source returns, a new private key of a Weierstrass curve is an integer from 1 to n-1, where n is the order of the generator; each call obtains its own random octets, at least as many as the order has, every key in the range can come out, and different random octets lead to different keys unless they are congruent modulo the size of the range.',
  ['fault_sequences', 'configurations', 'histories'], 'all answers of the random source, all curves, all sequences of calls', 'No test makes a private key.',
  [EC], [('reduction of random octets', EC + ' new_private_key')], ['new_private_key'])
p('C29', 'Parties that know only each other\'s public keys agree on one secret',
  'On every curve of every family (Weierstrass, Koblitz, Edwards, Montgomery), parties with private keys a and b that have received only the other\'s encoded public key, and rebuild the point from its two coordinates, arrive at the same encoded secret, that of a*b*G; the same holds for three parties with a*b*c*G, for keys from new_private_key, and for public keys sent as x alone (where both get the same x). A received public key that is not a point on the curve is refused.',
  ['inputs', 'configurations', 'histories'], 'all curves, all tuples of private keys, all changes of the messages',
  'No test runs a key agreement: the scalar multiples of points other than the generator, made from received octets, are never computed.',
  [EC, EL, CU], [('encode, point', EL), ('scalar multiples', EC), ('y_from_x, new_private_key', EC)], ['new_private_key', 'generator', 'Point.__mul__', 'Point.__rmul__', 'Point.encode', 'EllipticCurve.point', 'y_from_x'])
NT = 'ecc/numbertheory.py'
p('C30', 'Modular square roots are exact for every odd prime modulus',
  'For every odd prime p and every a from 0 to p-1, square_root_mod_prime returns an r from 0 to p-1 with r*r = a (mod p) when a is a square modulo p and raises SquareRootError otherwise, and modular_sqrt returns such an r or, when there is none, 0. This holds in every residue class of p, including primes with p-1 divisible by a high power of two.',
  ['inputs'], 'all odd primes and all residues', 'The tests take square roots for a few large primes with p = 3 (mod 4); the other residue classes use other algorithms.',
  [NT], [('case split and polynomial method', NT + ' square_root_mod_prime'), ('Tonelli-Shanks', NT + ' modular_sqrt')], ['square_root_mod_prime', 'modular_sqrt'])
p('C31', 'Jacobi and Legendre symbols are exact',
  'For every odd n of at least 3 and every integer a, jacobi(a, n) is the Jacobi symbol: 0 exactly when a and n have a common factor, multiplicative in a and in n, periodic modulo n, and equal to the Legendre symbol for prime n, which legendre_symbol computes. Even or smaller n are refused.',
  ['inputs'], 'all odd n and all integers a', 'Used only indirectly by the tests.', [NT], [('reciprocity recursion', NT + ' jacobi'), ('Euler criterion', NT + ' legendre_symbol')], ['jacobi', 'legendre_symbol'])
p('C32', 'Modular inverse, powers, gcd and lcm are exact',
  'For every modulus of at least 2 and every integer, inverse_mod (of ecc.numbertheory and of fmath.galoisfield) returns the inverse in the range 1 to m-1 when one exists and is refused otherwise; egcd(a, b) of two nonnegative integers, not both 0, returns g, x and y such that g = x*a + y*b is their greatest common divisor; modular_exp equals the power reduced modulo the modulus and refuses negative exponents. gcd and lcm of any number of positive integers, given as arguments or as one list, are the greatest common divisor and least common multiple.',
  ['inputs'], 'all integers and moduli, all lists', 'Covered only indirectly, through curve arithmetic with prime moduli.', [NT, 'fmath/galoisfield.py'], [('extended Euclid', NT + ' inverse_mod'), ('gcd2, lcm2', NT), ('extended Euclid', 'fmath/galoisfield.py egcd, inverse_mod')], ['inverse_mod', 'egcd', 'modular_exp', 'gcd', 'gcd2', 'lcm', 'lcm2'])
p('C33', 'Primality test and next_prime are exact in the deterministic range',
  'is_prime is True for every prime of any size and False for every composite below 3317044064679887385961981 (beyond that, for every composite having a prime factor of 2, 3, 5, 7 or 11 as well); 0, 1 and negative integers are not prime. next_prime(n) is the smallest prime larger than n.',
  ['inputs'], 'all integers', 'No test calls is_prime or next_prime.', [NT], [('Miller-Rabin with the first primes', NT + ' is_prime'), ('smallprimes', NT)], ['is_prime', 'next_prime', 'smallprimes'])
p('C34', 'Factorization and the multiplicative functions are exact',
  'For every integer n of at least 2, factorization(n) lists the primes dividing n in increasing order with their exponents, and their product is n; phi, carmichael, order_mod, largest_factor_relatively_prime and kinda_order_mod are the functions of number theory with these names. Integers below 2 have no factors.',
  ['inputs'], 'all positive integers', 'No test calls them.', [NT], [('trial division', NT + ' factorization'), ('totients and orders', NT + ' phi, carmichael, order_mod')], ['factorization', 'phi', 'carmichael', 'carmichael_of_factorized', 'carmichael_of_ppower', 'order_mod', 'largest_factor_relatively_prime', 'kinda_order_mod'])
p('C35', 'Polynomial arithmetic modulo a monic polynomial is exact',
  'For every prime p, every monic polynomial of degree at least 1 and all polynomials with coefficients modulo p, polynomial_reduce_mod, polynomial_multiply_mod and polynomial_exp_mod return a polynomial of lower degree than the modulus (or the shorter argument itself) that is congruent to the argument, the product or the power; exponents from 0 to p-1 are supported. Reduction, multiplication and powers of at least 1 refuse a modulus that is not monic.',
  ['inputs'], 'all primes, polynomials and exponents', 'Used only inside one branch of the modular square root.', [NT], [('reduction', NT + ' polynomial_reduce_mod')], ['polynomial_reduce_mod', 'polynomial_multiply_mod', 'polynomial_exp_mod'])
p('C36', 'Modules can be loaded alone and in any order, and loading changes nothing',
  'Every module of the library can be loaded first, alone, after any others and again, as part of the package and (except in hash/) as a module on sys.path, and gives the same results in every order. Loading changes nothing that other code uses: the modules of Python, the state of its random numbers, its limits, search path and settings (working directory, environment, decimal arithmetic, warnings, locale), tables of the packages it depends on, and modules of the library that were loaded before.',
  ['histories', 'configurations'], 'all orders of loading the modules', 'Each test file loads its modules in one order, in a process of its own.',
  ['ecc/ellipticcurve.py', EC, NT, CU, 'cipher/aes_siv.py', 'cipher/aes_cmac.py', 'hash/tkip_key_mixing.py', 'hash/prf_dot11.py'], [('import statements and module-level code', 'all modules'), ('int_to_string, which would be a circular import', 'ecc/ellipticcurve.py')], ['import of every module'])
p('C37', 'Field elements of GF(p) obey the field laws and convert to their residues',
  'For every prime p, the elements made by a field object and combined by + - * / ^ (and **) with elements or integers on either side have the value of the corresponding calculation modulo p, reduced to 0..p-1; division and negative powers use the inverse, and are refused for zero. Negation, comparison and conversion to int agree with that value, is_element holds exactly for 0..p-1, and fields of different p do not disturb each other.',
  ['inputs', 'histories'], 'all primes, all pairs of elements and integers, all interleavings of two fields', 'The five tests sample one field.',
  ['fmath/galoisfield.py'], [('operators', 'fmath/galoisfield.py Element_of_GFp'), ('egcd', 'fmath/galoisfield.py inverse_mod')], ['GFp', 'Element_of_GFp'])
p('C38', 'A Rabin-Miller round answers exactly as the strong probable prime test',
  'For every odd n of at least 3 and every base from 1 to n-1, rabin_miller returns 1 exactly when n is a strong probable prime to that base, hence always for a prime, and bases outside that range are refused. fermat_little_test returns 1 exactly when the base to the power n-1 is 1 modulo n, else 0.',
  ['inputs'], 'all odd integers and bases', 'Forty numbers with 13 bases.', ['fmath/prime.py'], [('strong test', 'fmath/prime.py rabin_miller')], ['rabin_miller', 'fermat_little_test'])
p('C39', 'The shipped mathematical constants are right to the last digit',
  'The stored digits of pi are the decimal expansion of pi to their full length, pi(k) is the fraction of the first k decimals truncated, for every k from 1 to that length (all of them if k is not given), and asking for more is refused. The table of primes holds exactly the primes below 5000 in increasing order.',
  ['inputs'], 'all digit positions, all digit counts and all integers below 5000', 'Tests compare seeds derived from a few hundred digits; the rest of the table is unchecked.',
  ['fmath/pi.py', 'fmath/primes_to_5k.py'], [('digit table', 'fmath/pi.py pi_string, pi'), ('prime table', 'fmath/primes_to_5k.py')], ['pi.pi', 'pi.pi_string', 'primes_to_5k'])
p('C40', 'Orbit analysis partitions every permutation into its cycles',
  'For every permutation of 0..n-1, the orbit maps of both analysis modules hold each cycle exactly once, under its smallest element and in the order in which the permutation visits it, and the list of starts and lengths agrees; the permutation is not modified. The shipped AES and SMS4 tables are permutations of 0..255 and are those of the ciphers.',
  ['inputs'], 'all permutations', 'There is no test of the analysis package.', ['analysis/permutation.py', 'analysis/sbox_analysis.py'], [('cycle walk', 'map_orbits_of_permutation')], ['map_orbits_of_permutation', 'orbit_start_and_length'])
p('C41', 'Walsh spectra and non-linearity measures are exact',
  'For every binary sequence whose length is a power of two, walshTransform returns the Walsh-Hadamard spectrum in natural order and nonLinearity half the length minus half the largest absolute spectrum value, in both analysis modules; other lengths are refused. sboxNonlinearity returns the smallest and largest non-linearity over all non-zero output masks, for every S-box with 2^n entries below 2^n.',
  ['inputs'], 'all binary sequences and all S-boxes', 'There is no test of the analysis package.', ['analysis/walshtransform.py', 'analysis/sbox_nonlinearity.py'], [('transform', 'walshTransform, binaryInnerProduct')], ['walshTransform', 'nonLinearity', 'sboxNonlinearity', 'binaryInnerProduct', 'log2n'])
p('C42', 'Threads that share no object never influence each other\'s results',
  'When two threads use the library at the same time, each with its own objects and arguments (the same values or different ones), every thread gets in every interleaving exactly the results it would get alone, and so do all later calls.',
  ['schedules'], 'all interleavings of two threads over pairs of operations', 'No test uses a second thread; a scratch buffer or cache shared between calls is only wrong under particular interleavings.',
  [CH, 'cipher/aes_siv.py', EC, NT, 'hash/tkip_key_mixing.py', 'fmath/galoisfield.py'], [('no module-level mutable state on the calculation paths', 'all modules')], ['all public operations'])
p('C43', 'Results do not depend on earlier calls, and arguments are left unmodified',
  'Every public operation returns, for the same arguments, the same result whatever other operations ran before in the process, including operations that failed, and whatever the caller did with the lists returned before, and leaves lists, keys, messages, points and curve objects given as arguments as they were. (polynomial_reduce_mod, which works in place on its first argument, is exempt from the second part.)',
  ['histories'], 'all sequences of operations', 'Each test runs its operations once in one order on fresh data.',
  [CH, 'cipher/aes_siv.py', EC, NT, 'hash/tkip_key_mixing.py', 'fmath/galoisfield.py'], [('no module-level mutable state', 'all modules')], ['all public operations'])
p('C44', 'An operation broken off by an exception leaves no trace',
  'When an operation is broken off at any point by an exception (an interrupt, lack of memory, or an error of the random source, block cipher or pseudorandom function it uses), the caller gets an exception or the right result, never another one; the arguments are unchanged; and all later operations, on other objects and on the same cipher, AEAD, curve, field, MIC and key mixer objects, give the results they would give if the broken one had never been started. (ChaCha and HMAC objects hold the position in a stream: the object that was broken off is exempt, but an HMAC object is right again once it is keyed or reset, and a key mixer whose setter was broken off once that setter is repeated. polynomial_reduce_mod works in place.)',
  ['fault_sequences', 'histories'], 'all operations, all points at which an exception can arise, and all operations that follow',
  'No test raises an exception within an operation; partly updated state is only visible at particular points and to particular later calls.',
  [CH, 'cipher/aes_siv.py', EC, NT, 'hash/tkip_key_mixing.py', 'fmath/galoisfield.py'], [('state kept in objects is set last', 'hash/tkip_key_mixing.py newKey'), ('no module-level mutable state', 'all modules')], ['all public operations'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
open(out, 'w').write(''.join(json.dumps(x, sort_keys=False) + '\n' for x in P))
print(len(P))
