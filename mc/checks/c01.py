# ChaCha20 output, by the Java platform's ChaCha20 and a plain model
import mclib, ref, rare_words

BASE = ref.octets(32, 1)
NONCE = ref.octets(12, 2)


def bit(n, i):
    return (i // 8) * '\0' + chr(1 << (i % 8)) + (n - 1 - i // 8) * '\0'


def run(cx):
    M = mclib.load('cipher.chacha_poly')

    def enc(key, counter, nonce, data):
        return M.ChaCha(key, counter=counter, nonce=nonce).encrypt(data)

    def dec(key, counter, nonce, data):
        return M.ChaCha(key, counter=counter, nonce=nonce).decrypt(data)

    def one(key, counter, nonce, data, desc):
        if cx.take():
            ct = ref.chacha_xor(key, counter, nonce, data)
            cx.eq('encrypt ' + desc, ct, enc, key, counter, nonce, data)
            cx.eq('decrypt ' + desc, data, dec, key, counter, nonce, ct)

    keys = [32 * '\0', 32 * '\xff', ''.join([chr(i) for i in range(32)]), BASE, 32 * '\x80', '\0' + BASE[1:], BASE[:31] + '\0',
            16 * '\0' + 16 * '\xff', 16 * '\xff' + 16 * '\0']
    nonces = [12 * '\0', 12 * '\xff', ''.join([chr(i) for i in range(12)]), NONCE, 12 * '\x80', '\0' + NONCE[1:], NONCE[:11] + '\0',
              4 * '\0' + NONCE[4:], NONCE[:8] + 4 * '\0']
    counters = sorted(set([0, 1, 2, 3, 9, 10, 11, 63, 64, 65] + [(1 << k) + d for k in range(7, 32) for d in (-1, 0, 1)] +
                          [0xFFFFFFFF - d for d in range(5)] + [0x01020304, 0x80000001, 0xFEFFFFFF, 0x7FFFFFFE]))

    cx.group('every length from 0 to 320')
    for n in range(321):
        one(BASE, 1, NONCE, ref.octets(n, n), 'length %d' % n)

    cx.group('long messages')
    for n in (511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 16319, 16320, 16383, 16384, 16385, 16448, 32767, 32768, 65535, 65536, 65537,
              100000, 131071, 131072, 131073, 262144, 262145) + (cx.thorough and ((1 << 20) + 1, (1 << 22) + 65) or ()):
        one(BASE, 0, NONCE, ref.octets(n, n), 'length %d' % n)

    cx.group('key, nonce and counter classes')
    for i, k in enumerate(keys):
        for j, n in enumerate(nonces):
            for c in (0, 1, 255, 256, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF):
                one(k, c, n, ref.octets(64, i), 'key class %d, nonce class %d, counter %#x' % (i, j, c))

    cx.group('every single bit of the key')
    for i in range(256):
        one(bit(32, i), 1, NONCE, 64 * '\0', 'bit %d' % i)
        one(ref.xors(BASE, bit(32, i)), 0, NONCE, 64 * '\0', 'bit %d changed' % i)

    cx.group('every single bit of the nonce')
    for i in range(96):
        one(BASE, 1, bit(12, i), 64 * '\0', 'bit %d' % i)
        one(BASE, 0, ref.xors(NONCE, bit(12, i)), 64 * '\0', 'bit %d changed' % i)

    cx.group('counters, crossing into the next blocks')
    for c in counters:
        blocks = min(3, (1 << 32) - c)
        one(BASE, c, NONCE, ref.octets(64 * blocks, 3), 'counter %#x, %d blocks' % (c, blocks))
        one(keys[0], c, nonces[0], 17 * '\0', 'zero key, counter %#x' % c)

    cx.group('every octet value')
    for v in range(256):
        one(BASE, 7, NONCE, 70 * chr(v), 'octet %#x' % v)

    cx.group('message forms')
    for i, d in enumerate(['\0', '\0\0', 64 * '\0', 65 * '\0', '\0' + ref.octets(70), ref.octets(70) + '\0', ref.octets(63) + '\0\0',
                           63 * 'a' + '\n', '\r\n', ' ', ' ' + 64 * ' ', 128 * '\xff', 'abc', ''.join([chr(i) for i in range(256)])]):
        one(BASE, 1, NONCE, d, 'form %d' % i)

    cx.group('key stream blocks of many keys and nonces')
    for i in range(cx.thorough and 20000 or 1200):
        one(ref.octets(32, 1000 + i), (i * 2654435761) & 0x7FFFFFFF, ref.octets(12, 5000 + i), 64 * '\0', 'key and nonce %d' % i)

    cx.group('inner words at the edge of 32 bits')
    for n in rare_words.CHACHA:
        w = rare_words.chacha_words(n)
        one(''.join([ref.le(x, 4) for x in w[:8]]), w[8], ''.join([ref.le(x, 4) for x in w[9:]]), 64 * '\0', 'seed %#x' % n)

    if cx.thorough:
        cx.group('every length from 321 to 1300')
        for n in range(321, 1301):
            one(BASE, 1, NONCE, ref.octets(n, n), 'length %d' % n)
        cx.group('two bits of key and nonce')
        for i in range(256):
            for j in range(96):
                one(bit(32, i), 1, bit(12, j), 64 * '\0', 'key bit %d, nonce bit %d' % (i, j))
        cx.group('very long messages')
        for n in ((1 << 20) - 1, 1 << 20, (1 << 20) + 65):
            one(BASE, 0, NONCE, ref.octets(n, n), 'length %d' % n)

    # the model itself against the second model, on the cases' corners
    cx.group('model against model')
    for k in keys:
        for n in nonces:
            for c in (0, 1, 0xFFFFFFFF):
                if cx.take():
                    assert ref.chacha_block(k, c, n) == ref.chacha_xor(k, c, n, 64 * '\0')
                    cx.traces += 1
