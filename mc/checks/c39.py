# Digits of pi, table of primes
import mclib, ref

M = mclib.load('fmath.pi')
T = mclib.load('fmath.primes_to_5k')


def arctan_inverse(x, unity):
    total = term = unity // x
    n, sign = 3, -1
    x2 = x * x
    while term:
        term //= x2
        total += sign * (term // n)
        sign, n = -sign, n + 2
    return total


def machin(digits):
    unity = 10 ** (digits + 12)
    return 4 * (4 * arctan_inverse(5, unity) - arctan_inverse(239, unity)) // 10 ** 12


def stormer(digits):
    unity = 10 ** (digits + 12)
    return 4 * (44 * arctan_inverse(57, unity) + 7 * arctan_inverse(239, unity) - 12 * arctan_inverse(682, unity) + 24 * arctan_inverse(12943, unity)) // 10 ** 12


def run(cx):
    size = len(M.pi_string) - 2
    cx.group('the table')
    # every shard knows the digits; one compares them all
    want = str(machin(50010))
    digits = want[1:50001]
    if cx.take():
        cx.ok('the first 50000 digits', M.pi_string[:2] == '3.' and size >= 50000, M.pi_string[:8], '50000 digits')
        cx.ok('pi_string is text without blanks', M.pi_string[2:].isdigit(), False, True)
    for i in range(0, 50000, 50):
        if cx.take():
            for j in range(i, i + 50):
                cx.eq('digit %d' % (j + 1), digits[j], lambda: M.pi_string[2 + j])
    if cx.take() and cx.thorough:
        cx.ok('a second formula', str(stormer(50010))[1:50001] == digits, False, True)

    def frac(k, *args):
        p = 10 ** k
        r = cx.call('pi(%s)' % ', '.join(map(str, args)), M.pi, *args)
        n = 3 * p + (int(digits[:k]) if k else 0)
        if isinstance(r, mclib.Raised):
            cx.ok('pi(%r)' % (args,), False, r, 'a fraction')
        else:
            cx.ok('pi(%r)' % (args,), r.numerator * p == n * r.denominator, 'another value', 'the first %d decimals' % k)

    cx.group('fractions')
    # a number of digits whose last digit is 0 gives the same value as one digit less; take those too
    for k in range(1, cx.thorough and 1500 or 520):
        if cx.take():
            frac(k, k)
    some = set()
    for b in range(9, 14):
        some |= set((2 ** b - 1, 2 ** b, 2 ** b + 1))
    some |= set((999, 1000, 1001, 1999, 2000, 2500, 4000))
    if cx.thorough:
        some |= set((9999, 10000, 10001, 16383, 16384, 20000, 25000))
    for k in sorted(some):
        if (k <= 8200 or cx.thorough) and cx.take():
            frac(k, k)
    cx.group('fractions of many digits')
    for k in sorted(set(range(4500, 10001, cx.thorough and 100 or 500)) | set(range(12500, 50001, 2500)) | set((9999, 10001, 16383, 16384, 16385, 32767, 32768, 32769, 49998, 49999))):
        if cx.take():
            frac(k, k)
    cx.group('all digits, too many digits')
    if size == 50000:
        if cx.take():
            frac(size)
        if cx.take():
            frac(size, None)
        for k in (size + 1, size + 2, size + 50, 2 * size, 1 << 31, 10 ** 20):
            if cx.take():
                cx.refused('pi(%d)' % k, M.pi, k)
    cx.group('primes below 5000')
    table = list(T.primes_to_5k)
    want = ref.sieve(5000)
    if cx.take():
        cx.ok('number of primes', len(table) == len(want), len(table), len(want))
    for i in range(5000):
        if cx.take():
            cx.ok('%d is listed %d times' % (i, want.count(i)), table.count(i) == want.count(i), table.count(i), want.count(i))
    for i in range(len(want)):
        if cx.take():
            cx.eq('prime %d' % i, want[i], lambda: table[i])
