from jobs import Job, Prop
H = 'h_hash.c'
NAMES = {0: 'MD5', 1: 'SHA-1', 2: 'SHA-256', 3: 'SHA-512', 4: 'SHA-384'}
for pid, algs in (('P01', [0]), ('P02', [1]), ('P03', [2]), ('P04', [3, 4])):
    js = []
    for a in algs:
        b = 128 if a >= 3 else 64
        step = 10
        if a >= 3:
            js.append(Job(H, 't_oneshot', [a, 0, 0]))
            js.append(Job(H, 't_oneshot', [a, 1, 1], tier='thorough', limit=3000, check_tmo=2500))
        for lo in range(2 if a >= 3 else 0, 2 * b + 21, step):
            js.append(Job(H, 't_oneshot', [a, lo, min(lo + step - 1, 2 * b + 20)], cost=2))
        if a != 4:
            for lo in range(0, b, 4):
                js.append(Job(H, 't_chunks2', [a, lo, lo + 3], cost=3))
        else:
            for lo in range(0, b, 16):
                js.append(Job(H, 't_chunks2', [a, lo, lo], cost=3))
        for i in range(6):
            js.append(Job(H, 't_chunks3', [a, i], cost=3))
        js.append(Job(H, 't_bytes', [a, 2 * b + 7]))
        for n0, n1 in ((0, 0), (1, b - 9), (b - 1, 3), (b // 2, b // 2), (b - b // 8 - 1, 1)):
            js.append(Job('h_hashlen.c', 't_long', [a, n0, n1]))
    Prop(pid, js, 'messages of 0..%d bytes in one call; two and three part divisions with parts up to %d bytes around '
         'every buffer position; byte-by-byte up to %d bytes; continuation of a message with an arbitrary earlier '
         'total length. Single update calls of 4 GiB and more lie outside.' % (2 * b + 20, 2 * b, 2 * b + 7))
