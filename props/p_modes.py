from jobs import Job, Prop
js = []
for bs in (8, 16):
    for ip in (0, 1):
        for dec in (0, 1):
            for n1, n2 in ((0, 0), (0, 1), (0, bs - 1), (bs, 0), (bs, bs), (2 * bs, bs + 3), (3 * bs, 4 * bs), (0, 9 * bs + 5),
                           (128, 130)):
                js.append(Job('h_cfb.c', 't_cfb', [bs, ip, dec, n1, n2]))
            for n1, n2 in ((0, 0), (0, 1), (1, 1), (bs - 1, 2), (bs, bs), (bs + 1, bs), (3 * bs + 5, 2 * bs), (5, 2 * bs + 1),
                           (2 * bs, 3)):
                js.append(Job('h_cfb.c', 't_cfb8', [bs, ip, dec, n1, n2]))
        for n in (0, 1, bs, 3 * bs + 5):
            for e in (0, 1):
                js.append(Job('h_cfb.c', 't_rt', [bs, ip, n, e]))
Prop('P08', js, 'Every block cipher with 8 or 16 byte blocks, every key, IV and data of up to 258 bytes in two calls; full '
     'block feedback is continued after whole blocks, 8-bit feedback after any number of bytes.',
     ['source and destination are the same buffer or do not overlap'])
js = []
for bs in (8, 16):
    for ip in (0, 1):
        for n1, n2 in ((0, 0), (1, 1), (bs, bs), (bs - 1, bs), (2 * bs + 3, 3 * bs), (63, 64), (64, 65), (64, 128), (130, 7),
                       (200, 64)):
            for m in (0, 1, 2, bs - 1, bs, 100, 753):
                if m == 0 and n1 + n2 > 3 * bs:
                    continue
                js.append(Job('h_ctr.c', 't_ctr', [bs, ip, n1, n2, m]))
Prop('P09', js, 'Every block cipher with 8 or 16 byte blocks, every key and data of up to 264 bytes in two calls, in place or '
     'not; initial counters arbitrary (up to three blocks), without carry out of the low byte, with 0xfd in the low byte, or with 1, 2, all but one or all trailing bytes 0xff (carry and wrap-around).',
     ['source and destination are the same buffer or do not overlap', 'the IV is one block long'])
js = []
for n in (0, 1, 2, 3, 5, 8):
    for d in range(0, 3 * n + 3, 1 if n < 8 else 3):
        js.append(Job('h_memxor.c', 't_xor2', [n, d]))
for n in (0, 1, 2, 5, 9):
    js.append(Job('h_memxor.c', 't_xor', [n]))
for n in (1, 2, 5):
    js.append(Job('h_memxor.c', 't_oom', [n]))
js.append(Job('h_memxor.c', 't_oom4', []))
for n in (7, 12, 16):
    for d in range(0, 3 * n + 3):
        js.append(Job('h_memxor.c', 't_xor2', [n, d], tier='thorough'))
Prop('P10', js, 'All contents and all relative positions of the areas for sizes up to 8 (thorough 16) bytes.')
