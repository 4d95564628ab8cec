from jobs import Job, Prop
H = 'h_cbc.c'
js = []
for bs in (8, 16):
    for ip in (0, 1):
        for dec in (0, 1):
            for n1, n2 in ((0, 0), (0, bs), (bs, 0), (bs, bs), (bs - 1, 2 * bs), (2 * bs + 3, bs + 1), (3 * bs, 4 * bs),
                           (512, bs), (512 + bs, 512), (1024 + bs, 2 * bs)):
                js.append(Job(H, 't_cbc', [bs, ip, dec, n1, n2, 0]))
        for n in (0, bs, 5 * bs, 512 + 3 * bs):
            js.append(Job(H, 't_rt', [bs, ip, n]))
    for n1, n2 in ((bs, bs), (3 * bs, 3 * bs), (512 + bs, bs)):
        for f in (1, 2):
            js.append(Job(H, 't_cbc', [bs, 1, 1, n1, n2, f]))
Prop('P07', js, 'Every block cipher (an arbitrary permutation per key) with 8 or 16 byte blocks, every key, IV and data; '
     'two consecutive calls of up to 1072 bytes each, in place or into a separate buffer, and every failing allocation.',
     ['source and destination are the same buffer or do not overlap'])
