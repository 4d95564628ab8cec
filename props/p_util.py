from jobs import Job, Prop
js = []
for n in (1, 2, 3, 5):
    for kl in (16, 24, 32):
        js.append(Job('h_util.c', 't_wrap', [n, kl, (n + kl // 8) % 2]))
        js.append(Job('h_util.c', 't_unwrap', [n, kl]))
for n in (42, 43, 50):
    js.append(Job('h_util.c', 't_wrap', [n, 16, 0], cost=3, limit=90))
    js.append(Job('h_util.c', 't_unwrap', [n, 16], hdefs=['-DLINEAR'], limit=90))
    js.append(Job('h_util.c', 't_wrap', [n, 16, 0], hdefs=['-DLINEAR']))
for n in (0, 1, 7, 9, 15, 17, 23):
    js.append(Job('h_util.c', 't_wraplen', [n]))
Prop('P38', js, 'Keys of 1, 2, 3, 5, 42, 43 and 50 blocks of 8 bytes, key-encryption keys of 16, 24 and 32 bytes, unsuitable lengths up to 23.',
     ['AES is taken as an arbitrary keyed permutation; its correctness is P05.'])
js = [Job('h_util.c', 't_prng_noseed')]
for n in (1000, 0, 1, 15, 16, 17, 31, 32, 33, 48):
    for rq in ((16,), (1, 1, 15), (20, 30), (5, 11, 16), (5, 27, 3), (33, 15, 1), (15, 1, 1, 32), (3, 4, 8, 2))[:3 if n > 30 and n < 1000 else 8]:
        js.append(Job('h_util.c', 't_prng_aes', [n, 0] + list(rq) + [0] * (6 - len(rq))))
for ff in (1, 2, 3, 4, 7, 8, 9, 15, 16):
    js.append(Job('h_util.c', 't_prng_aes', [32, ff, 7, 50, 0, 0]))
for n in (0, 1, 3, 4, 8, 15, 16, 17, 20, 32, 40):
    for m in (0, 16, 5):
        for rq in ((4, 1, 3, 8), (2, 9, 7)):
            js.append(Job('h_util.c', 't_prng_lfsr', [n, m] + list(rq) + [0] * (6 - len(rq))))
Prop('P39', js, 'Seeds of up to 48 bytes, sequences of up to 4 requests of up to 50 bytes, counters with up to 16 trailing 0xff bytes.',
     ['AES is taken as an arbitrary keyed permutation; its correctness is P05.'])
