from jobs import Job, Prop
js = []
for hs in (0, 1, 2):
    for dec in (0, 1):
        for ip in (0, 1):
            for a in ((12, 12, 0, 0, 0), (12, 0, 0, 1, 0), (12, 1, 0, 16, 0), (12, 16, 5, 16, 16), (12, 20, 0, 32, 7), (12, 0, 0, 48, 13),
                      (12, 13, 0, 64, 0), (12, 32, 16, 0, 15), (12, 3, 0, 128, 130)):
                if (hs == 0 or ip == 0) and (hs == 0 or a[3] < 128):
                    js.append(Job('h_gcm.c', 't_gcm', list(a) + [dec, ip, 16, 0, hs]))
            if hs == 0:
                js.append(Job('h_gcm.c', 't_gcm', [12, 0, 0, 48, 5, dec, ip, 16, 1, hs]))
                js.append(Job('h_gcm.c', 't_gcm', [12, 16, 0, 16, 3, dec, ip, 16, 2, hs]))
for nv in (1, 8, 11, 13, 15, 16, 17, 20, 32, 60):
    js.append(Job('h_gcm.c', 't_gcm', [nv, 4, 0, 17, 0, 0, 0, 16, 3, nv % 2 * 2]))
for nv in (13, 16, 33):
    js.append(Job('h_gcm.c', 't_gcm', [nv, 4, 0, 17, 0, 0, 0, 16, 0, 1]))
for nt in (1, 4, 8, 12, 13, 15):
    js.append(Job('h_gcm.c', 't_gcm', [12, 4, 0, 5, 0, 0, 0, nt, 0, 0]))
for n in (0,):
    js.append(Job('h_gcm.c', 't_len', [n]))
Prop('P11', js, 'Every 128-bit block cipher and key; IVs of 1 to 60 bytes; additional data up to 48 and data up to 258 bytes in one or two '
     'pieces (the first a multiple of 16 bytes), tags of 1 to 16 bytes, wrap of the 32-bit counter, all lengths below 2^60 processed before. The '
     'hash key is arbitrary for one multiplication, and one of three constants in the jobs with several blocks (there the multiplication is linear in the data).',
     ['pieces other than the last have whole blocks', 'source and destination are the same buffer or do not overlap'])
js = []
for nk in (16, 32):
    for a in ((0, 0, 0), (1, 0, 0), (15, 0, 0), (16, 0, 0), (17, 0, 0), (32, 0, 0), (40, 0, 0), (0, 16, 0), (8, 8, 0), (8, 8, 1), (16, 16, 0), (16, 0, 16),
              (16, 1, 15), (5, 5, 5), (5, 11, 16), (31, 1, 1), (33, 15, 16), (1, 31, 0), (1, 32, 31), (20, 40, 4), (64, 64, 64), (7, 100, 21), (3, 0, 13)):
        js.append(Job('h_mac.c', 't_cmac', list(a) + [nk]))
Prop('P12', js, 'Every 128-bit block cipher and key (16 and 32 bytes), every message of the listed lengths up to 192 bytes in up to three pieces, the context used twice.')
js = []
for hl in (16, 20, 28, 32, 48, 64):
    for nk in ((0, 1, 16, 63, 64, 65, 100, 131) if hl in (16, 20, 32, 64) else (20, 65)):
        for a in ((0, 0), (1, 0), (28, 5)) if hl != 32 else ((0, 0), (7, 1), (64, 0), (63, 66)):
            js.append(Job('h_mac.c', 't_hmac', [hl, nk] + list(a)))
Prop('P13', js, 'Every hash function with 64 byte blocks and a digest of 16 to 64 bytes, every key of 0 to 131 bytes (listed lengths), every message of up to 129 bytes in two pieces, the context used twice.',
     ['the hash has 64 byte blocks (the context of the library has room for no more: SHA-384/512 are outside)'])
