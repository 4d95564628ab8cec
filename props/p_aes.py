from jobs import Job, Prop
H = 'h_aes.c'
js = []
for k in (16, 24, 32):
    for dec in (0, 1):
        for ln in (0, 15, 16, 31, 32, 49):
            for ip in (0, 1):
                js.append(Job(H, 't_enc', [k, ln, ip, dec]))
    for h in range(8):
        js.append(Job(H, 't_hist', [k, h, 3]))
    for k2 in (16, 24, 32):
        for m in range(4):
            js.append(Job(H, 't_rekey', [k, k2, m & 1, m >> 1]))
    js += [Job(H, 't_inv', [k, 0]), Job(H, 't_inv', [k, 1])]
    for h in range(32):
        js.append(Job(H, 't_hist', [k, h, 5], tier='thorough'))
Prop('P05', js, 'All keys of 128, 192 and 256 bits, all data of 0..49 bytes per call, all histories of three (thorough: '
     'five) encrypt/decrypt calls on one context, one re-keying. Key lengths other than 16, 24, 32 bytes lie outside.')
