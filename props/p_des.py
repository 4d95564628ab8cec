from jobs import Job, Prop
H = 'h_des.c'
js = []
for k in (8, 24):
    for dec in (0, 1):
        for ln, ip, old in ((0, 0, 0), (8, 0, 0), (8, 1, 1), (24, 0, 1), (24, 1, 0)):
            js.append(Job(H, 't_des', [k, ln, ip, dec, old]))
        js.append(Job(H, 't_inv', [k, dec]))
Prop('P06', js, 'All 64-bit (DES) and 192-bit (triple DES) keys and all data of 0..3 blocks, in place or not.')
