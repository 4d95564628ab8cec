from jobs import Job, Prop
js = []
for c in (4, 5):
    for al in range(5):
        js.append(Job('h_ecp.c', 't_add', [c, al]))
for c in (0, 1, 2, 3, 4, 5):
    for ip in (0, 1):
        js.append(Job('h_ecp.c', 't_dbl', [c, ip]))
        js.append(Job('h_ecp.c', 't_ecmul', [c, 1, 12, ip], hdefs=['-DSTUB_EC']))
    for ip in (0, 1):
        js.append(Job('h_ecp.c', 't_ecmul2', [c, ip], hdefs=['-DSTUB_EC']))
    if True:
        js.append(Job('h_ecp.c', 't_ecmul', [c, 99, 6, 0], hdefs=['-DSTUB_EC']))
Prop('P32', js, 'Addition: all pairs of points of two cyclic curves (9 points over GF(5), 6 points over GF(7)), every aliasing; doubling: all points of 6 curves over fields up to GF(23); '
     'multiplication: factors of up to 12 bits (of the generator), up to 6 bits (of any point) and two-digit factors with symbolic bits around the digit boundary, 6 curves; 64-bit digits. Larger fields are outside the bounds.')
js = []
for g, d in ((0, 3), (0, 10), (1, 4), (2, 2)):
    for l in (0, 1, 2, 9):
        js.append(Job('h_pk.c', 't_verify', [g, d, l, 0], hdefs=['-DDSA']))
        js.append(Job('h_pk.c', 't_sign', [g, d, l], hdefs=['-DDSA']))
    for sg in (1, 2, 3):
        js.append(Job('h_pk.c', 't_verify', [g, d, 1, sg], hdefs=['-DDSA']))
Prop('P34', js, 'Groups (p, q) = (23, 11), (29, 7), (11, 5) with fixed keys; r and s from -62 to 62; digests of 0, 1, 2, 9 bytes; at most two random draws; 64-bit digits. Key generation is not covered.')
js = []
for g, d in ((0, 3), (1, 10), (2, 2)):
    for e in (0, 1):
        for l in (0, 1, 2):
            js.append(Job('h_pk.c', 't_verify', [g, d, l, 0, e]))
            js.append(Job('h_pk.c', 't_sign', [g, d, l, 0, e]))
    for sg in (1, 2, 3):
        js.append(Job('h_pk.c', 't_verify', [g, d, 1, sg, 0]))
Prop('P36', js, 'p = 23, 13, 7 with fixed keys; r and s from -40 to 40; messages of 0, 1, 2 bytes; at most two random draws; 64-bit digits.')
js = []
for g, d in ((0, 3), (1, 7), (6, 3), (6, 4), (7, 2), (8, 5)):
    for l in (0, 1, 2, 9):
        q = g >= 6 or l == 0
        js.append(Job('h_ecp.c', 't_verify', [g, d, l, 0], hdefs=['-DECDSA'], tier='quick' if q else 'thorough'))
        js.append(Job('h_ecp.c', 't_sign', [g, d, l], hdefs=['-DECDSA'], tier='quick' if q else 'thorough'))
    for sg in (1, 2, 3):
        js.append(Job('h_ecp.c', 't_verify', [g, d, 1, sg], hdefs=['-DECDSA']))
for g in (0, 1, 6, 7, 8):
    js.append(Job('h_ecp.c', 't_keygen', [g, 1], hdefs=['-DECDSA']))
Prop('P35', js, 'Curves of order 19 (empty digest; all digests in the thorough tier), 5 and 7 with fixed keys; r and s from -40 to 40; digests of 0, 1, 2, 9 bytes; at most two random draws; 64-bit digits.')
