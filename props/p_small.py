from jobs import Job, Prop
js = []
for k in range(4):
    for a in ((0, 0), (1, 0), (2, 0), (3, 1), (4, 4), (1, 7), (16, 5), (40, 24)):
        js.append(Job('h_crc.c', 't_crc', [k] + list(a)))
    for n in (1, 2, 8):
        js.append(Job('h_crc.c', 't_step', [k, n]))
Prop('P14', js, 'All data of up to 64 bytes in two pieces, and from an arbitrary register (any amount of data before).')
js = []
for nk in (1, 2, 5, 16, 255, 256, 300):
    js.append(Job('h_stream.c', 't_arc4', [nk, max(0, nk - 2), 2, 1, nk & 1], limit=100))
for a in ((0, 1, 0), (1, 1, 255), (2, 1, 254), (3, 2, 100)):
    js.append(Job('h_stream.c', 't_arc4s', a))
Prop('P15', js, 'Keys of 1 to 300 bytes with their last two bytes (or the only one) arbitrary, three bytes of output in two calls; any state (256 arbitrary cells, any second index) and three outputs across the wrap of the first index.')
js = []
for a in ((10, 10), (0, 0), (3, 5), (9, 10), (10, 4)):
    for n1, n2, ip in ((16, 0, 0), (4, 12, 1), (8, 5, 0), (0, 3, 1)):
        js.append(Job('h_stream.c', 't_triv', list(a) + [n1, n2, ip]))
for a in ((4, 0, 0), (12, 12, 0), (12, 7, 1), (5, 3, 0), (40, 0, 1), (0, 1, 0)):
    js.append(Job('h_stream.c', 't_trivs', a))
Prop('P16', js, 'Keys and IVs of the listed lengths up to 10 bytes, two IVs in sequence, up to 17 bytes of output in two calls; any state and up to 41 bytes.')
js = []
for n in list(range(0, 10)) + [24, 31]:
    js.append(Job('h_misc.c', 't_b64enc', [n]))
for n in (0, 1, 2, 3, 4, 5, 7, 8, 9):
    js.append(Job('h_misc.c', 't_b64dec', [n]))
Prop('P17', js, 'All byte strings of 0 to 9, 24 and 31 bytes; all texts of up to 9 characters.')
js = [Job('h_misc.c', 't_inv', [])]
for nk in (0, 1, 2, 3, 16, 17):
    for n, ip in ((0, 0), (1, 0), (5, 1)) + (((20, 0),) if nk in (3, 17) else ()):
        js.append(Job('h_misc.c', 't_affine', [nk, n, ip], hdefs=['-DSTUB']))
js.append(Job('h_misc.c', 't_hill', [0, 0, 0], hdefs=['-DSTUB']))
for nk in (1, 2, 3, 4, 5, 8, 9):
    for nb, ip in ((0, 0), (1, 0), (2, 1)):
        js.append(Job('h_misc.c', 't_hill', [nk, nb, ip], hdefs=['-DSTUB']))
Prop('P18', js, 'Affine keys of up to 17 factors and 20 bytes; Hill keys of dimension 1 to 3 and two blocks; all contents.', ['Hill data is a whole number of blocks'])
