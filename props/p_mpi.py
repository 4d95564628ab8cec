from jobs import Job, Prop
js = []
for op in (0, 1):
    for sa, sb in ((0, 0), (0, 1), (1, 0), (1, 1)):
        for na, nb in ((1, 1), (3, 2), (2, 3), (0, 2), (3, 0), (4, 4)):
            for al, ex in ((0, 0), (1, 0), (2, 0), (4, 5), (3, 1)):
                if al >= 3 and (na != nb or sa != sb):
                    continue
                if (na, nb) in ((1, 1), (0, 2), (3, 0)) and al == 1:
                    ex = 2
                js.append(Job('h_mpi.c', 't_add', [op, na, sa, nb, sb, al, ex], 'd8'))
for op in (2, 3):
    for na, nb in ((1, 1), (3, 2), (2, 3), (0, 2), (3, 0), (3, 3)):
        for al, ex in ((0, 0), (1, 0), (2, 3), (3, 0), (4, 0)):
            if al >= 3 and na != nb:
                continue
            js.append(Job('h_mpi.c', 't_add', [op, na, 1, nb, 0 if na == 1 else 1, al, ex], 'd8'))
for tag in ('d16', 'd32', 'd64'):
    for op in (0, 1):
        for sb in (0, 1):
            n = 2 if tag == 'd16' or op == sb else 1
            js.append(Job('h_mpi.c', 't_add', [op, n, 0, n, sb, sb, 0], tag))
            js.append(Job('h_mpi.c', 't_add', [op, 1, 1, 3, sb, 2 * sb, 0], tag))
for tag in ('d8', 'd64'):
    for a in ((0, 0, 0, 0), (0, 0, 1, 0), (0, 0, 1, 1), (1, 0, 1, 0), (1, 1, 1, 1), (1, 1, 2, 1), (2, 0, 2, 1), (2, 1, 2, 0), (3, 0, 3, 0), (3, 1, 3, 1), (3, 0, 2, 0)):
        js.append(Job('h_mpi.c', 't_cmp', a, tag))
Prop('P19', js, '8-bit digits: numbers of up to 4 digits with every pair of signs; 16, 32 and 64-bit digits: up to 3 digits; every aliasing of result and operands; '
     'results with and without spare room.')
js = []
for tag, shs in (('d8', (0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 40)), ('d64', (0, 1, 63, 64, 65, 100)), ('d32', (5, 32, 33))):
    for i, n in enumerate(shs):
        for right in (0, 1):
            for d in ((0, 1, 2, 3) if tag == 'd8' else (1, 2)):
                for ip in (0, 1):
                    js.append(Job('h_mpi.c', 't_shift', [d, (i + d + ip) % 2, n, ip, right, (i + d) % 3 * 3], tag))
for tag in ('d8', 'd16', 'd32', 'd64'):
    for d in (0, 1, 2, 3) if tag == 'd8' else (0, 1, 3) if tag != 'd64' else (0, 2):
        js.append(Job('h_mpi.c', 't_bits', [d, d & 1], tag))
Prop('P23', js, 'Numbers of up to 3 8-bit digits and 2 32 or 64-bit digits of either sign, shifts across digit boundaries, in place or not, with and without spare room.')
js = []
for tag in ('d8', 'd16', 'd64'):
    for n in ((0, 1, 2, 3, 4, 5) if tag == 'd8' else (0, 1, 3, 4) if tag == 'd16' else (1, 7, 8, 9, 16, 17)):
        for d, sg, ini in ((1, 1, 0), (2, 0, 0), (0, 0, 0), (0, 0, 1)):
            js.append(Job('h_mpi.c', 't_loadbin', [n, d, sg, ini], tag))
    for d in (0, 1, 2, 3):
        for n in (0, 1, 2, 3, 5) if tag == 'd8' else (0, 3, 4, 6, 7) if tag == 'd16' and d < 3 else ((7,) if d == 1 else (17,) if d == 2 else ()):
            for pad in (0, 1):
                js.append(Job('h_mpi.c', 't_storebin', [d, (d + n) % 2, n, pad], tag, hdefs=['-DSTUB_BITS']))
Prop('P24', js, 'Byte strings of up to 17 bytes (leading zeros included), numbers of up to 3 digits of 8, 16 and 64 bits, buffers smaller, equal and larger than needed.')
js = []
for tag in ('d8', 'd16', 'd32', 'd64'):
    for d in {'d8': (0, 1, 7, 8, 9), 'd16': (0, 3, 4, 5), 'd32': (0, 1, 2, 3), 'd64': (0, 1, 2)}[tag]:
        for sg in (0, 1):
            js.append(Job('h_mpi.c', 't_getint', [d, sg], tag))
            js.append(Job('h_mpi.c', 't_copy', [d, sg, 1, 1 - sg, 0, 0], tag))
            js.append(Job('h_mpi.c', 't_copy', [d, sg, 1, 1 - sg, 0, 1], tag))
            js.append(Job('h_mpi.c', 't_copy', [d, sg, 0, 0, 1, 0], tag))
    for a in ((0, 0, 1), (0, 0, 0), (1, 1, 0), (2, 0, 0)):
        js.append(Job('h_mpi.c', 't_setint', a, tag))
Prop('P26', js, 'Every long; numbers of up to 9 digits of 8 bits, 5 of 16, 3 of 32 and 2 of 64 bits.')
