from jobs import Job, Prop
def mul(js, fn, na, sa, nb, sb, al=0, ex=0, mode=0, c=0, k=0, tag='d8', **o):
    js.append(Job('h_mul.c', 't_mul', [fn, na, sa, nb, sb, al, ex, mode, c, k], tag, **o))
js = []
for fn in (0, 1, 2):
    for na, nb in ((0, 2), (2, 0), (1, 1), (2, 1), (1, 3)):
        for al in (0, 1, 2):
            mul(js, fn, na, al & 1, nb, 1, al, na, 1 if al and na + nb > 2 else 0)
    mul(js, fn, 2, 0, 2, 1, fn, fn, 2, 0xffff, cost=5)
    mul(js, fn, 3, 0, 4, 1, 0, 9, 1, cost=5)
    mul(js, fn, 2, 1, 2, 1, 3, 0, 1)
    mul(js, fn, 3, 0, 3, 1, 4, 0, 1)
    for tag in ('d16', 'd32', 'd64'):
        mul(js, fn, 2, 1, 3, 0, fn, 0, 2, 0xffff, 0, tag, hdefs=['-DWBITS=512'])
for n, sg in ((0, 0), (1, 1), (2, 0), (2, 1)):
    js.append(Job('h_mul.c', 't_muldig', [n, sg, n & sg], 'd8'))
for na, nb in ((1, 1), (2, 2), (3, 3), (3, 4), (4, 3), (4, 4), (6, 6), (7, 6)):
    for c in (0xffff, 0x1b6d):
        for k in sorted({0, na // 2, na - 1}):
                mul(js, 3, na, 0, nb, 0, k % 3, 0, 3, c, k)
for na, nb in ((2, 2), (3, 3)):
    mul(js, 3, na, 0, nb, 0, 1, 0, 2, 0xffff)
    mul(js, 3, na, 0, nb, 0, 2, 0, 2, 0x1b6d)
mul(js, 3, 3, 0, 3, 0, 3, 0, 1)
mul(js, 4, 2, 0, 2, 0, 1, 0, 2, 0xffff)
mul(js, 4, 2, 0, 2, 0, 0, 0, 2, 0x1b6d)
for na, nb, c, k in ((3, 3, 0xffff, 0), (3, 3, 0xffff, 1), (3, 3, 0x1b6d, 0), (3, 3, 0x1b6d, 1), (3, 3, 0x1b6d, 2), (4, 3, 0xffff, 0), (4, 3, 0x1b6d, 3), (4, 4, 0x1b6d, 2), (6, 6, 0xffff, 0)):
    mul(js, 4, na, 0, nb, 0, k % 3, 0, 3, c, k, cost=5, limit=150)
Prop('P20', js, 'Schoolbook and comba: products of all 8-bit digits up to 1x3 digits, up to 3x4 digits from {0, 1, top bit, all ones}, 2x3 digits of 16, 32 and 64 bits of that kind; '
     'Karatsuba up to 7x6 and Toom-3 up to 6x6 digits where one digit (or one operand of up to 3 digits from that set) is symbolic and the others are fixed patterns; '
     'every aliasing. The choice of the algorithm by size (over 64 and 300 digits) is outside the bounds.')
js = []
for fn in (5, 6, 7, 8):
    for na in (0, 1, 2) if fn != 8 else (0, 1):
        for al in (4, 3):
            mul(js, fn, na, 1, 0, 0, al)
    for na in (3, 4, 5, 6):
        for c in (0xffff, 0x1b6d):
            for k in (0, na // 2, na - 1):
                mul(js, fn, na, k & 1, 0, 0, 4 - (k & 1), 0, 3, c, k)
    mul(js, fn, 3 if fn == 8 else 4, 1, 0, 0, 4, 2, 1)
    mul(js, fn, 3, 1, 0, 0, 3, 0, 1)
    for tag in ('d16', 'd32', 'd64')[:1 if fn == 8 else 3]:
        mul(js, fn, 2, 1, 0, 0, 4, 0, 1, 0, 0, tag)
Prop('P21', js, 'All numbers of up to 2 8-bit digits, up to 4 digits from {0, 1, top bit, all ones}, 3 to 6 digits with one symbolic digit and fixed others, in place or not, either sign.')

js = []
def div(na, sa, nb, sb, al=0, ab=0, mode=0, c=0, k=0, tag='d8', **o):
    js.append(Job('h_mul.c', 't_div', [na, sa, nb, sb, al, ab, mode, 0, c, k], tag, **o))
for sa in (0, 1):
    for sb in (0, 1):
        div(1, sa, 1, sb, 0, 0, 2, 3, hdefs=['-DWBITS=32'])
        div(1, sa, 1, sb, 0, 0, 3, 3, 0, hdefs=['-DWBITS=32'])
        for al in range(9):
            for c in (1, 0xe, 7):
                div(2, sa, 1 if c == 1 else 2, sb, al, 0, 3, c, al % 2, hdefs=['-DWBITS=64'])
for c in (0x9, 0xffff, 0x1b6d, 0xb, 0xeb):
    for na, nb in ((2, 1), (3, 1), (3, 2), (4, 2), (4, 3), (5, 3), (2, 3)):
        for k in range(na):
            if c not in (9, 0xffff) and na > 3 and k > 2:
                continue
            div(na, k & 1, nb, (k + nb) & 1, k % 9, 1, 3, c, k, hdefs=['-DWBITS=64'])
Prop('P22', js, '8-bit digits: dividends of up to 5 digits with one symbolic digit, others and the divisor of up to 3 digits from fixed patterns of {0, 1, 0x80, 0xff}; every sign and aliasing of quotient and remainder with operands, absent quotient or remainder.')
