#!/usr/bin/env python3
# generates harness/enums.inc: every enum of three enumerators with each value form, for each storage width and scope
import itertools, sys, os
W = [('u', '0', '', 0), ('c', '1, CLASS', 'CLASS', 0), ('u8', '1, 8', '', 8), ('c8', '2, CLASS, 8', '', 8), ('c16', '2, CLASS, 16', '', 16), ('c32', '2, 32, CLASS', '', 32), ('c64', '2, CLASS, 64', '', 64)]
out = []
names = []
def emit(tag, flags, items):
    e = f'En{len(names)}'; its = []
    for i, (n, v) in enumerate(items):
        its.append(f'{e}_{n}' + (v if v else ''))
    out.append(f'REFLECTOR_CREATE({e}, ENUM, {flags}, {", ".join(its)});')
    out.append(f'struct {e}_Cls {{ uint64 g0; {e} m; uint8 g1; {e} a[3]; es::Flags<{e}, uint8> f8; es::Flags<{e}, uint64> f64; es::Flags<{e}, uint16> f16[2]; uint32 g2; }};')
    out.append(f'REFLECTOR_CREATE({e}_Cls, 1, VARNAMES, m, a, f8, f64, f16);')
    names.append((e, [f'{e}_{n}' for n, v in items], flags))
for tag, flags, _, bits in W:
    b = bits or 32
    big = (1 << (b - (0 if bits else 1))) - 1
    # values grow, so that every following implicit one is representable
    first = ['', ' = 3', ' = 0x11', '=1', ' = 010', ' = -5' if not bits else ' = 0X1f']
    second = ['', ' = 40', ' = 0x3f', f' = {1 << (b - 2)}']
    third = ['', f' = {big if b < 64 else str(big) + "ULL"}', f' = 0x{(1 << (b - 1)) - 1:x}', ' = 077u']
    for combo in itertools.product(first, second, third):
        if combo[1] and combo[1].startswith(f' = {1 << (b - 2)}') and False: continue
        emit(tag, flags, list(zip(['A', 'AB', 'Ba'], combo)))
# negative ones of the signed default types, duplicates, many enumerators, values that fall back
for fl in ('0', '1, CLASS'):
    emit('n', fl, [('M', ' = -1'), ('Z', ''), ('P', ''), ('N', ' = -2147483647'), ('H', ' = -0x10'), ('I', '')])
    emit('n', fl, [('M', ' = -2'), ('Z', ''), ('P', ''), ('Q', '')])
for tag, flags, _, bits in W:
    emit('d', flags, [('A', ' = 7'), ('B', ' = 7'), ('C', ''), ('D', ' = 2'), ('E', ''), ('F', ''), ('G', ' = 2'), ('H', ' = 0')])
    emit('m', flags, [(f'I{i}', '' if i % 7 else (f' = {i + i // 7 * 0}' if i % 2 else f' = 0x{i:x}')) for i in range(63)])
    emit('o', flags, [('Only', '')])
    emit('o', flags, [('Only', ' = 5')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'enums.inc'), 'w') as f:
    f.write('// generated by tools/gen_enums.py\n' + '\n'.join(out) + '\n')
    f.write('#define ALL_ENUMS(X) ' + ' '.join(f'X({e})' for e, n, fl in names) + '\n')
    for e, n, fl in names:
        f.write(f'template <> struct EnumOf<{e}> {{ typedef {e}_Cls C; static const char *name() {{ return "{e}"; }} static std::vector<EV> get() {{ return {{' + ', '.join(f'{{"{x}", uint64_t({e}::{x})}}' for x in n) + '}; } };\n')
print(len(names), 'enums')
