"""Every generated operand must be valid by the definition the monitors use,
or an alarm could be about the input.  Run: python -m mon.gen_selftest [n]"""
import random
import sys
from collections import Counter

from . import gen, plane

MAKERS = {
    'pair': lambda r: gen.pair(r),
    'kinded_pair': lambda r: gen.kinded_pair(
        r, *(r.choice(gen.KINDS[1] + gen.KINDS[2]) for _ in '12'), 3),
    'row_pair': lambda r: [g for g in gen.row_pair(
        r, *(r.choice(gen.KINDS[1] + gen.KINDS[2]) for _ in '12')) if g],
    'cells_pair': lambda r: [g for g in gen.cells_pair(
        r, *(r.choice(gen.KINDS[1] + gen.KINDS[2]) for _ in '12')) if g],
    'row_holes': lambda r: (gen.row_holes(r),),
    'any_pair': lambda r: gen.any_pair(r, r.choice([1, 2, 3, 4])),
    'any_geo': lambda r: (gen.any_geo(r, r.choice([1, 2, 3, 4])),),
    'with_holes': lambda r: (gen.with_holes(r, r.choice([1, 2, 3, 5])),),
    'big_shaped': lambda r: (gen.big_shaped(r),),
    'big_linear': lambda r: (gen.big_linear(r),),
    'derived': lambda r: (gen.derived_shape(r, gen.shaped(r, 3), 3),),
    'linear_from': lambda r: (gen.linear_from(r, gen.shaped(r, 3), 3),),
}


def main(n=2000):
    bad, kinds = Counter(), Counter()
    for name, make in MAKERS.items():
        for i in range(n if 'big' not in name else n // 20):
            rng = random.Random(f'{name}/{i}')
            for g in make(rng):
                kinds[g.kind] += 1
                d = plane.defects(g)
                if d:
                    bad[name] += 1
                    if bad[name] < 4:
                        print(name, i, g.kind, d)
                h = gen.rewrite(rng, g)
                if plane.canon(h) != plane.canon(g):
                    bad[name + ' rewrite'] += 1
    print(dict(kinds), 'bad', dict(bad))
    return bool(bad)


if __name__ == '__main__':
    sys.exit(main(*map(int, sys.argv[1:])))
