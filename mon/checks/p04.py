"""P04: exactness of the symmetric operator."""
from .common import boolean_case

PROPERTY = 'P04'
QUICK = 20000
THOROUGH = 480
RULE = ('operand pairs from grid worlds, stars, combs, nested rings, spread '
        'components, fans, chords and pairs derived from one another, under '
        'exact affine maps and re-written representations; non-trivial when '
        'the operands have at least a point in common')
ASSUMPTIONS = ('operands are valid geometries', 'points where the operands '
               'merely touch do not count (results are regularised)')
REQUIRE = {'contact: shared boundary': 100, 'contact: common point': 100,
           'contact: edge inside the other': 100, 'contact: none': 10,
           'overlay of more than 100 edges': 3}


def case(rng, obs):
    boolean_case('xor', rng, obs)
