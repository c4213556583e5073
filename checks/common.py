import sys
from sa.check import Ob
from sa.harness import *       # noqa
from sa import harness as hn
from sa import terms as T
from sa.terms import node, mk_el, TRUE, FALSE, ite, band, bor, bnot
from sa.values import *        # noqa
from sa.prove import same, always

BASES = ('eq', 'se', 'matern32', 'matern52')
SETS = ('set_eq', 'set_se', 'set_matern32', 'set_matern52')
TECH = ('abstract interpretation of the source into gated value graphs (one pass, joins at merges, symbolic loop summaries), '
        'normalisation, and comparison with the value graph of a reference definition; ')
