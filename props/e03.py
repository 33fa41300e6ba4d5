"""E03: the content octets encoders write are those X.690 prescribes for the value."""
import os
import base
from objs import *


def run():
    F = base.facts('nd')
    rep = base.Report('E03', 'proof')
    cases, types = build(F, os.environ.get('VERIF_TIER') == 'thorough', True)
    run_cases(F, rep, cases, content)
    rep.floor('bit strings built', alignment(F, rep), 3)
    rep.floor('types', len(types), 30)
    rep.floor('encoders', len({(c.ty, c.pre, c.method) for c in cases}), 200)
    rep.rules = ['every path of an encoder writes the content octets X.690 clause 8 prescribes for the class of values']
    return rep
