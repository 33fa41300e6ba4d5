"""E02: what an encoder writes is one well-formed object, and the lengths it reports are those it writes."""
import os
import base
from objs import *


def run():
    F = base.facts('nd')
    rep = base.Report('E02', 'proof')
    cases, types = build(F, os.environ.get('VERIF_TIER') == 'thorough', False)
    run_cases(F, rep, cases, structure)
    rep.floor('types', len(types), 40)
    rep.floor('encoders', len({(c.ty, c.pre, c.method) for c in cases}), 400)
    rep.rules = ['every path of an encoder writes identifier, length and content of one object; the announced, returned and predicted numbers of octets equal those written']
    return rep
