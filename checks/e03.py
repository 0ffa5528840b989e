"""Tokens are read as integers, floats or symbols by their form only."""
import math
import re

from hypothesis import strategies as st

import gb.hypergraph.edge as ed
import gen
from model import canon
from vf import Prop, expect

RULE = ('Cases are tokens: random text over digits, signs, points, exponents and letters, strings of numbers, and arbitrary '
        'unicode. Non-trivial: the token has a digit, a sign or a point.')
ASSUMPTIONS = ['tokens are not empty, have no white space and do not start with a parenthesis',
               'exponents without a sign (which no number is written with) are not generated; integers are below 4300 digits']

INT = re.compile(r'-?[0-9]+\Z')
FLOAT = re.compile(r'-?([0-9]+\.[0-9]*|\.[0-9]+)\Z')
EXP = re.compile(r'-?([0-9]+|[0-9]+\.[0-9]*|\.[0-9]+)e[+-][0-9]+\Z')


def expected(tok):
    if INT.match(tok):
        return int(tok)
    if FLOAT.match(tok) or EXP.match(tok):
        return float(tok)
    return tok


def token(tok, rec):
    want = expected(tok)
    got = ed.parsed_token(tok)
    expect(canon(got) == canon(want), 'token %r is read as %r, expected %r', tok, got, want)
    edge = ed.str2edge('(x %s y)' % tok)
    expect(canon(edge) == canon(('x', want, 'y')), 'str2edge of an edge with %r is %r', tok, edge)
    rec.label(type(want).__name__)
    rec.nontrivial(any(c in '0123456789-.' for c in tok))


def number(x, rec):
    got = ed.parsed_token(str(x))
    expect(type(got) is type(x) and repr(got) == repr(x), 'the number %r is read back as %r', x, got)
    neg = ed.parsed_token(str(-x)) if x != 0 else None
    if x != 0:
        expect(repr(neg) == repr(-x), 'the number %r is read back as %r', -x, neg)
    rec.label(type(x).__name__ + (' exponent' if 'e' in str(x) else ''))
    rec.nontrivial()


def ok(tok):
    return gen.balanced(tok) and tok.split() == [tok] and tok[0] != '(' \
        and not re.match(r'-?[0-9.]+e[0-9]*\Z', tok)


NUMLIKE = st.text('0123456789-.-.+ee', min_size=1, max_size=9).filter(ok)
NEAR = st.tuples(st.one_of(gen.ints().map(str), gen.floats().map(str)), st.integers(0, 30), st.sampled_from(list('-.+e/x0_,')),
                 st.booleans()).map(lambda t: mutate(*t)).filter(ok)


def mutate(s, i, c, ins):
    i = i % (len(s) + 1)
    return s[:i] + c + (s[i:] if ins else s[i + 1:])


PROPS = [
    Prop('token', st.one_of(NUMLIKE, NEAR, gen.fresh_symbols().filter(ok), st.sampled_from(gen.ALL_SYMBOLS).filter(ok)),
         token, 12000, 250000,
         examples=['-', '.', '-.', '1e+20', '1e-07', '1.5e-07', '-1e+20', '1.', '.5', '-.5', '--5', '5-', '1.2.3', '+5', '00',
                   '-0', '007', '\u0661', '\u00b2', '1e+\u00b2', 'e+5', '-e+5', '.e+5', 'nan', 'inf', '1_0', '9' * 400]),
    Prop('number', st.one_of(st.integers(), gen.ints(), gen.floats(),
                             st.floats(allow_nan=False, allow_infinity=False).filter(lambda x: math.isfinite(x) and x != 0)),
         number, 9000, 150000, examples=[0, 7, -7, 0.0, 1e20, 1e22, 1e-5, 123456789012345680.0, 10 ** 300]),
]
