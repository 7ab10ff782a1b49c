"""Character classes as the standard library defines them (table of ranges, used in models only)."""
import bisect
import json
import os

_T = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'chars.json')))


def _p(k):
    rs = _T[k]
    lo = [r[0] for r in rs]

    def f(c):
        i = bisect.bisect_right(lo, ord(c)) - 1
        return i >= 0 and ord(c) <= rs[i][1]
    return f


alpha, num, space, lower, upper, control = map(_p, ('alpha', 'num', 'space', 'lower', 'upper', 'control'))


def alnum(c):
    return alpha(c) or num(c)
