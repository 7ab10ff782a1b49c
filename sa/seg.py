"""Word boundaries of unicode-segmentation 1.13 (UAX 29), for separating models only.

The tables (wordcat.json) were read off the crate's source; the rules follow its state machine.
Nothing is proved from this: it says how a concrete text of a model is cut."""
import bisect
import json
import os

_T = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'wordcat.json')))
_LO = [r[0] for r in _T['word']]
_ELO = [r[0] for r in _T['emoji']]


def cat(c):
    i = bisect.bisect_right(_LO, ord(c)) - 1
    return _T['word'][i][2] if i >= 0 and ord(c) <= _T['word'][i][1] else 'Any'


def emoji(c):
    i = bisect.bisect_right(_ELO, ord(c)) - 1
    return i >= 0 and ord(c) <= _T['emoji'][i][1]


SKIP = ('Extend', 'Format', 'ZWJ')
FIRST = {'ALetter': 'Letter', 'Hebrew_Letter': 'HLetter', 'Numeric': 'Numeric', 'Katakana': 'Katakana',
         'ExtendNumLet': 'ExtendNumLet', 'Regional_Indicator': 'Half', 'ZWJ': 'Zwj', 'WSegSpace': 'WSegSpace'}
LETTERS = {'ALetter': 'Letter', 'Hebrew_Letter': 'HLetter', 'Numeric': 'Numeric', 'ExtendNumLet': 'ExtendNumLet'}
NEXT = {'Letter': LETTERS, 'HLetter': LETTERS, 'Numeric': LETTERS,
        'Katakana': {'Katakana': 'Katakana', 'ExtendNumLet': 'ExtendNumLet'},
        'ExtendNumLet': dict(LETTERS, Katakana='Katakana'), 'Half': {'Regional_Indicator': 'Full'}}


def words(s):
    out = []
    cached = None
    while s:
        piece, cached = _next(s, cached)
        out.append(piece)
        s = s[len(piece):]
    return out


def _next(s, cached):
    take_curr, take_cat = True, True
    idx = save = 0
    state, c, savec = 'Start', 'Any', 'Any'
    skipped = False
    for idx, ch in enumerate(s):
        prev_zwj = c == 'ZWJ'
        if cached is None:
            c = cat(ch)
        else:
            c, cached = cached, None
        take_cat = True
        if state != 'Start' and c in SKIP:
            skipped = True
            continue
        if prev_zwj and emoji(ch):
            state = 'Emoji'
            continue
        if state == 'Start':
            if c == 'CR':
                if idx + 1 < len(s) and cat(s[idx + 1]) == 'LF':
                    idx += 1
                break
            if c in ('LF', 'Newline'):
                break
            if c in FIRST:
                state = FIRST[c]
                continue
            if idx + 1 < len(s) and cat(s[idx + 1]) in SKIP:
                state = 'AcceptNone'
                cached = cat(s[idx + 1])
                continue
            break
        if state == 'WSegSpace':
            if c == 'WSegSpace' and not skipped:
                continue
            take_curr = False
            break
        if state in NEXT and c in NEXT[state]:
            state = NEXT[state][c]
            continue
        if state == 'HLetter' and c == 'Double_Quote':
            savec, save, state = c, idx, 'RequireHLetter'
            continue
        if state == 'HLetter' and c == 'Single_Quote':
            state = 'AcceptQLetter'
            continue
        if state in ('Letter', 'HLetter') and c in ('MidLetter', 'MidNumLet', 'Single_Quote'):
            savec, save, state = c, idx, 'RequireLetter'
            continue
        if state == 'Numeric' and c in ('MidNum', 'MidNumLet', 'Single_Quote'):
            savec, save, state = c, idx, 'RequireNumeric'
            continue
        if state == 'RequireNumeric' and c == 'Numeric':
            state = 'Numeric'
            continue
        if state in ('RequireLetter', 'AcceptQLetter') and c == 'ALetter':
            state = 'Letter'
            continue
        if state in ('RequireLetter', 'AcceptQLetter', 'RequireHLetter') and c == 'Hebrew_Letter':
            state = 'HLetter'
            continue
        if state in ('AcceptNone', 'AcceptQLetter'):
            take_curr = False
            take_cat = False
            break
        if state.startswith('Require'):
            break
        take_curr = False
        break
    if state.startswith('Require'):
        idx, c, take_curr = save, savec, False
    if take_curr:
        return s[:idx + 1], None
    return s[:idx], (c if take_cat else None)
