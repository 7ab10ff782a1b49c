"""C01 / C03 and the size part of C02: cutting a text into tokens."""
import json
import random
import seg
import uni
from check import *
from textflow import Flow, NotShown, every, holds_at, witnesses
from evalt import Agg, Sym, T2
from models import Mod
import props.c04 as c04

PUNCT = ',.!;:?\'"'
DASH = "'-–"
WORDS = [tuple(p_) for f_ in ('words.json', 'words2.json') for p_ in json.load(open(os.path.join(HERE, f_)))]


def classify(w):
    if all('0' <= c <= '9' for c in w):
        return 'NATN'
    if all(map(uni.space, w)):
        return 'SPACE'
    if len(w) == 1 and w in PUNCT:
        return 'PUNC'
    if uni.alpha(w[0]) and all(uni.alpha(c) or c in DASH for c in w[1:]):
        return 'WORD'
    return 'SYMB'


def string_texts():
    """texts a user may pass, with the constants of the analysed function mixed in"""
    odd = ['\0', '\n', '\r\n', '\t', '\ufeff', '\u200b', '\u200d', '\u00ad', '\u3000', '\u00e9', 'e\u0301', '\U0001f600', '\x1b[0m', '\ufffd']
    xs = list(dict.fromkeys(MODELS.HINT.texts() + odd))
    out = ['Ab 1', ' ', 'a']          # the empty text is refused
    for x in xs:
        out += [x, x + 'Ab 1', 'Ab ' + x + '1', 'Ab 1' + x, x + x, ' ' + x + ' ', x + 'Ab' + x]
    for k in MODELS.HINT.long() + MODELS.HINT.many():
        out += ['a' * k, 'a ' * k, ' ' * k, '\u00e9' * k]
    return out


def class_texts():
    """every text of up to three characters over one character of each kind the word rules tell apart"""
    cs = ['a', '\u00e9', '1', "'", '.', ',', '-', '\u2013', '_', '\u0301', '\u200d', ' ', '\n', '\u65e5', '"', '\u0663']
    # characters whose code ends in that of a digit, a letter, a comma or a space
    low = ['\u0131', '\u0161', '\u2030', '\u202c', '\u2120', '\U00010030', '\U00010061']
    return [a + x + b for x in low for a in ('', '1', 'a', '12') for b in ('', '1', 'a')] + [a + b for a in cs for b in cs] + [a + b + c for a in cs[:12] for b in cs for c in cs[:12]]


def hint_texts():
    """texts around the constants the tokeniser compares with"""
    H = MODELS.HINT
    known = set(" '-\u2013,.!;:?\"09")
    xs = [c for c in H.chars if c not in known] + list(H.strs)
    xs += [y for x in H.chars if x.isascii() and x not in known for y in (chr(max(ord(x) - 1, 0)), chr(ord(x) + 1))]
    around = ['a', '1', ' ', '\n', ',', "'", '\u00e9', 'a1', '1a', "a'", '\u65e5', 'e\u0301', '_', '-', '\0']
    out = []
    for x in dict.fromkeys(xs):
        out += [x, x + x]
        for u in around:
            out += [x + u, u + x, u + x + u, u + x + 'b', x + u + x, '\n' + x + u, u + ' ' + x, x + ' ' + u]
    for k in sorted({j + d for j in H.ints if 3 < j <= 64 for d in (-1, 0, 1, 2)}):
        for u in around:
            for v in ('a', '1', "'", ' '):
                for w in (v * (k - 1) + u, v * (k // 2) + u + v * (k - k // 2 - 1), u + v * (k - 1)):
                    out.append(w)
        out += [u * k for u in around]
        out += [' '.join('a' * k), ',' * k, 'a,' * k]
    return list(dict.fromkeys(out))[:2500]


def text_models(ctx, prm='arg1'):
    f = Sym('size', ())
    table = {''.join(p_): tuple(tuple(x) for x in p_) for p_ in WORDS}
    base = list(table)

    def swb(ev, ta, t):
        t = ''.join(ev.toseq(t))
        if t not in table:
            table[t] = tuple(tuple(w) for w in seg.words(t))
        return table[t]

    def g():
        H = MODELS.HINT
        cs = set(H.chars) - set(" '-\u2013,.!;:?\"09")
        lens = {k + d for k in H.ints if k > 3 for d in (-1, 0, 1)}
        for k in sorted(lens):
            if k <= 300:
                for u in ('a', '1', 'a1', '1a', 'a' * k + '1'):
                    table[(u * k)[:k]] = ((u * k)[:k],)       # letters and digits: one word
                table[' ' * k] = (' ' * k,)
        first = [t for t in table if cs & set(t) or len(t) in lens or len(t.encode()) in lens]
        todo = base[:140] + class_texts() + hint_texts() + first[:3000] + base[140:]
        for t in todo:
            yield {p(prm): tuple(t), p('arg2'): f}, {'split_word_bounds': swb}
    return g


def read_tokens(N, ev, v):
    """[(text, tag, size)] of a tokeniser result in a model"""
    out = []
    for x in ev.toseq(ev.ev(v)):
        tok, n = x.fs
        if tok.var != 'Text':
            out.append((None, None, n))
        else:
            tx, tag = tok.fs
            out.append((''.join(ev.toseq(tx)), tag.var, n))
    return out


def tokenisers(ctx):
    opq = c04.tokeniser(ctx)
    return [b for b in ctx.P.bodies.values() if b.kind == 'fn' and opq(b, None)]


def each_tokeniser(ctx, R, key, rule, f):
    bs = tokenisers(ctx)
    if not bs:
        R.add(key, OPEN, '', rule, 'no function cuts a text into (token, size) pairs')
    for b in bs:
        R.guard(key, lambda: f(b), site(b), rule)


# ------------------------------------------------------------------ C01
def lossless(ctx, R):
    N = ctx.N
    lt_ = N.adt('LToken')
    rule = 'text of the list ++ strings being collected = consumed input, inductively over every loop; no empty token'

    def text(x, fs):
        tok = fld(x, 'tuple', 0)
        if not FX.prove(fs, isv(tok, lt_, 'Text')):
            raise NotShown('not a text token: %s' % str(tok)[:100])
        return vf(tok, lt_, 'Text', 0)

    def go(b):
        I, outs = ctx.analyse(b, key='alone')
        R.count('functions_summarised')
        F = Flow(I, text)
        why = None
        try:
            F.total(outs, p('arg1'))
            n = 0
            for s, v in outs:
                for x, fs in c04.pieces(I, s, v):
                    if FX.contradictory(fs):
                        continue
                    n += 1
                    if not FX.prove(fs, le(ONE, length(text(x, fs)))):
                        raise NotShown('a token with empty text: %s' % str(x)[:200])
            R.count('token_constructions', n)
        except (NotShown, interp.Unsupported) as e:
            why = str(e)
        R.count('loops', F.loops)
        R.count('transitions', F.transitions)

        def oracle(env, ev, s, v):
            toks = read_tokens(N, ev, v)
            want = ''.join(env[p('arg1')])
            got = ''.join(t or '' for t, _, _ in toks)
            if any(t is None for t, _, _ in toks):
                return 'a token without text in %r' % (toks,)
            if got != want:
                return 'the tokens of %r spell %r' % (want, got)
            if any(t == '' for t, _, _ in toks):
                return 'an empty token in %r' % ([t for t, _, _ in toks],)
        conclude(R, 'tokeniser.lossless', b, rule, why, I, outs, text_models(ctx), oracle,
                 detail='%d loops, %d transitions' % (F.loops, F.transitions))
    each_tokeniser(ctx, R, 'tokeniser.lossless', rule, go)


def line_tokens(ctx, R):
    """tokens of all inputs in order, one text-less token per custom input"""
    N = ctx.N
    rule = 'the line holds the tokens of each text input in order and one text-less token per custom input'
    b = R.anchor('line', 'create_line_from_input_tokens', crate='layered_nlp')
    if b is None:
        return

    def go():
        I, outs = ctx.analyse(b, opaque=c04.tokeniser(ctx), key='tok')
        rows = c04.line_rows(ctx, 'tokens')(I, outs)
        why = None
        for rs in rows:
            why = prove_parts(R, I, outs, rs)
            if why is None:
                break
        T = c04.toks_getter(N)

        def oracle(env, ev, s, v):
            got = []
            for t in ev.toseq(ev.ev(T(s, v))):
                got.append(canon(t.fs[N.idx('LLToken', 'token')]))
            want = []
            for x in env[p('arg1')]:
                if x.var == 'Text':
                    want += [canon(y.fs[0]) for y in ev.funcs[c04.TOKENISER](ev, (), x.fs[N.idx('InputToken', 'text', 'Text')], None)]
                else:
                    want.append(canon(Agg(N.adt('LToken'), 'Value', ())))
            if got != want:
                return 'tokens %s, specified %s' % diff(tuple(got), tuple(want))
        conclude(R, 'line.tokens', b, rule, why, I, outs, c04.line_models(ctx), oracle)
    R.guard('line.tokens', go, site(b), rule)


def entries(ctx, R):
    """the other public constructors hand their text over unchanged"""
    N = ctx.N
    c = next(iter(ctx.N.fns('create_line_from_input_tokens', crate='layered_nlp')), None)
    if c is None:
        return
    opq = lambda body, fr: 'line' if body.id == c.id else None
    for nm, prm in (('create_line_from_string', lambda: seq((item(N.V('InputToken', 'Text', p('arg1'), EMPTY)),))),
                    ('create_tokens', lambda: p('arg1'))):
        b = R.anchor(nm, nm, crate='layered_nlp')
        if b is None:
            continue
        rule = 'hands its text over unchanged'

        def go(b=b, prm=prm, nm=nm):
            I, outs = ctx.analyse(b, opaque=opq, key='line')
            for s, v in outs:
                if v.op != 'call' or v.a[0] != 'line':
                    return R.add(nm, OPEN, site(b), rule, 'not the general constructor: %s' % str(v)[:200])
            bad = [v.a[2] for s, v in outs if not compare.equal(tuple(s.facts), v.a[2], prm())]
            if bad or (os.environ.get('SA_FORCE') and outs):
                def mods():
                    if nm == 'create_tokens':
                        yield {p('arg1'): (Sym('in', (0,)), Sym('in', (1,)))}, {}
                        return
                    for t in string_texts():
                        yield {p('arg1'): tuple(t)}, {}
                sep = refute(R, I, [(s, v.a[2]) for s, v in outs], mods, lambda env, ev, s_, v_: None if canon(ev.ev(v_)) == canon(ev.ev(prm())) else
                             'input %s' % short_(canon(ev.ev(v_))))
                if bad or sep:
                    return R.add(nm, REFUTED if sep else OPEN, site(b), rule, sep or 'input %s' % str(bad[0])[:200])
            if not outs:
                return R.add(nm, REFUTED, site(b), rule, 'no normal outcome')
            R.add(nm, PROVED, site(b), rule, '%d outcomes' % len(outs))
        R.guard(nm, go, site(b), rule)


def run_c01(ctx, R):
    lossless(ctx, R)
    line_tokens(ctx, R)
    entries(ctx, R)


# ------------------------------------------------------------------ C03
def char(name):
    return lambda x: mk('call', name, (), x)


def one_of(x, cs):
    r = FALSE
    for c in cs:
        r = disj(r, eq(x, mk('chr', c)))
    return r




def show_tag(ctx, I, tag, text, fs):
    """why the tag is not shown right for the text, or None"""
    dig = lambda x: call_('is_ascii_digit', x)
    spc = lambda x: call_('is_whitespace', x)
    alp = lambda x: call_('is_alphabetic', x)
    first = elem(text, ZERO)
    n = length(text)
    if not FX.prove(fs, le(ONE, n)):
        return 'may be empty'
    if tag == 'NATN':
        return None if every(I, text, dig, fs) else 'not only ASCII digits'
    if tag == 'SPACE':
        return None if every(I, text, spc, fs) else 'not only white space'
    if tag == 'PUNC':
        return None if single(fs, text) and FX.prove(fs, one_of(first, PUNCT)) else 'not one of the punctuation characters'
    if tag == 'WORD':
        cont = lambda x: disj(alp(x), one_of(x, DASH))
        if every(I, text, alp, fs):
            return None
        return None if FX.prove(fs, alp(first)) and every(I, text, cont, fs) or (
            FX.prove(fs, alp(first)) and rest_every(fs, text, cont)) else 'not a letter followed by letters, apostrophes, dashes'
    if tag == 'SYMB':
        if not some_not(fs, text, dig):
            return 'may be only digits'
        if not some_not(fs, text, spc):
            return 'may be only white space'
        if not (FX.prove(fs, neg(eqi(blen(text), ONE))) or FX.prove(fs, neg(eqi(n, ONE)))
                or FX.prove(fs, neg(one_of(first, PUNCT)))):
            return 'may be a punctuation character'
        cont = lambda x: disj(alp(x), one_of(x, DASH))
        if not (FX.prove(fs, neg(alp(first))) or some_not(fs, text, cont)):
            return 'may be a word'
        return None
    return 'unknown tag %s' % tag


def single(fs, text):
    return FX.prove(fs, eqi(length(text), ONE)) or FX.prove(fs, le(blen(text), ONE))


def rest_every(fs, text, P):
    k = new_bv('k')
    return holds_at(tuple(fs) + (le(ONE, k), lt(k, length(text))), text, k, P)


def some_not(fs, text, P):
    """some element does not satisfy P"""
    if text.op == 'seq':
        return any(n.op == 'item' and FX.prove(fs, neg(P(n.a[0]))) for n in text.a)
    idx = {ZERO}
    for f in fs:
        for x in subterms(f):
            if x.op == 'elem' and x.a[0] is text:
                idx.add(x.a[1])
    return any(FX.prove(fs, lt(i, length(text))) and FX.prove(fs, le(ZERO, i)) and FX.prove(fs, neg(P(elem(text, i)))) for i in idx)


def call_(n, x):
    return mk('call', n, (), x)


def tags(ctx, R):
    N = ctx.N
    lt_ = N.adt('LToken')
    rule = 'at every token construction the tag is the documented class of the text'

    def go(b):
        I, outs = ctx.analyse(b, key='alone')
        why = None
        n = 0
        try:
            for s, v in outs:
                for x, fs in c04.pieces(I, s, v):
                    if FX.contradictory(fs):
                        continue
                    n += 1
                    fs = tuple(fs) + witnesses(fs)
                    tok = fld(x, 'tuple', 0)
                    if not FX.prove(fs, isv(tok, lt_, 'Text')):
                        raise NotShown('not a text token')
                    tx, tag = vf(tok, lt_, 'Text', 0), vf(tok, lt_, 'Text', 1)
                    if tag.op != 'agg':
                        raise NotShown('tag %s' % str(tag)[:100])
                    w = show_tag(ctx, I, tag.a[1], tx, fs)
                    if w is not None:
                        raise NotShown('%s %s: %s' % (tag.a[1], str(tx)[:100], w))
        except (NotShown, interp.Unsupported) as e:
            why = str(e)
        R.count('token_constructions', n)

        def oracle(env, ev, s, v):
            for t, tag, _ in read_tokens(N, ev, v):
                if t is None:
                    return 'a text gives a custom token'
                if t and tag != classify(t):
                    return 'token %r of %r is tagged %s, documented %s' % (t, ''.join(env[p('arg1')]), tag, classify(t))
        conclude(R, 'tokeniser.tags', b, rule, why, I, outs, text_models(ctx), oracle, detail='%d constructions' % n)
    each_tokeniser(ctx, R, 'tokeniser.tags', rule, go)


def auto(ctx, R):
    """text tag and char attributes on each token, nothing on custom tokens"""
    N = ctx.N
    rule = 'every text token gets its tag, and its character iff its text is one char long; custom tokens get neither'
    b = R.anchor('line', 'create_line_from_input_tokens', crate='layered_nlp')
    if b is None:
        return
    parts_spec(R, 'line.auto', b, c04.line_rows(ctx, 'attrs'), rule,
               lambda: c04.line_models(ctx, attrs=False)(), opaque=c04.tokeniser(ctx), akey='tok')


def run_c03(ctx, R):
    tags(ctx, R)
    auto(ctx, R)


META = {
    'C01': {'run': run_c01, 'floor': 3,
            'explanation': 'The tokeniser loops are summarised from MIR; for every transition the text of the token list plus the strings being '
                           'collected is proved to grow by exactly the consumed character or word, flushing is proved complete, and every token '
                           'construction is proved non-empty. Line construction is proved to keep the tokens of each input in order and to add '
                           'one text-less token per custom input.'},
    'C03': {'run': run_c03, 'floor': 2,
            'explanation': 'At every token construction in the tokeniser the path facts (and induction over the strings being collected) are proved to '
                           'imply the documented class of the tag; the automatic attributes are proved to be the specified fold over the tokens.'},
}
