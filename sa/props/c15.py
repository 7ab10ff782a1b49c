"""C15, C16, C18: the bundled resolvers, in terms of the selection operations (C07) and matchers (C08, C09)."""
import itertools
import random
from check import *
from models import Mod
from evalt import Agg, FMap, Sym, T2, Some, NONEV, DEF
import sem

STRING = ('adt', 'alloc::string::String', ())


def analyse(ctx, go, ctor=None, sel=None, panics=False):
    """the resolver made by a constructor, run on a selection"""
    I = interp.Interp(ctx.P, opaque=sem.opaque)
    I.panics = panics
    I.root = go
    I.rerun = lambda: analyse(ctx, go, ctor, sel, True)
    I.deadline = time.time() + 120
    sel = sel or p('sel')
    if ctor is None:
        starts = [(interp.St({}, ()), p('self'))]
    else:
        starts = I.analyse(ctor)
    outs = []
    for s, v in starts:
        outs += I.analyse(go, args=[v, sel], st=s)
    ctx.fn_seen |= I.fn_seen
    return I, outs


def call(op, targs, *args):
    return mk('call', 'LLSelection::' + op, tuple(targs), *args)


def calls(I, outs, op):
    import props.c04 as c04
    seen = {}
    for s, v in outs:
        for t in c04.reach(I, s, v):
            if t.op == 'call' and t.a[0] == 'LLSelection::' + op:
                seen[t] = 1
    return list(seen)


def text_matcher(N):
    return ('adt', N.adt('TokenText'), ()), N.T('TokenText', UNIT)


def assign(N, sel, v):
    return N.A('LLCursorAssignment', start_idx=N.F(sel, 'LLSelection', 'start_idx'), end_idx=N.F(sel, 'LLSelection', 'end_idx'), value=v)


def each(c, f):
    b = new_bv('k')
    return close_for(b, ZERO, length(c), False, f(elem(c, b)))


def prove_rows(outs, rows):
    u = uncovered(outs, rows)
    if u is not None:
        return 'no normal outcome'
    bad = compare.prove_outs(outs, rows)
    return None if bad is None else '%s is not %s' % (str(bad[1])[:400], str(bad[2][1])[:400])


def got(M, ev, v):
    """assignments as a sorted list of (start, end, value)"""
    out = []
    for a in ev.toseq(ev.ev(v)):
        out.append((M.f(a, 'LLCursorAssignment', 'start_idx'), M.f(a, 'LLCursorAssignment', 'end_idx'),
                    repr(canon(M.f(a, 'LLCursorAssignment', 'value')))))
    return out


def differ(g, w, ordered=False):
    w = [(a, b, repr(canon(c))) for a, b, c in w]
    if (g if ordered else sorted(g)) != (w if ordered else sorted(w)):
        return 'assigns %s, specified %s' % (short_(g), short_(w))


# ------------------------------------------------------------------ C15
KEYS = ['if', 'If', 'IF', 'a', 'A', '\u00c9', '\u00e9', '1', '.', "'", "it's", "It's", ' ', 'if-a', '  ', 'ifs', '12', '\u039f\u03a3', '']


def c15(ctx, R):
    N = ctx.N
    M = Mod(N)
    S = sem.Sem(N)
    go = R.anchor('go', 'go', 'TextMatchAssignResolver', 'Resolver')
    if go is None:
        return
    F = S.funcs()
    sel = p('sel')

    def lines():
        rnd = random.Random(3)
        yield S.line(KEYS[:-1] + ['zz', 'iF', None])
        for n in range(1, 4):
            for _ in range(14):
                yield S.line([rnd.choice(KEYS[:-1] + MODELS.HINT.texts()[:24] + ['zz', 'iF', None]) for _ in range(n)])

    def dicts(arr):
        rnd = random.Random(5)
        H = MODELS.HINT.texts()[:24]
        keys = KEYS + [h for h in H if h not in KEYS]
        low = {}
        for k in keys:
            low.setdefault(k.lower(), []).append(k)
        fixed = [keys] + [v[::-1] for v in low.values() if len(v) > 1] + [v[:2] for v in low.values() if len(v) > 2] + [[k] for k in keys[:24]]
        for ks in fixed:
            yield [(k, [Sym('val', (i, j)) for j in range(1 if arr else 2)]) for i, k in enumerate(ks)]
        for n in MODELS.HINT.many():
            if arr:
                yield [(k, [Sym('val', (i,))]) for i, k in enumerate(['a', 'A'] * n)]
                continue
            for ks in (['a', 'A'], ['If', 'if', 'IF']):
                yield [(k, [Sym('val', (i, j)) for j in range(n)]) for i, k in enumerate(ks)]
        for j in range(14):
            ks = list(keys) if j == 0 else rnd.sample(keys, min(len(keys), rnd.choice([0, 1, 2, 4, 7, 9])))
            if arr:
                yield [(k, [Sym('val', (i,))]) for i, k in enumerate(ks + ks[:1])]
            else:
                yield [(k, [Sym('val', (i, j)) for j in range(rnd.randrange(0, 3 + max([0] + [x for x in MODELS.HINT.ints if x < 9])))]) for i, k in enumerate(ks)]

    def one(name, insensitive, arr):
        rule = 'every value of the keys equal to the token\'s text%s, on that token' % (', both lower-cased' if insensitive else '')
        b = R.anchor(name, name, 'TextMatchAssignResolver')
        if b is None:
            return

        def run():
            I, outs = analyse(ctx, go, b)
            R.count('functions_summarised', 2)
            R.count('outcomes', len(outs))
            mt, mv = text_matcher(N)
            found = call('find_by', (mt,), sel, mv)

            def spec(mp):
                def per(x):
                    k = fld(x, 'tuple', 1)
                    k = mk('call', 'lower', (), k) if insensitive else k
                    return each(mgetd(mp, k), lambda v: (item(assign(N, fld(x, 'tuple', 0), v)),))
                return seq(each(found, per))

            def proof():
                if not insensitive:
                    return prove_rows(outs, [((), spec(p('arg1')))])
                for s, v in outs:
                    mps = {t.a[0] for t in subterms(v) if t.op == 'mgetd' and any(x.op == 'fin' for x in subterms(t.a[0]))}
                    why = 'no dictionary'
                    for mp in mps:
                        why = dictionary(I, tuple(s.facts), mp) or prove_rows([(s, v)], [((), spec(mp))])
                        if why is None:
                            break
                    if why is not None:
                        return why
                return None if outs else 'no outcome'

            def dictionary(I, fs, mp):
                """the dictionary is a fold over all entries, each appended under its lower-cased key"""
                src = [p('arg1')] if arr else entries(I, p('arg1'))
                why = 'no pass over the entries'
                for c in src:
                    def step(bs, st):
                        x = elem(c, bs[-1])
                        k = mk('call', 'lower', (), fld(x, 'tuple', 0))
                        v = fld(x, 'tuple', 1)
                        new = item(v) if arr else mk('spl', v)
                        return [((), [mset(st[0], k, seq(spl_nodes(mgetd(st[0], k)) + (new,)))])]
                    why = fold.prove(R, I, fs, [mp], fold.Fold(fold.over(c), [mk('mempty')], step, name='dictionary'))
                    if why is None:
                        return None
                return why

            def models():
                for ln in lines():
                    for d in dicts(arr):
                        if arr:
                            m = tuple(T2(tuple(k), v[0]) for k, v in d)
                        else:
                            m = FMap({tuple(k): tuple(v) for k, v in d})
                        yield {p('arg1'): m, sel: S.whole(ln)}, F

            def oracle(env, ev, s, v):
                ln = S.un(env[sel])[0]
                m = env[p('arg1')]
                ent = [(''.join(x.fs[0]), (x.fs[1],)) for x in m] if arr else [(''.join(k), x) for k, x in m.d.items()]
                norm = (lambda x: x.lower()) if insensitive else (lambda x: x)
                want = []
                for i, t in enumerate(M.f(ln, 'LLLine', 'll_tokens')):
                    t = M.f(t, 'LLToken', 'token')
                    if t.var == 'Text':
                        want += [(i, i, x) for k, vs in ent if norm(k) == norm(''.join(t.fs[0])) for x in vs]
                return differ(got(M, ev, v), want)
            return conclude(R, name, b, rule, proof(), I, outs, models, oracle, detail="%d outcomes" % len(outs), deps=True)
        R.guard(name, run, site(b), rule)
    one('new', False, False)
    one('new_case_insensitive', True, False)
    one('new_case_insensitive_str_arr', True, True)


def entries(I, m):
    """sequences holding every entry of the map exactly once"""
    out = []
    for lp in I.loops.values():
        for e in lp.tree or ():
            for x in e:
                if isinstance(x, T):
                    for t in subterms(x):
                        if t.op == 'sorted' and t.a[1].op == 'hashseq' and t.a[1].a[1] is m and 'iter' in t.a[1].a[0]:
                            out.append(t)
                        if t.op in ('hashseq', 'btseq') and t.a[1] is m and 'iter' in t.a[0]:
                            out.append(t)
    return list(dict.fromkeys(out))


# ------------------------------------------------------------------ C16
TAGS = ['Adjective', 'Adverb', 'Conjunction', 'Determiner', 'Interjection', 'Noun', 'Numeral', 'Particle', 'Postposition', 'Preposition',
        'Pronoun', 'ProperNoun', 'Verb']


def lexicon():
    """the contents of the lexicon the crate embeds (word, tags): separating models use real entries only"""
    import gzip
    masks = {}

    def tags(m):
        if m not in masks:
            masks[m] = tuple(t for i, t in enumerate(TAGS) if m >> (i + 1) & 1)
        return masks[m]
    out = {}
    for l in gzip.open(os.path.join(HERE, 'lexicon.tsv.gz'), 'rt', encoding='utf-8', newline='\n'):
        w, m = l.rstrip('\n').split('\t')
        out[w] = tags(int(m))
    return out


def sample_words(lex, lengths):
    """one-token words of the lexicon: a few for every set of tags, and of the given lengths"""
    seen, out = {}, []
    for w in sorted(lex):
        if not (w.isascii() and w.isalpha()):
            continue
        k, n = ('tags', lex[w]), ('len', len(w))
        if seen.get(k, 0) < 1 or (len(w) in lengths and seen.get(n, 0) < 6):
            out.append(w)
            seen[k] = seen.get(k, 0) + 1
            seen[n] = seen.get(n, 0) + 1
    return out


def statics(outs, I):
    """constants the analysis knows only by name, given a value of their own in every model"""
    import props.c04 as c04
    return {t: Sym('static', (str(t.a[0]),)) for s, v in outs for t in c04.reach(I, s, v) if t.op == 'opaque'}


def c16(ctx, R):
    N = ctx.N
    M = Mod(N)
    S = sem.Sem(N)
    go = R.anchor('go', 'go', 'POSTagResolver', 'Resolver')
    if go is None:
        return
    rule = 'every tag the lexicon lists for the lower-cased word, or Noun, on each word token and on no other'
    sel = p('sel')
    TAG = 'wiktionary_part_of_speech_extract::tags::Tag'
    NOUN = mk('agg', TAG, 'Noun')

    def run():
        I, outs = analyse(ctx, go)
        R.count('functions_summarised')
        R.count('outcomes', len(outs))
        eqt, word = ('adt', N.adt('AttrEq'), (('adt', N.adt('TextTag'), ()),)), N.T('AttrEq', N.V('TextTag', 'WORD'))
        txt, text = text_matcher(N)

        def proof():
            why = 'no lexicon'
            lex = {t.a[2] for s, v in outs for t in subterms(v) if t.op == 'call' and t.a[0] == 'TagsLookup::get'}
            for lx in lex:
                if lx.op != 'opaque' or 'TagsLookup' not in str(lx.a[1]):
                    continue
                for first in (True, False):
                    ts, ms = ((eqt, txt), (word, text)) if first else ((txt, eqt), (text, word))
                    mt = ('adt', N.adt('All2'), ts)
                    found = call('find_by', (mt,), sel, mk('call', 'All::into_all', (('tuple', ts),), tup(*ms)))

                    def per(x):
                        w = fld(fld(x, 'tuple', 1), 'tuple', 1 if first else 0)
                        g = mk('call', 'TagsLookup::get', (), lx, mk('call', 'lower', (), w))
                        hit = isv(g, OPTION, 'Some')
                        put = lambda ts_: each(mk('call', 'TagSet::tags', (), ts_), lambda v: (item(assign(N, fld(x, 'tuple', 0), v)),))
                        return alt_nodes([((hit,), put(vf(g, OPTION, 'Some', 0))),
                                          ((neg(hit),), put(mk('call', 'TagSet::of', (), seq((item(NOUN),)))))])
                    w = prove_rows(outs, [((), seq(each(found, per)))])
                    if w is None:
                        return None
                    why = w if first else why
            return why
        LEX = lexicon()
        tag = lambda n: Agg(TAG, n, ())
        F = S.funcs()

        def get(ev, t, lx, w):
            w = ''.join(ev.toseq(w))
            return Some(Sym('set', LEX[w])) if w in LEX else NONEV
        F['TagsLookup::get'] = get
        F['TagSet::of'] = lambda ev, t, l: Sym('set', tuple(sorted({x.var for x in ev.toseq(l)}, key=TAGS.index)))
        F['TagSet::tags'] = lambda ev, t, s_: tuple(tag(x) for x in s_.args)
        F['TagSet::is_empty'] = lambda ev, t, s_: not s_.args
        st = statics(outs, I)

        def models():
            words = ['Run', 'fast', 'qzq', 'Qzq', 'the', '1', '.', ' ', None, 'RUN', 'go', '\u00e9', 'a', "It's", 'non-x', 'x', '\u2022', '1a', 'I']
            H = MODELS.HINT
            by = sample_words(LEX, {k + e for k in H.ints for e in (-1, 0, 1)})
            more = H.texts() + ['\u039f\u03a3', '\u0130', 'a\u2013b', '\u212a', '\u212aIN', 'like', 'LIKE', 'QZQ', "o'clock", "O'Clock"]
            more += [f(w) for w in by for f in (str, str.upper, str.capitalize)]
            todo = itertools.chain(itertools.product(words, repeat=2), ([t, 'run'] for t in more), [['the', 'fast', 'x'] * 5],
                                   (['the', ' '] * k + ['run'] for k in H.many()))
            for texts in todo:
                e = dict(st)
                e[sel] = S.whole(S.line(list(texts)))
                yield e, F

        def oracle(env, ev, s, v):
            ln = S.un(env[sel])[0]
            want = []
            for i, t in enumerate(M.f(ln, 'LLLine', 'll_tokens')):
                t = M.f(t, 'LLToken', 'token')
                if t.var == 'Text' and t.fs[1].var == 'WORD':
                    want += [(i, i, tag(x)) for x in LEX.get(''.join(t.fs[0]).lower(), ('Noun',))]
            return differ(got(M, ev, v), want)
        return conclude(R, 'go', go, rule, proof(), I, outs, models, oracle, detail="%d outcomes" % len(outs), deps=True)
    R.guard('go', run, site(go), rule)


# ------------------------------------------------------------------ C18
def c18(ctx, R):
    keywords(ctx, R)
    clauses(ctx, R)


def keywords(ctx, R):
    N = ctx.N
    M = Mod(N)
    S = sem.Sem(N)
    go = R.anchor('keywords', 'go', 'ClauseKeywordResolver', 'Resolver')
    b = R.anchor('keywords.new', 'new', 'ClauseKeywordResolver')
    if go is None or b is None:
        return
    rule = 'a token whose lower-cased text is listed is marked condition start, then, or and, in that order of precedence'
    sel = p('sel')
    KW = lambda n: N.V('ClauseKeyword', n)

    def run():
        I, outs = analyse(ctx, go, b)
        R.count('functions_summarised', 2)
        R.count('outcomes', len(outs))
        mt, mv = text_matcher(N)

        def per(x):
            w = mk('call', 'lower', (), fld(x, 'tuple', 1))

            def inn(c):
                k = new_bv('k')
                return le(ONE, cnt_of(close_for(k, ZERO, length(c), False, alt_nodes([((eq(w, elem(c, k)),), (item(UNIT),))]))))
            put = lambda n: (item(assign(N, fld(x, 'tuple', 0), KW(n))),)
            c, a, t = inn(p('arg1')), inn(p('arg2')), inn(p('arg3'))
            return alt_nodes([((c,), put('ConditionStart')), ((neg(c), t), put('Then')), ((neg(c), neg(t), a), put('And'))])
        why = prove_rows(outs, [((), seq(each(call('find_by', (mt,), sel, mv), per)))])
        F = S.funcs()
        lists = [[], ['if'], ['then', 'if'], ['and'], ['and', 'then'], ['If'], ['\u00e9', 'if', 'if'], ['&', 'x', "it's", 'k']]
        words = ['If', 'if', 'then', 'THEN', 'and', 'x', ' ', None, '\u00c9', 'AND', 'ands', 'iff', 't', '.', '1', '&', 'X', "it's", "It's", '\u212a', 'k']
        # the characters a text might be cleaned of, inside keywords
        odd = ["it\u2019s", 'x\u2019', 'a\u2013b', 'a-b', '\u00e9t\u00e9', 'e\u0301', 'stra\u00dfe', '\u0130', '\u0149', '\ufb01', '\u01f0', '\u0390']

        def models():
            rnd = random.Random(2)
            hs = [h for h in MODELS.HINT.texts() if h and len(h) < 6]
            clean = [x for h in hs for x in (h, 'it' + h + 's', h + 'x', 'x' + h)] + odd
            for l in [words] + [clean[i:i + 12] for i in range(0, min(len(clean), 240), 12)]:
                ks = [x for x in l if x]
                for c, a, t in ((ks, [], []), ([], ks, []), ([], [], ks), (ks[1::2], ks, ks[::3])):
                    for f in (str, str.upper):
                        yield {p('arg1'): tuple(map(tuple, c)), p('arg2'): tuple(map(tuple, a)), p('arg3'): tuple(map(tuple, t)),
                               sel: S.whole(S.line([x if x is None else f(x) for x in l]))}, F
            strip = [x.replace('\u2019', "'").replace('-', '').replace('\u2013', '-') for x in odd]
            yield {p('arg1'): tuple(map(tuple, strip)), p('arg2'): (), p('arg3'): (), sel: S.whole(S.line(odd))}, F
            for c, a, t in itertools.chain(itertools.product(lists, repeat=3), itertools.product(lists[::-1], repeat=3), itertools.product([lists[1] + MODELS.HINT.texts(), lists[3]], repeat=3)):
                ln = S.line([rnd.choice(words + MODELS.HINT.texts()) for _ in range(4)])
                yield {p('arg1'): tuple(map(tuple, c)), p('arg2'): tuple(map(tuple, a)), p('arg3'): tuple(map(tuple, t)),
                       sel: S.whole(ln)}, F

        def oracle(env, ev, s, v):
            ln = S.un(env[sel])[0]
            L = [[''.join(x) for x in env[p('arg%d' % i)]] for i in (1, 2, 3)]
            want = []
            for i, t in enumerate(M.f(ln, 'LLLine', 'll_tokens')):
                t = M.f(t, 'LLToken', 'token')
                if t.var == 'Text':
                    w = ''.join(t.fs[0]).lower()
                    k = 'ConditionStart' if w in L[0] else 'Then' if w in L[2] else 'And' if w in L[1] else None
                    if k:
                        want.append((i, i, Agg(N.adt('ClauseKeyword'), k, ())))
            return differ(got(M, ev, v), want)
        return conclude(R, 'keywords', go, rule, why, I, outs, models, oracle, detail="%d outcomes" % len(outs), deps=True)
    R.guard('keywords', run, site(go), rule)


def clauses(ctx, R):
    N = ctx.N
    M = Mod(N)
    S = sem.Sem(N)
    go = R.anchor('clauses', 'go', 'ClauseResolver', 'Resolver')
    if go is None:
        return
    rule = 'every non-blank piece between keywords and punctuation gets one clause, by the keyword before it and the conditions seen'
    sel = p('sel')

    def run():
        I, outs = analyse(ctx, go)
        R.count('functions_summarised')
        R.count('outcomes', len(outs))
        kwt = ('adt', N.adt('ClauseKeyword'), ())
        kw, kwv = ('adt', N.adt('Attr'), (kwt,)), None
        tt = ('adt', N.adt('AttrEq'), (('adt', N.adt('TextTag'), ()),))
        space = N.T('AttrEq', N.V('TextTag', 'SPACE'))

        def proof():
            why = 'no split at keywords and punctuation'
            for sp in calls(I, outs, 'split_by'):
                if sp.a[2] is not sel or sp.a[1] != (('adt', N.adt('AnyOf2Matcher'), (kw, tt)),):
                    continue
                m = sp.a[3]
                if m.op != 'call' or m.a[0] != 'AnyOf::into_any' or m.a[2].op != 'agg' or m.a[2].a[3] is not N.T('AttrEq', N.V('TextTag', 'PUNC')):
                    continue
                why = prove_with(sp, m.a[2].a[2])
                if why is None:
                    return None
            return why

        def prove_with(sp, kwv):
            C = lambda n: N.V('Clause', n)
            trim = lambda x: call('trim', (tt,), x, space)
            back = lambda x: call('match_first_backwards', (kw,), x, kwv)
            KW = N.adt('ClauseKeyword')

            def kind(x):
                """(conditions, keyword before the piece)"""
                b = back(x)
                hit = isv(b, OPTION, 'Some')
                k = fld(vf(b, OPTION, 'Some', 0), 'tuple', 1)
                return [((neg(hit),), None)] + [((hit, isv(k, KW, n)), n) for n in ('ConditionStart', 'Then', 'And')]

            def put(x, n):
                return assign(N, vf(trim(x), OPTION, 'Some', 0), C(n))
            one = eqi(length(sp), ONE)
            rows = []
            x0 = elem(sp, ZERO)
            t0 = isv(trim(x0), OPTION, 'Some')
            rows.append(((one, neg(t0)), EMPTY))
            for c, k in kind(x0):
                rows.append(((one, t0) + c, seq((item(put(x0, 'Condition' if k == 'ConditionStart' else 'Independent')),))))
            single = [(s, v) for s, v in outs if not FX.contradictory(tuple(s.facts) + (one,))]
            many = [(s, v) for s, v in outs if not FX.contradictory(tuple(s.facts) + (neg(one),))]
            u = uncovered(outs, rows)
            if u is not None or not many:
                return 'no normal outcome under %s' % ([str(c)[:60] for c in u[0]] if u else 'several pieces')
            bad = compare.prove_outs(single, rows)
            if bad is not None:
                return 'single piece: %s is not %s' % (str(bad[1])[:300], str(bad[2][1])[:300])

            def step(bs, st):
                x = elem(sp, bs[-1])
                ok = isv(trim(x), OPTION, 'Some')
                acc, found = st
                app = lambda n: seq(spl_nodes(acc) + (item(put(x, n)),))
                out = [((neg(ok),), [acc, found])]
                for c, k in kind(x):
                    if k == 'ConditionStart':
                        out.append(((ok,) + c, [app('Condition'), TRUE]))
                    elif k == 'Then':
                        out.append(((ok,) + c, [app('TrailingEffect'), found]))
                    else:
                        out.append(((ok,) + c + (found,), [app('TrailingEffect'), found]))
                        out.append(((ok,) + c + (neg(found),), [app('LeadingEffect'), found]))
                return out
            for s, v in many:
                w = fold.prove(R, I, tuple(s.facts) + (neg(one),), [v, None],
                               fold.Fold(fold.over(sp), [EMPTY, FALSE], step, name='clauses'))
                if w is not None:
                    return w
            return None

        F = S.funcs()
        K = lambda n: Agg(N.adt('ClauseKeyword'), n, ())
        KWS = {'if': 'ConditionStart', 'then': 'Then', 'and': 'And'}

        def models():
            al = ['if', 'then', 'and', ',', ' ', 'x', None]
            todo = itertools.chain(*[itertools.product(al, repeat=n) for n in range(1, 5 if ctx.tier == 'quick' else 6)])
            todo = itertools.chain([['if', ' ', 'x', ',', ' ', 'x'], ['x', ' ', 'if', ' ', 'x'], ['x', 'and', 'x', 'if', 'x', 'and', 'x'],
                                    ['x', ',', 'if', 'x', ',', 'x', 'then', 'x', 'and', 'x'], ['if', ' ', 'x', ' ', 'then', ' ', 'x', '.'],
                                    ['x', ',', ',', 'x', ' ', ' ', ',', 'x'], ['if', ' ', ',', 'x'], ['then', 'x', 'and', 'x'],
                                    *([['x', q, 'x', 'if', 'x', q, 'x'] for q in ',.!;:?\'"']), ['x', '$', 'x', ',', '1'], ['if', 'if', 'x', 'x', ',', 'x']], todo)
            rnd = random.Random(8)
            todo = itertools.chain(todo, (sum((rnd.choice([[], [], [' '], [' '], ['x'], [' ', 'x'], ['x', ' '], [' ', ' '], [None]]) + rnd.choice([['if'], ['then'], ['and'], [','], [',']])
                                               for _ in range(rnd.randrange(2, 6))), []) + rnd.choice([[], ['x'], [' ', 'x']])
                                          for _ in range(900 if ctx.tier == 'quick' else 6000)))
            todo = itertools.chain(todo, ([t, ',', 'x', 'if', t] for t in MODELS.HINT.texts()))
            todo = itertools.chain(((['x', w] * k)[:2 * k - 1] for k in MODELS.HINT.many() for w in (',', 'and', 'if', 'then')),
                                   (['x'] * k + ['if', ' '] + ['x'] * k for k in MODELS.HINT.many()), todo)
            for texts in todo:
                ex = [((i, i), ('adt', N.adt('ClauseKeyword'), ()), K(KWS[t])) for i, t in enumerate(texts) if t in KWS]
                yield {sel: S.whole(S.line(list(texts), ex)), p('self'): Agg(N.adt('ClauseResolver'), None, ())}, F

        def oracle(env, ev, s, v):
            ln = S.un(env[sel])[0]
            texts = [''.join(t.fs[0]) if t.var == 'Text' else None
                     for t in (M.f(t, 'LLToken', 'token') for t in M.f(ln, 'LLLine', 'll_tokens'))]
            tags_ = [t.fs[1].var if t.var == 'Text' else None for t in (M.f(t, 'LLToken', 'token') for t in M.f(ln, 'LLLine', 'll_tokens'))]
            cut = lambda i: i == len(texts) or texts[i] in KWS or tags_[i] == 'PUNC'
            pieces, cur = [], None
            for i in range(len(texts) + 1):
                if not cut(i) and cur is None:
                    cur = i
                if cut(i) and cur is not None:
                    pieces.append((cur, i - 1))
                    cur = None
            want, found = [], False
            for a, b in pieces:
                x, y = (a + 1 if tags_[a] == 'SPACE' else a), (b - 1 if tags_[b] == 'SPACE' else b)
                if x > y or y < a:
                    continue
                k = KWS.get(texts[a - 1]) if a > 0 else None
                if k == 'ConditionStart':
                    found = True
                    c = 'Condition'
                elif len(pieces) == 1:
                    c = 'Independent'
                else:
                    c = 'TrailingEffect' if k == 'Then' or found else 'LeadingEffect'
                want.append((x, y, Agg(N.adt('Clause'), c, ())))
            return differ(got(M, ev, v), want, True)
        return conclude(R, 'clauses', go, rule, proof(), I, outs, models, oracle, detail="%d outcomes" % len(outs), deps=True)
    R.guard('clauses', run, site(go), rule)


META = {
    'C15': {'run': c15, 'floor': 3, 'explanation':
            'Every constructor of the dictionary resolver is composed with its go(): the summary is proved to be, for each text token '
            'found, the values of a dictionary at the token\'s (lower-cased) text; for the case-insensitive forms the dictionary is '
            'proved to be the fold that appends every entry\'s values under its lower-cased key.'},
    'C16': {'run': c16, 'floor': 1, 'explanation':
            'The summary of the part-of-speech resolver is proved to be, for every match of all(tag = WORD, text), the lexicon\'s tags '
            'of the lower-cased text, or those of {Noun}, on that token.'},
    'C18': {'run': c18, 'floor': 2, 'explanation':
            'The summary of the keyword resolver is proved equal to the keyword table; that of the clause resolver to the '
            'classification of the pieces between keywords and punctuation, as a fold carrying whether a condition was seen.'},
}
