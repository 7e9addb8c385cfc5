#!/usr/bin/env python3
"""C19 and C20: the Python indexes against explicit models, on exhaustively enumerated options, documents and histories.

harness.py ID TIER --pkg DIR [--only KEY] [--replays DIR] [--shard I N]
Same protocol as the Rust explorer: JSON on stdout, exit 0 or 1.
"""
import hashlib
import itertools
import json
import os
import signal
import subprocess
import sys
import time
from collections import Counter

DEADLINE = {'quick': 400, 'thorough': 780}


class Violation(Exception):
    pass


def ensure(c, msg, *a):
    if not c:
        raise Violation(msg.format(*a))


class Cx:
    def __init__(self, prop, tier, only, shard, n):
        self.prop, self.tier, self.only, self.shard, self.n = prop, tier, only, shard, n
        self.thorough = tier == 'thorough'
        self.cases = self.steps = self.traces = 0
        self.seen = set()
        self.samples, self.sections, self.notes = [], [], []
        self.viol = None
        self.incomplete = self.incomplete_note = False
        self.t0 = time.time()
        self.item = 0

    def q(self, a, b):
        return b if self.thorough else a

    def late(self):
        if time.time() - self.t0 > DEADLINE[self.tier]:
            if not self.incomplete:
                self.notes.append('time limit reached in section ' + self.sec)
            self.incomplete = True
        return self.incomplete

    def section(self, name, space):
        self.sec = name
        self.sections.append({'section': name, 'space': space, 'cases': 0, 'steps': 0, 'wall_s': 0.0, '_t': time.time()})

    def state(self, x):
        self.seen.add(hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest())

    def step(self, n=1):
        self.steps += n
        self.sections[-1]['steps'] += n

    def case(self, key, f):
        """One case; cases are dealt to the shards in turn."""
        self.item += 1
        if self.viol or (self.only is None and self.item % self.n != self.shard) or self.late():
            return
        full = self.sec + '|' + key
        if self.only is not None and self.only != full:
            return
        self.cases += 1
        s = self.sections[-1]
        s['cases'] += 1
        signal.alarm(120)
        try:
            f()
            self.traces += 1
        except Violation as e:
            self.viol = (self.sec, key, str(e))
        except KeyboardInterrupt:
            raise
        except BaseException as e:  # panics of the extension are BaseExceptions
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            self.viol = (self.sec, key, '%s: %s (%s)' % (type(e).__name__, e, '; '.join('%s:%d' % (os.path.basename(x.filename), x.lineno) for x in tb[-3:])))
        signal.alarm(0)
        s['wall_s'] = round(time.time() - s['_t'], 3)
        if sum(1 for x in self.samples if x.startswith(self.sec + ': ')) < 2:
            self.samples.append(self.sec + ': ' + key)

    def result(self):
        for s in self.sections:
            s.pop('_t', None)
        return {'cases': self.cases, 'transitions': self.steps, 'traces': self.traces, 'samples': self.samples[:14], 'sections': self.sections,
                'notes': self.notes, 'exhaustive': not self.incomplete and not self.incomplete_note, 'violations': 1 if self.viol else 0, 'violation': self.viol, 'states_set': sorted(self.seen)}


def on_alarm(*_):
    raise Violation('an operation did not terminate within 120 s')


# ------------------------------------------------------------------ the meaning of the options

SEPS = set(' \t\n\r\x0c!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~')


def words(doc):
    out, cur = [], ''
    for c in doc:
        if c in SEPS:
            if cur:
                out.append(cur)
            cur = ''
        else:
            cur += c
    if cur:
        out.append(cur)
    return out


def grams(doc, analyzer, ng, lower):
    """The n-grams of a document, as a list."""
    if lower:
        doc = doc.lower()
    if analyzer == 'char':
        lo, hi = ng or (3, 4)
        return [doc[i:i + n] for n in range(lo, hi + 1) for i in range(len(doc) - n + 1)]
    w = words(doc)
    if ng is None:
        return [(x,) for x in w]
    lo, hi = ng
    return [tuple(w[i:i + n]) for n in range(lo, hi + 1) for i in range(len(w) - n + 1)]


NGS = [None, (1, 1), (2, 2), (3, 3), (1, 2), (1, 3), (2, 3), (2, 4), (3, 5)]


def word_docs(n):
    """all word sequences up to n over three words, in several spellings"""
    out = []
    for k in range(n + 1):
        for s in itertools.product(['a', 'b', 'ab'], repeat=k):
            out.append(' '.join(s))
    out += ['A b', 'a,b', ' a  b.', 'a\tb\n', 'AB a', 'Ab', 'É é', 'é é', 'a-b', "it's a b", 'a b a b a b', 'b a b a b a', 'a_b', '日本 語', '日 本語']
    return out


def char_docs(n):
    out = []
    for k in range(n + 1):
        for s in itertools.product('aB é', repeat=k):
            out.append(''.join(s))
    out += ['abcab', 'ABCab', 'aaaa', 'aaaaa', 'aaaaaa', 'ÉéÉé', 'a日b語', '日日日日', 'a b a b', 'abab', 'baba', '😀a😀a', 'a  b']
    return out


WIDE = [(1, 12), (2, 20), (4, 10), (10, 10), (3, 9), (7, 8), (1, 40)]


def long_docs(n, an):
    """documents of n words (an == 'word') or n characters, some of them made of the same pieces"""
    w = ['w%d' % i for i in range(n)]
    if an == 'char':
        t = ' '.join(w)[:n + 1]
        h = n // 2
        return [t, t[:h], t[h:], t[h:] + t[:h], t[::-1], t[:h] + 'z' * (n - h)]
    h = n // 2
    return [' '.join(x) for x in (w, w[:h], w[h:], w[h:] + w[:h], w[::-1], w[:h] + ['z%d' % i for i in range(n - h)], [w[i // 2] for i in range(n)])]


def bits(v):
    return [b for b in range(v.bit_length()) if v >> b & 1]


def long_cases(cx):
    for n in cx.q([100, 1001, 2049, 4097, 10001, 66001], [100, 257, 513, 1001, 1025, 2049, 4097, 8193, 10001, 16385, 32769, 66001]):
        for an in ('word', 'char'):
            for ng in ((None, (2, 2)) if an == 'word' else (None, (5, 5))) if n < 12000 else (None,):
                yield n, an, ng
    for n in cx.q([5, 12, 60, 300], [3, 5, 9, 10, 11, 12, 20, 21, 41, 60, 300]):
        for an in ('word', 'char'):
            for ng in WIDE:
                yield n, an, ng


def inner(ix, name):
    """The object of the extension behind an index that has the method `name`, wherever the index keeps it; or None."""
    for v in [ix] + list(vars(ix).values()):
        if hasattr(v, name):
            return v
    return None


# ------------------------------------------------------------------ C19

def c19(cx, gaoya):
    M = gaoya.minhash.MinHashStringIndex
    visible = inner(M(), 'tokenize_and_minhash') is not None
    if not visible:
        cx.notes.append('signatures are not accessible: the answers are compared with those of a fresh index, filled by single inserts')
        cx.incomplete_note = True

    def norm(d, lower):
        return d.lower() if lower else d

    def sign(ix, d, low=False):
        """The signature of a document; the document itself if signatures are not accessible (see Banding)."""
        return inner(ix, 'tokenize_and_minhash').tokenize_and_minhash(norm(d, low)) if visible else d

    def banding(b, r, thr, **kw):
        return Banding(b, r, thr, None if visible else lambda: M(jaccard_threshold=thr, num_bands=b, band_size=r, **kw))

    # --- signatures and n-gram sets
    cx.section('n-gram sets', 'for every hash size, analyzer, n-gram range and lowercase option: all documents of a small domain, signatures equal exactly if the n-gram sets are equal, and made of the signatures of the single n-grams')
    for hs in (8, 16, 32, 64) if visible else ():
        for an in ('word', 'char'):
            for ng in NGS:
                for low in (False, True):
                    def f(hs=hs, an=an, ng=ng, low=low):
                        ix = M(hash_size=hs, num_bands=64, band_size=4, analyzer=an, ngram_range=ng, lowercase=low)
                        single = {}

                        def one(g):
                            # the n-gram as a document of its own, in an index that only makes n-grams of this size
                            if g not in single:
                                n = len(g)
                                if an == 'char':
                                    single[g] = sign(M(hash_size=hs, num_bands=64, band_size=4, analyzer='char', ngram_range=(n, n)), g)
                                else:
                                    r = None if ng is None else (n, n)
                                    single[g] = sign(M(hash_size=hs, num_bands=64, band_size=4, analyzer='word', ngram_range=r), ' '.join(g))
                            return single[g]

                        docs = word_docs(cx.q(4, 5)) if an == 'word' else char_docs(cx.q(4, 5))
                        by = {}
                        back = {}
                        for d in docs:
                            s = tuple(sign(ix, d, low))
                            g = frozenset(grams(d, an, ng, low))
                            cx.step()
                            cx.state((an, ng, low, sorted(g)))
                            ensure(len(s) == 256, 'signature of {!r} has {} hashes', d, len(s))
                            if g in by:
                                ensure(by[g][0] == s, 'documents {!r} and {!r} have the same n-grams but different signatures', by[g][1], d)
                            else:
                                by[g] = (s, d)
                                ensure(s not in back, 'documents {!r} and {!r} have different n-grams but equal signatures', back.get(s), d)
                                back[s] = d
                                sg = [one(x) for x in g]
                                if sg:
                                    for i in range(256):
                                        ensure(any(x[i] == s[i] for x in sg), 'hash {} of {!r} comes from none of its n-grams', i, d)
                    cx.case('hash %d %s ngrams %s lowercase %s' % (hs, an, ng, low), f)

    # --- documents inserted and queried: equal n-gram sets are indistinguishable
    cx.section('documents', 'all pairs of documents of a small domain (one indexed, one asked), for analyzers, ranges and lowercase: similarity 1 exactly for equal n-gram sets, the answers are those of the banding model')
    for an in ('word', 'char'):
        for ng in NGS:
            for low in (False, True):
                for hs, cont in ((64, 'set'), (32, 'vec'), (16, 'smallvec'), (8, 'set')):
                    def f(an=an, ng=ng, low=low, hs=hs, cont=cont):
                        docs = word_docs(cx.q(3, 4)) if an == 'word' else char_docs(3)
                        thr, b, r = 0.5, 20, 3
                        ix = M(hash_size=hs, jaccard_threshold=thr, num_bands=b, band_size=r, analyzer=an, ngram_range=ng, lowercase=low, id_container=cont)
                        half = docs[::2]
                        for i, d in enumerate(half):
                            ix.insert_document(i, d)
                        sig = {d: sign(ix, d, low) for d in docs}
                        gs = {d: frozenset(grams(d, an, ng, low)) for d in docs}
                        model = banding(b, r, thr, hash_size=hs, analyzer=an, ngram_range=ng, lowercase=low, id_container=cont)
                        for i, d in enumerate(half):
                            model.insert(i, sig[d])
                        bulk = ix.par_bulk_query(docs)
                        bulks = ix.par_bulk_query(docs, return_similarity=True)
                        for j, d in enumerate(docs):
                            e = model.query(sig[d])
                            model.compare(ix.query(d), ix.query(d, return_similarity=True), bulk[j], bulks[j], e, d)
                            for i, h in enumerate(half):
                                if gs[h] == gs[d]:
                                    ensure(e.get(i) == 1.0, 'document {!r} does not find {!r}, which has the same n-grams', d, h)
                            cx.step(2)
                        cx.step(2)
                        cx.state((an, ng, low, hs, cont))
                    cx.case('%s ngrams %s lowercase %s hash %d %s' % (an, ng, low, hs, cont), f)

    # --- histories
    docs = ['a b c d', 'a b c e', 'A b, C d', 'x y', '']
    ids = [1, -7, 2**63 - 1]
    ops = [('ins', i, d) for i in range(3) for d in range(5)]
    ops += [('rem', i) for i in range(3)] + [('rem', 99)]
    ops += [('bulk', [(0, 0), (1, 1)]), ('bulk', [(0, 3), (0, 2)]), ('bulk', [(2, 4), (1, 0), (0, 1)]), ('bulk', [])]

    def run(ix, h, low, b, r, thr, call=None, **kw):
        """Applies the history to the index and to the model, compares all query forms after every step."""
        model = banding(b, r, thr, **kw)
        ref = ix if call is None else M(hash_size=call, num_bands=b, band_size=r)
        sig = [sign(ref, d, low) for d in docs]
        for op in h:
            if op[0] == 'ins':
                ix.insert_document(ids[op[1]], docs[op[2]])
                model.insert(ids[op[1]], sig[op[2]])
            elif op[0] == 'rem':
                i = ids[op[1]] if op[1] < 3 else 12345
                ix.remove(i)
                model.m.pop(i, None)
            else:
                ix.par_bulk_insert_docs([ids[i] for i, _ in op[1]], [docs[d] for _, d in op[1]])
                for i, d in op[1]:
                    model.insert(ids[i], sig[d])
            cx.step()
            ensure(ix.size() == len(model.m), 'size() = {}, expected {}', ix.size(), len(model.m))
            bulk = ix.par_bulk_query(docs)
            bulks = ix.par_bulk_query(docs, return_similarity=True)
            for j, d in enumerate(docs):
                model.compare(ix.query(d), ix.query(d, return_similarity=True), bulk[j], bulks[j], model.query(sig[j]), d)
            cx.state(sorted((k, tuple(v)) for k, v in model.m.items()))

    def analyzer(d):
        return words(d)

    cx.section('histories', 'all histories of single and bulk inserts (re-inserts included) and removals over 3 ids and 5 documents, all query forms compared with the model after every step; every hash size and container')
    for hs in (8, 16, 32, 64):
        for cont in ('set', 'vec', 'smallvec'):
            for variant in ('word', 'lower', 'char', 'callable'):
                deep = (hs, cont, variant) in ((32, 'smallvec', 'word'), (64, 'vec', 'callable'), (16, 'set', 'lower'))
                depth = cx.q(3, 4) if deep and cx.thorough else (3 if deep else 2)
                for first in range(len(ops)):
                    def f(hs=hs, cont=cont, variant=variant, depth=depth, first=first):
                        for rest in itertools.product(range(len(ops)), repeat=depth - 1):
                            h = [ops[first]] + [ops[i] for i in rest]
                            low = variant == 'lower'
                            kw = dict(hash_size=hs, jaccard_threshold=0.5, num_bands=4, band_size=2, id_container=cont, lowercase=low)
                            if variant == 'callable':
                                kw['analyzer'] = analyzer
                            elif variant == 'char':
                                kw.update(analyzer='char', ngram_range=(2, 2))
                            ix = M(**kw)
                            try:
                                run(ix, h, low, 4, 2, 0.5, hs if variant == 'callable' else None, **{x: y for x, y in kw.items() if x not in ('jaccard_threshold', 'num_bands', 'band_size')})
                            except Violation as e:
                                raise Violation('history {}: {}'.format(h, e))
                    cx.case('hash %d %s %s depth %d first %s' % (hs, cont, variant, depth, ops[first]), f)

    # --- callable analyzers
    cx.section('callable analyzers', 'all token lists of up to 3 (4) over unusual tokens (empty, with separators, capitals, non-ASCII) from a callable analyzer: similarity 1 exactly for equal token sets, near the Jaccard similarity otherwise, all query forms agree')
    toks = ['', 'a', 'A', 'a b', 'é-', '日本 ', '\x00']
    for hs in (16, 32, 64):
        for cont in ('set', 'vec', 'smallvec'):
            for how in ('list', 'tuple', 'list, lowercase=False'):
                def f(hs=hs, cont=cont, how=how):
                    lists = [l for k in range(cx.q(3, 4)) for l in itertools.product(toks, repeat=k + 1)]
                    if not cx.thorough:
                        lists = lists[:len(toks) + len(toks) ** 2] + lists[len(toks) + len(toks) ** 2::5]
                    table = {str(i): l for i, l in enumerate(lists)}
                    kw = dict(lowercase=False) if 'lower' in how else {}
                    ix = M(hash_size=hs, jaccard_threshold=0.0, num_bands=128, band_size=2, id_container=cont, analyzer=lambda d: (tuple if how == 'tuple' else list)(table[d]), **kw)
                    keys = list(table)
                    half = keys[::2]
                    for d in half[::2]:
                        ix.insert_document(int(d), d)
                    ix.par_bulk_insert_docs([int(d) for d in half[1::2]], half[1::2])
                    ensure(ix.size() == len(half), 'size() = {}, expected {}', ix.size(), len(half))
                    bulk, bulks = ix.par_bulk_query(keys), ix.par_bulk_query(keys, return_similarity=True)
                    for j, d in enumerate(keys):
                        a, sims = ix.query(d), dict(ix.query(d, return_similarity=True))
                        ensure(sorted(a) == sorted(sims) == sorted(bulk[j]) and dict(bulks[j]) == sims, 'the query forms differ for the tokens {}', table[d])
                        x = set(table[d])
                        for h in half:
                            y = set(table[h])
                            g, e = sims.get(int(h), 0.0), len(x & y) / len(x | y)
                            if x == y:
                                ensure(g == 1.0, 'tokens {} and {} are equal as sets, but their similarity is {}', table[d], table[h], g)
                            else:
                                ensure(g != 1.0, 'tokens {} and {} differ as sets, but their similarity is 1', table[d], table[h])
                                # an id that shares no band is not returned: only an upper limit then
                                ensure(g - e < 0.3 and (int(h) not in sims or e - g < 0.3), 'tokens {} and {}: similarity {}, Jaccard similarity {}', table[d], table[h], g, e)
                    cx.step(2 * len(keys) + len(half))
                    cx.state((hs, cont, how))
                cx.case('hash %d %s %s' % (hs, cont, how), f)

    # --- batch sizes
    tokens_visible = all(inner(M(), x) for x in ('par_bulk_insert_tokens', 'par_bulk_query_tokens', 'par_bulk_query_tokens_return_similarity', 'query_tokens', 'query_tokens_return_similarity'))
    all_ids = sorted({x for k in range(64) for x in (2**k - 1, 2**k, 2**k + 1, -2**k - 1, -2**k, 1 - 2**k, 10**(k % 19), -10**(k % 19)) if -2**63 <= x < 2**63})
    cx.section('ids', 'all ids next to a power of two or equal to a power of ten, of both signs, the whole range of 64 bit: each with its own document; inserted singly or in bulk, queried, then removed one by one')
    for hs in (8, 16, 32, 64):
        for cont in ('set', 'vec', 'smallvec'):
            for how in ('single', 'bulk', 'callable', 'callable bulk'):
                def f(hs=hs, cont=cont, how=how):
                    kw = dict(hash_size=hs, jaccard_threshold=0.5, num_bands=8, band_size=4, id_container=cont)
                    if how.startswith('callable'):
                        kw['analyzer'] = words
                    ix = M(**kw)
                    ds = ['p%d q%d r%d' % (i, i, i) for i in range(len(all_ids))]
                    if how.endswith('bulk'):
                        ix.par_bulk_insert_docs(all_ids, ds)
                    else:
                        for i, d in zip(all_ids, ds):
                            ix.insert_document(i, d)
                    ensure(ix.size() == len(all_ids), 'size {} after inserting {} ids', ix.size(), len(all_ids))
                    for n, (a, b) in enumerate(zip(ix.par_bulk_query(ds), ix.par_bulk_query(ds, return_similarity=True))):
                        i = all_ids[n]
                        q = ix.query(ds[n])
                        ensure(i in q, 'query of the document of id {} gives {}', i, q)
                        ensure(sorted(q) == sorted(a) == sorted(x for x, _ in b) == sorted(x for x, _ in ix.query(ds[n], return_similarity=True)), 'query forms disagree on the document of id {}', i)
                        ensure(set(q) <= set(all_ids), 'query of the document of id {} gives {}', i, q)
                    order = all_ids[::2] + all_ids[1::2][::-1]
                    for n, i in enumerate(order):
                        ix.remove(i)
                        ensure(ix.size() == len(all_ids) - n - 1, 'size {} after removing {} of {} ids, the last one {}', ix.size(), n + 1, len(all_ids), i)
                        ensure(i not in ix.query(ds[all_ids.index(i)]), 'id {} is found after its removal', i)
                        if n + 1 < len(order):
                            j = order[n + 1]
                            ensure(j in ix.query(ds[all_ids.index(j)]), 'id {} is not found after the removal of {}', j, i)
                    cx.step(4 * len(all_ids))
                    cx.state((hs, cont, how))
                cx.case('hash %d %s %s' % (hs, cont, how), f)

    cx.section('large answers', 'up to 10001 (65537) documents that one query matches all, and one half of them: every query form names them all')
    for n in cx.q([65, 257, 1025, 5003, 10001], [65, 129, 257, 513, 1025, 2049, 4097, 10001, 65537]):
        for hs in (8, 64):
            for how in ('word', 'char', 'callable'):
                def f(n=n, hs=hs, how=how):
                    kw = dict(hash_size=hs, jaccard_threshold=0.5, num_bands=8, band_size=4, id_container=('set', 'vec', 'smallvec')[n % 3])
                    if how == 'callable':
                        kw['analyzer'] = words
                    elif how == 'char':
                        kw['analyzer'] = 'char'
                    ix = M(**kw)
                    ds = ['same words in all' if i % 2 else 'quite another text here' for i in range(n)]
                    for i, d in enumerate(ds):
                        ix.insert_document(i, d)
                    two = sorted(set(ds))
                    qs = two + [two[0], 'xyzzy', two[0]]
                    bulk, bulks = ix.par_bulk_query(qs), ix.par_bulk_query(qs, True)
                    ensure(len(bulk) == len(bulks) == 5, '5 queries gave {} and {} results', len(bulk), len(bulks))
                    for j, q in enumerate(qs):
                        e = {i for i, d in enumerate(ds) if d == q}
                        a, b = ix.query(q), ix.query(q, True)
                        for name, g in (('query', a), ('bulk query', bulk[j]), ('query with similarity', [i for i, _ in b]), ('bulk query with similarity', [i for i, _ in bulks[j]])):
                            ensure(len(g) == len(set(g)), '{} of {!r} among {} documents repeats ids', name, q, n)
                            ensure(set(g) >= e, '{} of {!r} among {} documents names {} ids and misses some of the {} equal documents', name, q, n, len(g), len(e))
                            ensure(set(g) == set(a), '{} of {!r} among {} documents names {} ids, query {}', name, q, n, len(g), len(a))
                    cx.step(4 * len(qs))
                    cx.state((n, hs, how))
                cx.case('%d documents hash %d %s' % (n, hs, how), f)

    cx.section('letter case', 'every Unicode character that has another case, in documents inserted singly and in bulk under lowercase=True: the document and its lower-case form are the same to every query form')
    cased = [chr(c) for c in range(sys.maxunicode + 1) if chr(c).lower() != chr(c) or chr(c).upper() != chr(c)]
    for an in ('word', 'char'):
        for how in ('single', 'bulk'):
            for part in range(4):
                def f(an=an, how=how, part=part):
                    ix = M(hash_size=64, jaccard_threshold=0.9, num_bands=8, band_size=4, analyzer=an, lowercase=True)
                    mine = cased[part::4]
                    ds = ['aa%sbb %s x%s' % (c, c, c * 2) for c in mine]
                    put = inner(ix, 'par_bulk_insert_docs')
                    if how == 'bulk' and put is not None:
                        (ix if hasattr(ix, 'par_bulk_insert_docs') else put).par_bulk_insert_docs(list(range(len(ds))), ds if hasattr(ix, 'par_bulk_insert_docs') else [d.lower() for d in ds])
                    else:
                        for i, d in enumerate(ds):
                            ix.insert_document(i, d)
                    low = [d.lower() for d in ds]
                    bulk, bulkl = ix.par_bulk_query(ds, True), ix.par_bulk_query(low, True)
                    for i, d in enumerate(ds):
                        a, b = dict(ix.query(d, True)), dict(ix.query(low[i], True))
                        ensure(a == b == dict(bulk[i]) == dict(bulkl[i]), '{!r} gives {}, in lower case {}, in bulk {} and {}', d, a, b, bulk[i], bulkl[i])
                        ensure(a.get(i) == 1.0, '{!r} does not find itself: {}', d, a)
                    cx.step(4 * len(ds))
                    cx.state((an, how, part))
                cx.case('%s %s part %d' % (an, how, part), f)

    cx.section('long documents', 'documents of up to 66001 words or characters and n-gram ranges up to 40: their prefixes, suffixes, rotations and reversals; similarity 1 for equal n-gram sets and near the Jaccard similarity otherwise, inserted singly and in bulk, all query forms agree')
    for n, an, ng in long_cases(cx):
        def f(n=n, an=an, ng=ng):
            kw = dict(hash_size=64, jaccard_threshold=0.0, num_bands=512, band_size=1, analyzer=an, ngram_range=ng)
            one, many = M(**kw), M(**kw)
            ds = long_docs(n, an)
            gs = [frozenset(grams(d, an, ng, False)) for d in ds]
            for i, d in enumerate(ds):
                one.insert_document(i, d)
            pad = 120
            many.par_bulk_insert_docs(list(range(len(ds) + pad)), ds + ['filler%d text%d' % (i, i) for i in range(pad)])
            bulk = many.par_bulk_query(ds, return_similarity=True)
            for j, d in enumerate(ds):
                a = dict(one.query(d, return_similarity=True))
                b = {i: x for i, x in many.query(d, return_similarity=True) if i < len(ds)}
                c = {i: x for i, x in bulk[j] if i < len(ds)}
                ensure(a == b == c, 'document {} of {} {}s: {} after single inserts, {} after a bulk insert, {} in bulk', j, n, an, a, b, c)
                for i in range(len(ds)):
                    if not gs[i] or not gs[j]:
                        continue
                    jac = len(gs[i] & gs[j]) / len(gs[i] | gs[j])
                    e = a.get(i, 0.0)
                    if jac == 1:
                        ensure(e == 1.0, 'documents {} and {} of {} {}s have the same n-grams, but similarity {}', i, j, n, an, e)
                    else:
                        if os.environ.get('MC_MEASURE'):
                            print('MEASURE', n, an, ng, i, j, round(jac, 3), round(e, 3), round(abs(e - jac) * 2 * 512 ** .5, 1), file=sys.stderr)
                        ensure(abs(e - jac) <= 0.3, 'documents {} and {} of {} {}s have Jaccard similarity {:.3f}, the answer says {:.3f}', i, j, n, an, jac, e)
                cx.step(4)
            cx.state((n, an, ng))
        cx.case('%d %ss ngrams %s' % (n, an, ng), f)

    cx.section('batch sizes', 'bulk inserts and bulk queries of sizes on both sides of the parallel threshold, with repeated ids, against the model; all containers, hash sizes and analyzers; the token entry points of the extension as well')
    sizes = [0, 1, 2, 50, 98, 99, 100, 101, 102, 128, 150, 199, 200, 201, 256, 257, 513, 1001] + cx.q([4097, 10001, 20001], [500, 999, 1000, 1025, 2049, 4097, 10001, 20001])
    for n in sizes:
        for hs, cont in itertools.product((8, 16, 32, 64), ('set', 'vec', 'smallvec')):
            for variant in ('word', 'lower', 'char', 'callable', 'tokens'):
                if variant == 'tokens' and not tokens_visible:
                    continue
                if n > 2100 and (variant == 'char' or (hs, cont) not in ((32, 'set'), (64, 'smallvec'))):
                    continue
                if not cx.thorough and (n + hs) % 3 and variant in ('char', 'tokens') and n not in (99, 100, 101):
                    continue

                def f(n=n, hs=hs, cont=cont, variant=variant):
                    low = variant == 'lower'
                    kw = dict(hash_size=hs, jaccard_threshold=0.4, num_bands=5, band_size=2, id_container=cont, lowercase=low)
                    if variant == 'callable':
                        kw['analyzer'] = analyzer
                    elif variant == 'char':
                        kw.update(analyzer='char', ngram_range=(2, 3))
                    ix = M(**kw)
                    ref = ix if variant != 'callable' else M(hash_size=hs, num_bands=5, band_size=2)
                    ext = inner(ix, 'query_tokens')
                    ds = ['Word%d common W%d' % (i % 17, i % 5) if n < 2100 else 'Word%d Second%d W%d' % (i % (n // 3), i % (n // 3), i % 5) for i in range(n)]
                    scale = (lambda i: i, lambda i: -i - 1, lambda i: (i << 40) - 5)[(n + hs // 8 + len(variant)) % 3]
                    idl = [scale(i if i % 10 else 7) for i in range(n)]
                    memo = {d: sign(ref, d, low) for d in set(ds) | {'common Word3 W3'}}
                    model = banding(5, 2, 0.4, **{x: y for x, y in kw.items() if x not in ('jaccard_threshold', 'num_bands', 'band_size')})
                    ix.insert_document(3, 'common Word3 W3')
                    model.insert(3, memo['common Word3 W3'])
                    if variant == 'tokens':
                        ext.par_bulk_insert_tokens(idl, [words(d) for d in ds])
                    else:
                        ix.par_bulk_insert_docs(idl, ds)
                    for i, d in zip(idl, ds):
                        model.insert(i, memo[d])
                    ensure(ix.size() == len(model.m), 'size() = {}, expected {}', ix.size(), len(model.m))
                    if variant == 'tokens':
                        t = [words(d) for d in ds]
                        bulk, bulks = ext.par_bulk_query_tokens(t), ext.par_bulk_query_tokens_return_similarity(t)
                    else:
                        bulk, bulks = ix.par_bulk_query(ds), ix.par_bulk_query(ds, return_similarity=True)
                    ensure(len(bulk) == n and len(bulks) == n, '{} queries gave {} and {} results', n, len(bulk), len(bulks))
                    sample = ds if n < 2100 else ds[:50] + ds[n // 2:n // 2 + 50] + ds[-50:]
                    expect = {d: model.query(memo[d]) for d in set(sample)}
                    for j, d in enumerate(ds):
                        if d not in expect:
                            # too many for the model: bulk and single queries still have to agree
                            a = ix.query(d) if variant != 'tokens' else ext.query_tokens(words(d))
                            ensure(sorted(a) == sorted(bulk[j]) == sorted(i for i, _ in bulks[j]), 'query({!r}) = {}, in bulk {} and {}', d, a, bulk[j], bulks[j])
                            ensure(idl[j] in a or model.m[idl[j]] != memo[d], 'query({!r}) does not return the document itself', d)
                            continue
                        if variant == 'tokens':
                            a, s = ext.query_tokens(words(d)), ext.query_tokens_return_similarity(words(d))
                        else:
                            a, s = ix.query(d), ix.query(d, return_similarity=True)
                        model.compare(a, s, bulk[j], bulks[j], expect[d], d)
                    cx.step(4 + 2 * n)
                    cx.state((n, hs, cont, variant))
                cx.case('%d documents hash %d %s %s' % (n, hs, cont, variant), f)

    # --- parameters
    cx.section('parameters', 'thresholds, band counts and widths; num_hashes instead of bands; rejected option values')
    for b, r in itertools.product((1, 2, 5, 20), (1, 2, 5)):
        for thr in (0.0, 0.2, 0.5, 0.8, 1.0):
            def f(b=b, r=r, thr=thr):
                for hs in (16, 32, 64):
                    ix = M(hash_size=hs, jaccard_threshold=thr, num_bands=b, band_size=r)
                    model = banding(b, r, thr, hash_size=hs)
                    ds = ['a b c d', 'a b c e', 'a b', 'x', 'a b c d e f g', '']
                    for i, d in enumerate(ds):
                        ix.insert_document(i, d)
                        model.insert(i, sign(ix, d))
                    ensure(not visible or len(model.m[0]) == b * r, 'signatures have {} hashes, expected {}', len(model.m[0]), b * r)
                    bulk, bulks = ix.par_bulk_query(ds), ix.par_bulk_query(ds, return_similarity=True)
                    for j, d in enumerate(ds):
                        model.compare(ix.query(d), ix.query(d, return_similarity=True), bulk[j], bulks[j], model.query(model.m[j]), d)
                    cx.step(len(ds) * 3)
                    cx.state((b, r, thr))
            cx.case('%d bands of %d threshold %s' % (b, r, thr), f)
    for nh in (1, 2, 7, 32, 64, 100, 126, 128, 200) if visible else ():
        for thr in (0.2, 0.5, 0.7, 0.9):
            def f(nh=nh, thr=thr):
                for kw in (dict(num_bands=None, band_size=None), dict(num_bands=None), dict(band_size=None)):
                    ix = M(hash_size=32, jaccard_threshold=thr, num_hashes=nh, **kw)
                    ds = ['a b c d e f g h', 'a b c d e f g i', 'a b c d', 'e f g h', 'x', 'a b c d e f g h i j k l', '']
                    sig = [sign(ix, d) for d in ds]
                    n = len(sig[0])
                    ensure(0 < n <= nh, 'num_hashes {} gives signatures of {} hashes', nh, n)
                    for i, d in enumerate(ds):
                        ix.insert_document(i, d)
                    got = [{i: s for i, s in ix.query(d, return_similarity=True)} for d in ds]
                    ok = False
                    for b in range(1, n + 1):
                        if n % b == 0:
                            model = Banding(b, n // b, thr)
                            for i in range(len(ds)):
                                model.insert(i, sig[i])
                            ok = ok or all(model.query(sig[j]).keys() == got[j].keys() for j in range(len(ds)))
                    ensure(ok, 'the answers {} fit no banding of {} hashes with threshold {}', got, n, thr)
                    for j, d in enumerate(ds):
                        ensure(got[j].get(j) == 1.0, '{!r} does not find itself', d)
                        ensure(sorted(ix.query(d)) == sorted(got[j]), 'query and query with similarity differ for {!r}', d)
                    cx.step(len(ds) * 2)
                    cx.state((nh, thr))
            cx.case('num_hashes %d threshold %s' % (nh, thr), f)
    bad = [dict(hash_size=h) for h in (0, 1, 7, 9, 24, 33, 48, 63, 65, 128, -8)]
    bad += [dict(jaccard_threshold=t) for t in (-0.1, -1e-9, 1.0000001, 1.5, 2, -1, 75)]
    bad += [dict(id_container=c) for c in ('', 'list', 'Set', 'SET', 'hashset', 'vector', 'small', None, 5)]
    bad += [dict(num_bands=None, band_size=None), dict(num_bands=None), dict(band_size=None)]
    for kw in bad:
        def f(kw=kw):
            try:
                M(**kw)
            except ValueError:
                cx.step()
                cx.state(sorted(kw.items(), key=str))
                return
            raise Violation('the options {} were accepted'.format(kw))
        cx.case('rejected %s' % sorted(kw.items(), key=str), f)


class Banding:
    """The model of a MinHash index: id -> signature. If signatures are not accessible, `make` makes an index, and the expected
    answer is that of an index made afresh with the current documents."""

    def __init__(self, b, r, thr, make=None):
        self.b, self.r, self.thr, self.make = b, r, thr, make
        self.m = {}

    def insert(self, i, sig):
        self.m[i] = sig

    def query(self, q):
        if self.make:
            ix = self.make()
            for i, d in self.m.items():
                ix.insert_document(i, d)
            return dict(ix.query(q, return_similarity=True))
        out = {}
        n = self.b * self.r
        for i, s in self.m.items():
            if any(s[k * self.r:(k + 1) * self.r] == q[k * self.r:(k + 1) * self.r] for k in range(self.b)):
                sim = sum(1 for a, b in zip(s, q) if a == b) / n
                if sim >= self.thr:
                    out[i] = sim
        return out

    def compare(self, plain, sims, bulk, bulks, e, what):
        ensure(len(plain) == len(set(plain)) and set(plain) == e.keys(), 'query({!r}) = {}, expected {}', what, plain, e)
        ensure(len(bulk) == len(set(bulk)) and set(bulk) == e.keys(), 'par_bulk_query({!r}) = {}, expected {}', what, bulk, e)
        for name, v in (('query', sims), ('par_bulk_query', bulks)):
            ensure(len(v) == len(e) and all(abs(e.get(i, -1) - s) < 1e-12 for i, s in v), '{}({!r}, return_similarity=True) = {}, expected {}', name, what, v, e)
            ensure(all(v[k][1] >= v[k + 1][1] for k in range(len(v) - 1)), '{}({!r}, return_similarity=True) is not sorted: {}', name, what, v)


# ------------------------------------------------------------------ C20

class Ball:
    """The model of a SimHash index."""

    def __init__(self, d, make=None):
        self.d, self.make = d, make
        self.m = {}

    def query(self, q):
        if self.make:
            ix = self.make()
            for i, d in self.m.items():
                ix.insert_document(i, d)
            return dict(ix.query(q, True))
        return {i: bin(s ^ q).count('1') for i, s in self.m.items() if bin(s ^ q).count('1') <= self.d}

    def compare(self, plain, dist, bulk, bulkd, e, what):
        ensure(len(plain) == len(set(plain)) and set(plain) == e.keys(), 'query({!r}) = {}, expected {}', what, plain, e)
        ensure(len(bulk) == len(set(bulk)) and set(bulk) == e.keys(), 'par_bulk_query({!r}) = {}, expected {}', what, bulk, e)
        for name, v in (('query', dist), ('par_bulk_query', bulkd)):
            ensure(len(v) == len(e) and all(e.get(i, -1) == s for i, s in v), '{}({!r}) with distances = {}, expected {}', name, what, v, e)
            ensure(all(v[k][1] <= v[k + 1][1] for k in range(len(v) - 1)), '{}({!r}) with distances is not sorted: {}', name, what, v)


def c20(cx, gaoya):
    S = gaoya.simhash.SimHashStringIndex
    visible = inner(S(), 'tokenize_and_simhash') is not None
    if not visible:
        cx.notes.append('signatures are not accessible: the answers are compared with those of a fresh index, filled by single inserts')
        cx.incomplete_note = True
    bulk_docs = inner(S(), 'par_bulk_insert_docs') is not None
    bulk_tokens = inner(S(), 'par_bulk_insert_tokens') is not None

    def norm(d, lower):
        return d.lower() if lower else d

    def sign(ix, d, low=False):
        return inner(ix, 'tokenize_and_simhash').tokenize_and_simhash(norm(d, low)) if visible else d

    def ball(dist, **kw):
        return Ball(dist, None if visible else lambda: S(**kw))

    cx.section('n-gram multisets', 'for every hash size, analyzer, n-gram range and lowercase option: all documents of a small domain, every signature bit is the majority of the bits of the single n-grams')
    for hs in (64, 128) if visible else ():
        for an in ('word', 'char'):
            for ng in NGS:
                for low in (False, True):
                    def f(hs=hs, an=an, ng=ng, low=low):
                        ix = S(hash_size=hs, analyzer=an, ngram_range=ng, lowercase=low)
                        single = {}

                        def one(g):
                            if g not in single:
                                n = len(g)
                                r = (n, n) if an == 'char' or ng is not None else None
                                single[g] = sign(S(hash_size=hs, analyzer=an, ngram_range=r), g if an == 'char' else ' '.join(g))
                            return single[g]
                        docs = word_docs(cx.q(4, 5)) if an == 'word' else char_docs(cx.q(4, 5))
                        by, back, tie_bit = {}, {}, None
                        for d in docs:
                            s = sign(ix, d, low)
                            g = grams(d, an, ng, low)
                            key = tuple(sorted(g))
                            cx.step()
                            cx.state((an, ng, low, key))
                            ensure(0 <= s < 1 << hs, 'the signature {} of {!r} does not fit in {} bits', s, d, hs)
                            if key in by:
                                ensure(by[key][0] == s, 'documents {!r} and {!r} have the same n-grams but different signatures', by[key][1], d)
                                continue
                            by[key] = (s, d)
                            sg = [one(x) for x in g]
                            for b in range(hs):
                                ones = sum(x >> b & 1 for x in sg)
                                bit = s >> b & 1
                                if 2 * ones == len(sg):
                                    ensure(tie_bit in (None, bit), 'ties are not resolved alike (bit {} of {!r})', b, d)
                                    tie_bit = bit
                                else:
                                    ensure(bit == (2 * ones > len(sg)), 'bit {} of {!r} is {}, but {} of {} n-grams have it set', b, d, bit, ones, len(sg))
                    cx.case('hash %d %s ngrams %s lowercase %s' % (hs, an, ng, low), f)

    cx.section('documents', 'all pairs of documents of a small domain, for analyzers, ranges, lowercase, blocks and distances: the answers of all query forms are those of the model')
    for an in ('word', 'char'):
        for ng in NGS:
            for low in (False, True):
                for hs, bl, dist in ((64, 6, 5), (128, 4, 3), (64, 3, 0), (128, 10, 2)):
                    def f(an=an, ng=ng, low=low, hs=hs, bl=bl, dist=dist):
                        docs = word_docs(cx.q(3, 4)) if an == 'word' else char_docs(3)
                        kw = dict(hash_size=hs, num_blocks=bl, hamming_distance=dist, analyzer=an, ngram_range=ng, lowercase=low)
                        ix = S(**kw)
                        sig = {d: sign(ix, d, low) for d in docs}
                        model = ball(dist, **kw)
                        for i, d in enumerate(docs[::2]):
                            ix.insert_document(i, d)
                            model.m[i] = sig[d]
                        bulk, bulkd = ix.par_bulk_query(docs), ix.par_bulk_query(docs, True)
                        for j, d in enumerate(docs):
                            model.compare(ix.query(d), ix.query(d, True), bulk[j], bulkd[j], model.query(sig[d]), d)
                        cx.step(2 * len(docs))
                        cx.state((an, ng, low, hs, bl, dist))
                    cx.case('%s ngrams %s lowercase %s hash %d blocks %d distance %d' % (an, ng, low, hs, bl, dist), f)

    docs = ['a b c d', 'a b c e', 'A b, C d', 'a b c d a b c d f', '']
    ids = [1, -7, 2**63 - 1]
    ops = [('ins', i, d) for i in range(3) for d in range(5)]
    ops += [('bulk', [(0, 0), (1, 1)]), ('bulk', [(0, 3), (0, 2)]), ('tok', [(2, 4), (1, 0), (0, 1)]), ('tok', [])]
    cx.section('histories', 'all histories of inserts, re-inserts and bulk inserts over 3 ids and 5 documents, all query forms after every step, built-in and callable analyzers')
    for hs, bl, dist in ((64, 6, 5), (128, 6, 5), (64, 32, 3), (128, 3, 2), (64, 3, 1), (128, 32, 2), (64, 12, 4)):
        for variant in ('word', 'lower', 'char', 'callable'):
            for first in range(len(ops)):
                def f(hs=hs, bl=bl, dist=dist, variant=variant, first=first):
                    low = variant == 'lower'
                    kw = dict(hash_size=hs, num_blocks=bl, hamming_distance=dist, lowercase=low)
                    if variant == 'callable':
                        kw['analyzer'] = words
                    elif variant == 'char':
                        kw.update(analyzer='char', ngram_range=(2, 3))
                    big = bl in (12, 32)
                    depth = 2 if big else cx.q(3, 3)
                    for rest in itertools.product(range(len(ops)), repeat=depth - 1):
                        if big and rest[0] % 3 and not cx.thorough:
                            continue
                        h = [ops[first]] + [ops[i] for i in rest]
                        ix = S(**kw)
                        ref = ix if variant != 'callable' else S(**dict(kw, analyzer='word'))
                        sig = [sign(ref, d, low) for d in docs]
                        model = ball(dist, **kw)
                        for op in h:
                            if op[0] == 'ins':
                                ix.insert_document(ids[op[1]], docs[op[2]])
                                model.m[ids[op[1]]] = sig[op[2]]
                            else:
                                if op[0] == 'tok' and variant in ('word', 'callable') and bulk_tokens:
                                    inner(ix, 'par_bulk_insert_tokens').par_bulk_insert_tokens([ids[i] for i, _ in op[1]], [words(docs[d]) for _, d in op[1]])
                                elif variant == 'callable' or not bulk_docs:
                                    for i, d in op[1]:
                                        ix.insert_document(ids[i], docs[d])
                                else:
                                    inner(ix, 'par_bulk_insert_docs').par_bulk_insert_docs([ids[i] for i, _ in op[1]], [docs[d] for _, d in op[1]])
                                for i, d in op[1]:
                                    model.m[ids[i]] = sig[d]
                            cx.step()
                            try:
                                bulk, bulkd = ix.par_bulk_query(docs), ix.par_bulk_query(docs, True)
                                for j, d in enumerate(docs):
                                    model.compare(ix.query(d), ix.query(d, return_hamming_distance=True), bulk[j], bulkd[j], model.query(sig[j]), d)
                            except Violation as e:
                                raise Violation('history {}: {}'.format(h, e))
                            cx.state(sorted(model.m.items()))
                cx.case('hash %d blocks %d distance %d %s first %s' % (hs, bl, dist, variant, ops[first]), f)

    cx.section('callable analyzers', 'all token lists of up to 3 (4) over unusual tokens (empty, with separators, capitals, non-ASCII) from a callable analyzer: distance 0 for equal multisets and for a token that makes up more than half, all query forms agree')
    toks = ['', 'a', 'A', 'a b', 'é-', '日本 ', '\x00']
    for hs, bl, dist in ((64, 6, 5), (128, 6, 5), (64, 3, 0), (128, 10, 9)):
        for how in ('list', 'tuple'):
            def f(hs=hs, bl=bl, dist=dist, how=how):
                lists = [l for k in range(cx.q(3, 4)) for l in itertools.product(toks, repeat=k + 1)]
                table = {str(i): l for i, l in enumerate(lists)}
                ix = S(hash_size=hs, num_blocks=bl, hamming_distance=dist, analyzer=lambda d: (tuple if how == 'tuple' else list)(table[d]))
                keys = list(table)
                half = keys[::2]
                for d in half:
                    ix.insert_document(int(d), d)
                bulk, bulkd = ix.par_bulk_query(keys), ix.par_bulk_query(keys, True)

                def major(l):
                    # what decides the signature in the simple cases: the multiset, or the token that makes up more than half
                    m = [t for t in set(l) if 2 * l.count(t) > len(l)]
                    return (m[0],) if m else tuple(sorted(l))
                for j, d in enumerate(keys):
                    a, ds = ix.query(d), dict(ix.query(d, True))
                    ensure(sorted(a) == sorted(ds) == sorted(bulk[j]) and dict(bulkd[j]) == ds, 'the query forms differ for the tokens {}', table[d])
                    ensure(all(0 <= x <= dist for x in ds.values()), 'distances {} beyond {}', ds, dist)
                    for h in half:
                        x, y = major(table[d]), major(table[h])
                        if x == y:
                            ensure(ds.get(int(h)) == 0, 'tokens {} and {} have equal signatures, but the distance is {}', table[d], table[h], ds.get(int(h)))
                        elif len(x) == len(y) == 1:
                            ensure(ds.get(int(h)) != 0, 'different tokens {} and {} have distance 0', x, y)
                cx.step(2 * len(keys) + len(half))
                cx.state((hs, bl, dist, how))
            cx.case('hash %d blocks %d distance %d %s' % (hs, bl, dist, how), f)

    all_ids = sorted({x for k in range(64) for x in (2**k - 1, 2**k, 2**k + 1, -2**k - 1, -2**k, 1 - 2**k, 10**(k % 19), -10**(k % 19)) if -2**63 <= x < 2**63})
    cx.section('ids', 'all ids next to a power of two or equal to a power of ten, of both signs, the whole range of 64 bit: each with its own document, inserted singly and queried in every form')
    for hs in (64, 128):
        for how in ('word', 'callable'):
            def f(hs=hs, how=how):
                kw = dict(hash_size=hs, num_blocks=4, hamming_distance=3)
                if how == 'callable':
                    kw['analyzer'] = words
                ix = S(**kw)
                ds = ['p%d q%d r%d' % (i, i, i) for i in range(len(all_ids))]
                for i, d in zip(all_ids, ds):
                    ix.insert_document(i, d)
                for n, (a, b) in enumerate(zip(ix.par_bulk_query(ds), ix.par_bulk_query(ds, True))):
                    i = all_ids[n]
                    q = ix.query(ds[n])
                    ensure(i in q, 'query of the document of id {} gives {}', i, q)
                    ensure(sorted(q) == sorted(a) == sorted(x for x, _ in b) == sorted(x for x, _ in ix.query(ds[n], return_hamming_distance=True)), 'query forms disagree on the document of id {}', i)
                    ensure(set(q) <= set(all_ids), 'query of the document of id {} gives {}', i, q)
                cx.step(4 * len(all_ids))
                cx.state((hs, how))
            cx.case('hash %d %s' % (hs, how), f)

    cx.section('large answers', 'up to 10001 (65537) documents that one query matches all, and one half of them: every query form names them all')
    for n in cx.q([65, 257, 1025, 5003, 10001], [65, 129, 257, 513, 1025, 2049, 4097, 10001, 65537]):
        for hs in (64, 128):
            for how in ('word', 'char', 'callable'):
                def f(n=n, hs=hs, how=how):
                    kw = dict(hash_size=hs, num_blocks=4, hamming_distance=3)
                    if how == 'callable':
                        kw['analyzer'] = words
                    elif how == 'char':
                        kw['analyzer'] = 'char'
                    ix = S(**kw)
                    ds = ['same words in all' if i % 2 else 'quite another text here' for i in range(n)]
                    for i, d in enumerate(ds):
                        ix.insert_document(i, d)
                    two = sorted(set(ds))
                    qs = two + [two[0], 'xyzzy', two[0]]
                    bulk, bulks = ix.par_bulk_query(qs), ix.par_bulk_query(qs, True)
                    ensure(len(bulk) == len(bulks) == 5, '5 queries gave {} and {} results', len(bulk), len(bulks))
                    for j, q in enumerate(qs):
                        e = {i for i, d in enumerate(ds) if d == q}
                        a, b = ix.query(q), ix.query(q, True)
                        for name, g in (('query', a), ('bulk query', bulk[j]), ('query with distance', [i for i, _ in b]), ('bulk query with distance', [i for i, _ in bulks[j]])):
                            ensure(len(g) == len(set(g)), '{} of {!r} among {} documents repeats ids', name, q, n)
                            ensure(set(g) >= e, '{} of {!r} among {} documents names {} ids and misses some of the {} equal documents', name, q, n, len(g), len(e))
                            ensure(set(g) == set(a), '{} of {!r} among {} documents names {} ids, query {}', name, q, n, len(g), len(a))
                    cx.step(4 * len(qs))
                    cx.state((n, hs, how))
                cx.case('%d documents hash %d %s' % (n, hs, how), f)

    cx.section('letter case', 'every Unicode character that has another case, in documents inserted singly and in bulk under lowercase=True: the document and its lower-case form are the same to every query form')
    cased = [chr(c) for c in range(sys.maxunicode + 1) if chr(c).lower() != chr(c) or chr(c).upper() != chr(c)]
    for an in ('word', 'char'):
        for how in ('single', 'bulk'):
            for part in range(4):
                def f(an=an, how=how, part=part):
                    ix = S(hash_size=64, num_blocks=4, hamming_distance=1, analyzer=an, lowercase=True)
                    mine = cased[part::4]
                    ds = ['aa%sbb %s x%s' % (c, c, c * 2) for c in mine]
                    put = inner(ix, 'par_bulk_insert_docs')
                    if how == 'bulk' and put is not None:
                        (ix if hasattr(ix, 'par_bulk_insert_docs') else put).par_bulk_insert_docs(list(range(len(ds))), ds if hasattr(ix, 'par_bulk_insert_docs') else [d.lower() for d in ds])
                    else:
                        for i, d in enumerate(ds):
                            ix.insert_document(i, d)
                    low = [d.lower() for d in ds]
                    bulk, bulkl = ix.par_bulk_query(ds, True), ix.par_bulk_query(low, True)
                    for i, d in enumerate(ds):
                        a, b = dict(ix.query(d, True)), dict(ix.query(low[i], True))
                        ensure(a == b == dict(bulk[i]) == dict(bulkl[i]), '{!r} gives {}, in lower case {}, in bulk {} and {}', d, a, b, bulk[i], bulkl[i])
                        ensure(a.get(i) == 0, '{!r} does not find itself: {}', d, a)
                    cx.step(4 * len(ds))
                    cx.state((an, how, part))
                cx.case('%s %s part %d' % (an, how, part), f)

    cx.section('long documents', 'documents of up to 66001 words or characters and n-gram ranges up to 40: every signature bit is the majority of the bits of the single n-grams; inserted singly and in bulk, all query forms agree')
    for n, an, ng in long_cases(cx):
        for hs in (64, 128) if n < 1100 else (64,) if n < 12000 else (128,):
            def f(n=n, an=an, ng=ng, hs=hs):
                kw = dict(hash_size=hs, num_blocks=3, hamming_distance=2, analyzer=an, ngram_range=ng)
                one, many = S(**kw), S(**kw)
                ds = long_docs(n, an)
                if n > 12000:
                    ds = [ds[0], ds[1], ds[3], ds[5]]
                for i, d in enumerate(ds):
                    one.insert_document(i, d)
                if bulk_docs:
                    inner(many, 'par_bulk_insert_docs').par_bulk_insert_docs(list(range(len(ds) + 120)), ds + ['filler%d text%d' % (i, i) for i in range(120)])
                bulk = one.par_bulk_query(ds, True)
                for j, d in enumerate(ds):
                    a = dict(one.query(d, True))
                    ensure(a == dict(bulk[j]), 'document {} of {} {}s: {}, in bulk {}', j, n, an, a, dict(bulk[j]))
                    ensure(a.get(j) == 0, 'document {} of {} {}s does not find itself: {}', j, n, an, a)
                    if bulk_docs:
                        b = {i: x for i, x in many.query(d, True) if i < len(ds)}
                        ensure(a == b, 'document {} of {} {}s: {} after single inserts, {} after a bulk insert', j, n, an, a, b)
                    cx.step(3)
                if not visible:
                    return
                memo, by, tie_bit = {}, {}, None
                makers = {}
                sigs = [sign(one, d) for d in ds]
                for j, d in enumerate(ds):
                    e = {i: bin(x ^ sigs[j]).count('1') for i, x in enumerate(sigs)}
                    e = {i: x for i, x in e.items() if x <= 2}
                    ensure(dict(one.query(d, True)) == e, 'document {} of {} {}s: {}, by the signatures {}', j, n, an, dict(one.query(d, True)), e)
                for j, d in enumerate(ds):
                    s = sign(one, d)
                    g = Counter(grams(d, an, ng, False))
                    key = frozenset(g.items())
                    if key in by:
                        ensure(by[key] == s, 'two documents of {} {}s have the same n-grams but different signatures', n, an)
                        continue
                    by[key] = s
                    ones, total = [0] * hs, 0
                    for x, c in g.items():
                        if x not in memo:
                            r = (len(x), len(x)) if an == 'char' or ng is not None else None
                            if r not in makers:
                                makers[r] = S(hash_size=hs, analyzer=an, ngram_range=r)
                            memo[x] = sign(makers[r], x if an == 'char' else ' '.join(x))
                        total += c
                        v, b = memo[x], 0
                        for b in bits(v):
                            ones[b] += c
                    for b in range(hs):
                        bit = s >> b & 1
                        if 2 * ones[b] == total:
                            ensure(tie_bit in (None, bit), 'ties are not resolved alike (bit {} of document {} of {} {}s)', b, j, n, an)
                            tie_bit = bit
                        else:
                            ensure(bit == (2 * ones[b] > total), 'bit {} of document {} of {} {}s is {}, but {} of {} n-grams have it set', b, j, n, an, bit, ones[b], total)
                    cx.step(len(g))
                cx.state((n, an, ng, hs))
            cx.case('%d %ss ngrams %s hash %d' % (n, an, ng, hs), f)

    cx.section('batch sizes', 'bulk inserts (extension level) and bulk queries of sizes on both sides of the parallel threshold')
    for n in [0, 1, 2, 50, 98, 99, 100, 101, 102, 128, 150, 200, 257, 513, 1001] + cx.q([4097, 10001, 20001], [500, 1000, 1025, 2049, 4097, 10001, 20001]):
        for hs in (64, 128):
            for variant in ('word', 'lower', 'char', 'callable'):
                if n > 2100 and variant == 'char':
                    continue

                def f(n=n, hs=hs, variant=variant):
                    low = variant == 'lower'
                    kw = dict(hash_size=hs, num_blocks=6, hamming_distance=5, lowercase=low)
                    if variant == 'callable':
                        kw['analyzer'] = words
                    elif variant == 'char':
                        kw.update(analyzer='char')
                    ix = S(**kw)
                    ref = ix if variant != 'callable' else S(**dict(kw, analyzer='word'))
                    ds = ['Word%d common shared text W%d' % (i % 17, i % 5) if n < 2100 else 'Word%d Second%d W%d' % (i % (n // 3), i % (n // 3), i % 5) for i in range(n)]
                    scale = (lambda i: i, lambda i: -i - 1, lambda i: (i << 40) - 5)[(n + hs // 8 + len(variant)) % 3]
                    idl = [scale(i if i % 10 else 7) for i in range(n)]
                    memo = {d: sign(ref, d, low) for d in set(ds)}
                    model = ball(5, **kw)
                    if variant == 'callable' and bulk_tokens:
                        inner(ix, 'par_bulk_insert_tokens').par_bulk_insert_tokens(idl, [words(d) for d in ds])
                    elif variant == 'callable' or not bulk_docs:
                        for i, d in zip(idl, ds):
                            ix.insert_document(i, d)
                    else:
                        inner(ix, 'par_bulk_insert_docs').par_bulk_insert_docs(idl, ds)
                    for i, d in zip(idl, ds):
                        model.m[i] = memo[d]
                    bulk, bulkd = ix.par_bulk_query(ds), ix.par_bulk_query(ds, True)
                    ensure(len(bulk) == n and len(bulkd) == n, '{} queries gave {} and {} results', n, len(bulk), len(bulkd))
                    sample = ds if n < 2100 else ds[:50] + ds[n // 2:n // 2 + 50] + ds[-50:]
                    expect = {d: model.query(memo[d]) for d in set(sample)}
                    for j, d in enumerate(ds):
                        if d not in expect:
                            a = ix.query(d)
                            ensure(sorted(a) == sorted(bulk[j]) == sorted(i for i, _ in bulkd[j]), 'query({!r}) = {}, in bulk {} and {}', d, a, bulk[j], bulkd[j])
                            ensure(idl[j] in a or model.m[idl[j]] != memo[d], 'query({!r}) does not return the document itself', d)
                            continue
                        model.compare(ix.query(d), ix.query(d, True), bulk[j], bulkd[j], expect[d], d)
                    cx.step(3 + 2 * n)
                    cx.state((n, hs, variant))
                cx.case('%d documents hash %d %s' % (n, hs, variant), f)

    cx.section('parameters', 'all blocks and distances in small ranges; rejected option values')
    for hs in (64, 128):
        for bl in range(3, cx.q(9, 13)):
            for dist in range(0, bl):
                def f(hs=hs, bl=bl, dist=dist):
                    ix = S(hash_size=hs, num_blocks=bl, hamming_distance=dist)
                    ds = ['a b c d e f g h', 'a b c d e f g i', 'a b c d e f g', 'a b c d e f g h a b c d e f g h i', 'x', '', 'a b c d e f g h h']
                    model = ball(dist, hash_size=hs, num_blocks=bl, hamming_distance=dist)
                    for i, d in enumerate(ds):
                        ix.insert_document(i, d)
                        model.m[i] = sign(ix, d)
                    bulk, bulkd = ix.par_bulk_query(ds), ix.par_bulk_query(ds, True)
                    for j, d in enumerate(ds):
                        model.compare(ix.query(d), ix.query(d, True), bulk[j], bulkd[j], model.query(model.m[j]), d)
                    cx.step(3 * len(ds))
                    cx.state((hs, bl, dist))
                cx.case('hash %d blocks %d distance %d' % (hs, bl, dist), f)
    bad = [dict(hash_size=h) for h in (0, 8, 16, 32, 63, 65, 127, 129, 256, -64)]
    bad += [dict(num_blocks=b, hamming_distance=0) for b in (-1, 0, 1, 2, 33, 34, 64, 100)]
    bad += [dict(num_blocks=b, hamming_distance=d) for b in (3, 6, 10) for d in (b, b + 1, 64)]
    bad += [dict(analyzer=a) for a in ('', 'Word', 'words', 'CHAR', 'ngram', None, 5)]
    for kw in bad:
        def f(kw=kw):
            try:
                S(**kw)
            except ValueError:
                cx.step()
                cx.state(sorted(kw.items(), key=str))
                return
            raise Violation('the options {} were accepted'.format(kw))
        cx.case('rejected %s' % sorted(kw.items(), key=str), f)


# ------------------------------------------------------------------ driver

def main():
    a = sys.argv[1:]
    prop, tier = a[0], a[1]

    def opt(n, k=1):
        return a[a.index(n) + 1:a.index(n) + 1 + k] if n in a else None
    pkg = opt('--pkg')[0]
    only = (opt('--only') or [None])[0]
    replays = (opt('--replays') or ['/verif/replays'])[0]
    sh = opt('--shard', 2)
    if sh or only:
        sys.path.insert(0, pkg)
        import gaoya
        import gaoya.minhash
        import gaoya.simhash
        signal.signal(signal.SIGALRM, on_alarm)
        cx = Cx(prop, tier, only, int(sh[0]) if sh else 0, int(sh[1]) if sh else 1)
        {'C19': c19, 'C20': c20}[prop](cx, gaoya)
        r = cx.result()
        json.dump(r, sys.stdout)
        if only and cx.viol:
            print('\n  ' + cx.viol[2], file=sys.stderr)
        sys.exit(1 if cx.viol else 0)
    n = min(8, os.cpu_count() or 4)
    t0 = time.time()
    env = dict(os.environ, RAYON_NUM_THREADS='3', PYTHONDONTWRITEBYTECODE='1', RUST_BACKTRACE='0', PYTHONHASHSEED='0')
    kids = [subprocess.Popen([sys.executable, os.path.abspath(__file__), prop, tier, '--pkg', pkg, '--shard', str(i), str(n)],
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env) for i in range(n)]
    import threading
    outs = [None] * n
    ts = [threading.Thread(target=lambda i=i: outs.__setitem__(i, kids[i].communicate())) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    m, code, seen = None, 0, set()
    for i, k in enumerate(kids):
        out, err = outs[i]
        if k.returncode < 0:
            sys.stderr.write(err.decode(errors='replace')[-2000:])
            os.kill(os.getpid(), -k.returncode)
        try:
            r = json.loads(out)
        except ValueError:
            sys.stderr.write(err.decode(errors='replace')[-3000:])
            sys.exit(3)
        code = max(code, k.returncode)
        seen.update(r.pop('states_set'))
        if m is None:
            m = r
            continue
        for f in ('cases', 'transitions', 'traces'):
            m[f] += r[f]
        m['violation'] = m['violation'] or r['violation']
        m['violations'] = max(m['violations'], r['violations'])
        m['exhaustive'] = m['exhaustive'] and r['exhaustive']
        m['notes'] += [x for x in r['notes'] if x not in m['notes']]
        for s, q in zip(m['sections'], r['sections']):
            s['cases'] += q['cases']
            s['steps'] += q['steps']
            s['wall_s'] = max(s['wall_s'], q['wall_s'])
        m['sections'] += r['sections'][len(m['sections']):]
    m['states'] = len(seen)
    m['wall_s'] = time.time() - t0
    m['replay'] = ''
    for s in m['sections']:
        print('  %s %s: %d cases, %d steps, %.2f s' % (prop, s['section'], s['cases'], s['steps'], s['wall_s']), file=sys.stderr)
    v = m.pop('violation')
    if v:
        os.makedirs(replays, exist_ok=True)
        m['replay'] = os.path.join(replays, prop + '.json')
        json.dump({'property': prop, 'tier': tier, 'section': v[0], 'case': v[1], 'only': v[0] + '|' + v[1], 'message': v[2],
                   'rerun': 'bin/check %s --replay %s' % (prop, m['replay'])}, open(m['replay'], 'w'), indent=1)
        print('violated: section %s case %s\n  %s' % tuple(v), file=sys.stderr)
        code = 1
    json.dump(m, sys.stdout)
    print()
    sys.exit(code)


main()
