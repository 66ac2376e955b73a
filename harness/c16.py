"""C16: slugs"""
import unicodedata
from metatab.util import slugify
from .names import *

ALLOWED = 'abcdefghijklmnopqrstuvwxyz0123456789_.-'


def ascii_of(s):
    out = ''
    for ch in unicodedata.normalize('NFKD', s):
        if ch.isascii():
            out = out + ch
    return out


def slugs(h, n, alphabet, pre='', post=''):
    s = pre + h.str('s', n, alphabet) + post
    got = slugify(s)
    h.observe(got)
    h.prove(h.same(got, slug_plain(ascii_of(s))), 'a slug is the ASCII form in lower case, without other characters, gaps as one dash',
            lambda: [s, got])
    h.prove(h.all([h.any([c == a for a in ALLOWED]) for c in got]), 'only letters, digits, dashes, dots and underscores')
    h.prove(h.neg('--' in got), 'no two dashes in a row')
    h.prove(h.same(slugify(got), got), 'the slug of a slug is the slug')


def types(h):
    k = h.pick('k', [5, 1.5, None, True, ['a', 'B'], -3])
    got = slugify(k)
    h.observe(got)
    h.prove(got == slug_plain(str(k)), 'other types by their text', lambda: got)


def long(h, n):
    a = h.str('a', 1, BIG)
    b = h.str('b', 1, BIG)
    s = 'Word' * n + a + ' ' * n + b + '-' * n + 'Éa' * n + a
    got = slugify(s)
    h.observe(got)
    h.prove(h.same(got, slug_plain(ascii_of(s))), 'a slug is the ASCII form in lower case, without other characters, gaps as one dash')


JOBS = [
    dict(name='slugs', fn=slugs, kw=dict(n=(0, 3), alphabet=BIG), bounds='texts of up to 3 of %d characters' % len(BIG)),
    dict(name='inner', fn=slugs, kw=dict(n=3, alphabet=BIG, pre='Ab', post='c'), bounds='3 arbitrary characters inside a text'),
    dict(name='gaps', fn=slugs, kw=dict(n=6, alphabet=tuple(' -a_.!'), pre='x'), bounds='6 out of 6 characters'),
    dict(name='types', fn=types, bounds='6 values of other types'),
    dict(name='long', fn=long, kw=dict(n=100), bounds='texts of some 800 characters'),
    dict(name='slugs-4', fn=slugs, kw=dict(n=4, alphabet=BIG), tiers=('thorough',), bounds='texts of 4 characters'),
    dict(name='gaps-deep', fn=slugs, kw=dict(n=8, alphabet=tuple(' -a.!')), tiers=('thorough',), bounds='8 characters'),
]
