"""Names of documents, by the rules"""
from .util import *

PARTS = ('origin', 'dataset', 'time', 'space', 'grain', 'variant')


GAP = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f-'
WORD = 'abcdefghijklmnopqrstuvwxyz0123456789_.'


def slug_plain(s):
    """slugify() of ASCII text, by the rules: lower case, only word characters, dots and dashes; runs of white space and dashes are one dash"""
    s = s.strip().lower()
    out = ''
    gap = False
    for ch in s:
        if ch in GAP:
            if not gap:
                out = out + '-'
            gap = True
        elif ch in WORD:
            out = out + ch
            gap = False
    return out


def name_of(vals, version):
    """The name of a document with these values"""
    parts = []
    for v in vals + [version]:
        if v is None or v.strip() == '':
            continue
        parts.append(slug_plain(v.replace('-', '_')))
    return '-'.join(parts)
