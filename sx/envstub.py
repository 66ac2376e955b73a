"""The environment of the code under test. Installed in the symbolic process and in the replay process alike."""
import os

ASSUMPTIONS = [
    'CPython 3.12 and the standard library behave as modelled (str, dict, set, re, csv models are compared with CPython by '
    'sx.selftest and, for every explored path, by replaying the path\'s witness on the unmodified code)',
    'the metatab logger, print() and the rowgenerators cache directory do not influence results',
    'uuid4() returns an arbitrary fresh identifier, represented by one fixed value',
]


def install_common():
    os.environ.setdefault('METAPACK_CACHE', '/tmp/metatab-verif-cache')
    os.environ.setdefault('METATAB_CACHE', '/tmp/metatab-verif-cache')
    os.makedirs('/tmp/metatab-verif-cache', exist_ok=True)  # the code makes it in a way that is not safe for 8 processes
    import logging
    logging.disable(logging.CRITICAL)
    import uuid
    uuid.uuid4 = lambda: uuid.UUID('9fc11204-b291-4e0e-a841-5372090adec0')


def install_symbolic():
    install_common()
    import rowgenerators
    import rowgenerators.util
