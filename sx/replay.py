"""Run a harness on the unmodified code of /repo with concrete inputs"""
import importlib
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def setup():
    import warnings
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.append(VERIF)
    from . import envstub
    envstub.install_common()


def run_one(mod, jobname, inputs):
    from .api import ConcH
    job = next(j for j in mod.JOBS if j['name'] == jobname)
    h = ConcH(inputs)
    res = _run(job, h)
    if h.completed:
        res['inputs'] = h.inputs
    return res


def _run(job, h):
    from .api import Skip, Failed
    try:
        job['fn'](h, **job.get('kw', {}))
        return {'outcome': 'ok', 'obs': json.loads(json.dumps(h.observations))}
    except Skip:
        return {'outcome': 'skip'}
    except Failed as f:
        return {'outcome': 'violated', 'label': f.label, 'detail': f.detail}
    except Exception as e:
        tb = traceback.format_exc()
        return {'outcome': 'error', 'exc': type(e).__name__, 'detail': tb[-1200:]}


def main():
    setup()
    if sys.argv[1] == '--serve':
        prop = sys.argv[2]
        mod = importlib.import_module('harness.' + prop.lower())
        out = os.fdopen(os.dup(1), 'w')
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        import gc
        for line in sys.stdin:
            r = json.loads(line)
            saved = snapshot()
            res = run_one(mod, r['job'], r['inputs'])
            restore(saved)
            out.write(json.dumps(res) + '\n')
            out.flush()
        return
    with open(sys.argv[1]) as f:
        body = json.load(f)
    mod = importlib.import_module('harness.' + body['property'].lower())
    res = run_one(mod, body['job'], body['inputs'])
    print(json.dumps(res, indent=1))
    if res['outcome'] in ('violated', 'error'):
        print('VIOLATION property={} replay={}'.format(body['property'], sys.argv[1]))
        sys.exit(1)


def snapshot():
    import metatab.parser as p
    return dict(p.TermParser.term_classes)


def restore(saved):
    import metatab.parser as p
    p.TermParser.term_classes.clear()
    p.TermParser.term_classes.update(saved)


if __name__ == '__main__':
    main()
