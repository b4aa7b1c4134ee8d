"""Runs the cases of one shard of a check; reports progress as JSON lines on the file given."""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import zlib

import numpy as np

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'checks'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):

    def __init__(self, sig, msg):
        super().__init__(f'{sig}: {msg}')
        self.sig = sig
        self.msg = msg


class Skip(Exception):
    """The case does not exercise the property (counted, never a verdict)."""


class Ctx:

    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed
        self.counts = {}
        self.dist = set()
        self.note = ''
        self.info = {}

    def obs(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def distinct(self, *parts):
        self.dist.add(hashlib.md5(repr(parts).encode()).hexdigest()[:12])

    def fail(self, sig, msg):
        raise Violation(sig, msg)

    def describe(self, text):
        self.note = text


def rng_for(seed, prop, i):
    return np.random.default_rng([int(seed), zlib.crc32(prop.encode()), int(i)])


def main():
    import ctypes
    ctypes.CDLL(None).prctl(1, 9)  # die with the parent process
    spec = json.loads(sys.argv[1])
    out = open(spec['out'], 'a', buffering=1)

    def emit(**kw):
        out.write(json.dumps(kw) + '\n')

    mod = importlib.import_module(spec['module'])
    tier, seed, prop = spec['tier'], spec['seed'], spec['prop']
    emit(t='up')
    for i in spec['cases']:
        ctx = Ctx(tier, seed)
        emit(t='s', i=i)
        t0 = time.time()
        rec = dict(t='r', i=i)
        try:
            if i < getattr(mod, 'PROBES', 0) and hasattr(mod, 'probe'):
                mod.probe(i, ctx)
            else:
                mod.run_case(i, rng_for(seed, prop, i), ctx)
            rec['v'] = 'ok'
        except Violation as e:
            rec.update(v='bad', sig=e.sig, msg=e.msg[:4000])
        except Skip as e:
            rec.update(v='skip', msg=str(e)[:200])
        except Exception as e:  # an exception of the code under test, or of the check
            tb = traceback.format_exc()
            rec.update(v='exc', sig='exception:' + type(e).__name__, msg=tb[-3000:])
        rec.update(n=ctx.counts, d=sorted(ctx.dist), note=ctx.note[:1500], s=round(time.time() - t0, 4))
        emit(**rec)
    emit(t='done')
    out.flush()
    os._exit(0) if spec.get('fast_exit', True) else sys.exit(0)


if __name__ == '__main__':
    main()
