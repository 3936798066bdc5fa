"""Worker: reads {"family","idx"} lines on stdin, runs the case against the real code, answers with one
JSON line.  A worker that dies (abort, segfault) or hangs is seen by the parent, which knows the case."""
import json
import os
import sys
import traceback
import zlib
import resource
import numpy as np


def case_rng(seed, family, idx):
    return np.random.default_rng([int(seed) & 0xffffffff, zlib.crc32(family.encode()), int(idx)])


def out_of_range(e):
    """loops through aggregated or bloated sets can blow sets up beyond what floating point can solve"""
    tb = e.__traceback__
    while tb is not None:
        lp = tb.tb_frame.f_locals.get('self')
        if tb.tb_frame.f_code.co_name == 'minimize' and hasattr(lp, 'get_rhs'):
            vals = list(lp.get_rhs()) + list(lp.get_full_constraints().data)
            return any(abs(v) > 1e6 for v in vals)
        tb = tb.tb_next
    return False


CASE_WORK = 2000000  # LP rows over all LPs solved in one case: some 20 seconds


def run_case(mod, prop, family, idx, seed, tier, spec=None):
    from .ctx import Ctx, Skip
    from .ref import Ambiguous, TooBig
    from .lp import OracleTrouble
    from .hyl import work_limit
    ctx = Ctx(prop, family, idx, tier)
    fn = mod.FAMILIES[family][0]
    try:
        with work_limit(CASE_WORK) as left:
            fn(case_rng(seed, family, idx), ctx)
            if os.environ.get('VWORK'):
                open('/tmp/work.log', 'a').write('%s %s %d %d\n' % (prop, family, idx, CASE_WORK - left[0]))
    except (Skip, Ambiguous, TooBig, OracleTrouble) as e:
        ctx.skip(type(e).__name__ + (':' + str(e)[:40] if isinstance(e, Skip) else ''))
    except MemoryError:
        raise
    except Exception as e:  # noqa
        tb = traceback.extract_tb(sys.exc_info()[2])
        repo = os.environ.get('VERIF_REPO', '/repo')
        inrepo = [f for f in tb if f.filename.startswith(repo + os.sep)]
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if inrepo and out_of_range(e):
            ctx.skip('Skip:extent')
        elif inrepo:
            ctx.violation('unexpected exception on a valid input: %s: %s\n%s' % (type(e).__name__, e, text),
                          key='exception:%s:%s' % (type(e).__name__, inrepo[-1].name))
        else:
            ctx.skip('HARNESS %s %s' % (type(e).__name__, text[-600:]))
            ctx.event('harness_error')
    return ctx.report()


def main():
    prop, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    # results go to the real stdout; anything the code prints goes nowhere
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    from .registry import load
    mod = load(prop)
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        job = json.loads(line)
        try:
            r = run_case(mod, prop, job['family'], job['idx'], seed, tier)
        except MemoryError:
            r = {'events': {}, 'sigs': [], 'viol': [], 'sample': None, 'skipped': {'memory': 1}, 'spec': None}
        r['family'], r['idx'] = job['family'], job['idx']
        out.write(json.dumps(r, default=lambda o: o.tolist() if hasattr(o, 'tolist') else str(o)) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
