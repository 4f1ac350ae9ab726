"""Runner: executes every sub-check of one property, writes evidence and replay files."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
from multiprocessing import connection
import os
import random
import signal
import sys
import time
import traceback

from harness.boot import boot, HERE, REPO, quiet

boot()

import numpy as np  # noqa: E402
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
from hypothesis.errors import HypothesisException  # noqa: E402
from hypothesis.internal.conjecture.engine import ConjectureRunner  # noqa: E402

from harness.api import Violation, Discard, Ctx  # noqa: E402


class CaseTimeout(BaseException):
    pass


def _on_timer(signum, frame):
    raise CaseTimeout()


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def case_seed(text):
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:4], 'big')


def in_repo(exc):
    """True when the exception was raised inside the code under test (or below it)."""
    root = os.path.realpath(REPO) + os.sep
    tb = exc.__traceback__
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            return True
        tb = tb.tb_next
    return False


def run_case(sub, case, ctx):
    """As run_here; in a process of its own when the sub-check depends on native code known to crash."""
    if sub.native is None:
        return run_here(sub, case, ctx)
    with quiet():
        sub.native()
    mine, theirs = mp.Pipe(duplex=False)
    pid = os.fork()
    if pid == 0:
        try:
            try:
                d = ctx.discarded
                out = (run_here(sub, case, ctx), ctx.is_nontrivial, ctx.case_labels, ctx.discarded - d, None)
            except BaseException as e:
                out = (None, False, [], 0, '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:]))
            theirs.send(out)
            dump()
        finally:
            os._exit(0)
    theirs.close()
    msg, error = None, None
    end = time.time() + sub.cpu_limit + 30
    try:
        if mine.poll(max(1, end - time.time())):
            msg, ctx.is_nontrivial, ctx.case_labels, d, error = mine.recv()
            ctx.discarded += d
        else:
            os.kill(pid, signal.SIGKILL)
            msg = 'no answer within %ds (typical case: milliseconds)' % (sub.cpu_limit + 30)
    except (EOFError, OSError):
        ctx.crashed += 1
        ctx.discarded += 1
    mine.close()
    os.waitpid(pid, 0)
    if error:
        raise RuntimeError('in the process of a case: ' + error)
    return msg


def run_here(sub, case, ctx):
    """Returns None (held) or a message (violated). Raises on a harness error."""
    text = canon(case)
    s = case_seed(text)
    random.seed(s)
    np.random.seed(s & 0x7fffffff)
    case = json.loads(text)  # every case is plain data: what is replayed is what was run
    limit = sub.cpu_limit
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        with quiet():
            sub.check(case, ctx)
        return None
    except Discard:
        ctx.discarded += 1
        return None
    except Violation as e:
        return str(e) or 'violated'
    except CaseTimeout:
        return 'no termination within %ds of CPU time (typical case: milliseconds)' % limit
    except (HypothesisException, KeyboardInterrupt, MemoryError):
        raise
    except RecursionError as e:
        return 'RecursionError in the code under test: %s' % e
    except AssertionError as e:
        if in_repo(e):
            return 'unexpected AssertionError in the code under test: ' + brief(e)
        raise
    except Exception as e:
        if in_repo(e):
            return 'unexpected %s in the code under test: %s' % (type(e).__name__, brief(e))
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def brief(e):
    tb = traceback.extract_tb(e.__traceback__)
    return '%s [%s]' % (e, ' <- '.join('%s:%d:%s' % (os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO)
                                                      else os.path.basename(f.filename), f.lineno, f.name)
                                       for f in reversed(tb[-4:])))


COVERED = set()


def watch():
    """Records the lines of the code under test that are reached (VERIF_COVER names a directory; used by tools/mutate.py)."""
    mon, root = sys.monitoring, os.path.realpath(REPO) + os.sep
    mon.use_tool_id(mon.COVERAGE_ID, 'verif')

    def line(code, n):
        if code.co_filename.startswith(root):
            COVERED.add('%s:%d' % (code.co_filename[len(root):], n))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def dump():
    if os.environ.get('VERIF_COVER'):
        with open(os.path.join(os.environ['VERIF_COVER'], '%d.txt' % os.getpid()), 'w') as f:
            f.write('\n'.join(sorted(COVERED)))


def run_sub(args):
    """Worker: one sub-check, one shard. Returns a plain dict."""
    modname, idx, tier, seed, shard, budget, n = args
    t0 = time.time()
    null = os.open(os.devnull, os.O_WRONLY)  # solvers written in C print on the descriptor
    os.dup2(null, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(null, 2)
    os.close(null)
    mod = importlib.import_module('checks.' + modname)
    sub = mod.SUBCHECKS[idx]
    if os.environ.get('VERIF_COVER'):
        watch()
    ctx = Ctx()
    res = dict(sub=sub.name, shard=shard, evaluations=0, nontrivial=[], samples=[], failure=None, error=None,
               labels={}, skipped=0, discarded=0, wall=0.0)
    seen_nt = set()
    fail = {'case': None, 'msg': None, 'stop': False, 'shrink_until': None}
    if shard % 2 == 0:  # every other shard draws each case afresh, the others also repeat parts of earlier ones
        ConjectureRunner.generate_mutations_from = lambda self, data: None

    def body(case):
        if fail['stop'] or time.time() - t0 > budget or \
                (fail['shrink_until'] is not None and time.time() > fail['shrink_until']):
            res['skipped'] += 1
            return
        ctx.begin()
        msg = run_case(sub, case, ctx)
        res['evaluations'] += 1
        text = canon(case)
        if ctx.is_nontrivial:
            h = hashlib.sha256(text.encode()).hexdigest()[:16]
            if h not in seen_nt:
                seen_nt.add(h)
                if len(res['samples']) < 3 and (len(text) < 1500 or len(seen_nt) > 50):
                    res['samples'].append({'subcheck': sub.name, 'case': text[:1500], 'labels': list(ctx.case_labels)})
        for lb in ctx.case_labels:
            res['labels'][lb] = res['labels'].get(lb, 0) + 1
        if msg is not None:
            if fail['case'] is None:
                fail['shrink_until'] = time.time() + 60
            if fail['case'] is None or len(text) <= len(canon(fail['case'])):
                fail['case'], fail['msg'] = case, msg
            if 'no termination' in msg or os.environ.get('VERIF_FAST'):  # no shrinking
                fail['stop'] = True
            raise Violation(msg)

    try:
        # regression corpus: explicit cases first
        for case in sub.examples if shard == 0 else ():
            ctx.begin()
            try:
                body(case)
            except Violation:
                break
        if fail['case'] is None and n > 0:
            full = '%s/%s/%d/%d' % (modname, sub.name, seed, shard)
            hseed = int.from_bytes(hashlib.sha256(full.encode()).digest()[:7], 'big')
            test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                            report_multiple_bugs=False, print_blob=False,
                            phases=[Phase.generate, Phase.shrink],
                            suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                                   HealthCheck.large_base_example])(
                given(sub.strategy())(body))
            hypothesis.seed(hseed)(test)
            try:
                with quiet():
                    test()
            except Violation:
                pass
            except HypothesisException as e:
                if fail['case'] is None:
                    raise
            except BaseException as e:
                if fail['case'] is None:
                    raise
        if fail['case'] is not None:
            res['failure'] = {'case': fail['case'], 'msg': fail['msg']}
    except BaseException as e:
        res['error'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:])
    res['nontrivial'] = sorted(seen_nt)
    res['discarded'] = ctx.discarded
    if ctx.crashed:
        res['labels']['native solver crashed'] = ctx.crashed
        if ctx.crashed > max(5, res['evaluations'] // 2) and res['error'] is None:
            res['error'] = 'the native solver crashed in %d of %d cases' % (ctx.crashed, res['evaluations'])
    res['wall'] = time.time() - t0
    return res


def load_known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    data = json.load(open(p))
    return [f for f in data.get('findings', []) if f.get('property') == prop and f.get('status') == 'open']


def work(job, conn):
    conn.send(run_sub(job))
    conn.close()
    dump()
    os._exit(0)


def run_jobs(jobs, width, left):
    """One process per job, forked from this single-threaded one; yields (job, result or reason why there is none)."""
    ctxm = mp.get_context('fork')
    todo, live = list(jobs), {}
    while todo or live:
        while todo and len(live) < width:
            job = todo.pop(0)
            mine, theirs = ctxm.Pipe(duplex=False)
            proc = ctxm.Process(target=work, args=(job, theirs), daemon=False)
            proc.start()
            theirs.close()
            live[mine] = (job, proc)
        for conn in connection.wait(list(live), timeout=max(0.0, left())):
            job, proc = live.pop(conn)
            try:
                yield job, conn.recv()
            except (EOFError, OSError):
                proc.join(10)
                yield job, 'worker ended without an answer (exit code %s)' % proc.exitcode
            conn.close()
            proc.join(10)
        if left() <= 0:
            for job, proc in live.values():
                proc.kill()
                yield job, 'worker gave no answer (budget exceeded)'
            for job in todo:
                yield job, 'not started (budget exceeded)'
            return


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    with quiet():
        mod = importlib.import_module('checks.' + a.prop.lower())
    subs = mod.SUBCHECKS
    names = [s.name for s in subs]
    assert len(set(names)) == len(names), 'duplicate sub-check names'
    if a.replay:
        rep = json.load(open(a.replay))
        sub = [s for s in subs if s.name == rep['subcheck']][0]
        ctx = Ctx()
        ctx.begin()
        msg = run_case(sub, rep['case'], ctx)
        if msg is None:
            print('replay: the property held')
            return 0
        print('replay: ' + msg)
        print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
        return 1
    # known findings: print the ones that still reproduce (never suppress anything else)
    for f in load_known(a.prop):
        sub = [s for s in subs if s.name == f['subcheck']][0]
        ctx = Ctx(known_mode=True)
        ctx.begin()
        msg = run_case(sub, f['case'], ctx)
        if msg is not None:
            print('KNOWN-FINDING: property=%s %s' % (a.prop, f['what']))
    total = 700 if a.tier == 'quick' else 3000
    budget = float(os.environ.get('VERIF_BUDGET', total))
    if a.scale != 1.0:
        for s in subs:
            s.quick = max(1, int(s.quick * a.scale)) if s.quick else 0
            s.thorough = max(1, int(s.thorough * a.scale)) if s.thorough else 0
    jobs = []
    for i, s in enumerate(subs):
        if not a.only or a.only in s.name:
            k = max(1, min(8, round(24 / len(subs)), s.quick // 10)) if a.tier == 'quick' else 8
            jobs += [(i, sh, -(-s.quick // k) if a.tier == 'quick' else s.thorough) for sh in range(k)]
    share = budget if len(jobs) <= 8 else max(30.0, budget * 8 / len(jobs))
    jobs = [(a.prop.lower(), i, a.tier, seed, sh, share, n) for i, sh, n in jobs]
    jobs.sort(key=lambda j: -subs[j[1]].weight)
    results = []
    for j, r in run_jobs(jobs, min(8, len(jobs)), lambda: budget + 120 - (time.time() - t0)):
        if isinstance(r, str):
            r = dict(sub=subs[j[1]].name, shard=j[4], evaluations=0, nontrivial=[], samples=[], failure=None, error=r,
                     labels={}, skipped=0, discarded=0, wall=0)
        results.append(r)
        if os.environ.get('VERIF_FAST') and (r['failure'] or r['error']):
            print('FAST %s: %s' % (r['sub'], (r['failure'] or {}).get('msg') or r['error']))
            return 1 if r['failure'] else 2
    fails = [r for r in results if r['failure']]
    errors = [r for r in results if r['error']]
    replay = None
    if fails:
        r = min(fails, key=lambda r: (len(canon(r['failure']['case'])), r['sub']))
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, '%s_%s.json' % (a.prop, r['sub']))
        json.dump({'property': a.prop, 'subcheck': r['sub'], 'message': r['failure']['msg'],
                   'case': r['failure']['case'], 'seed': seed}, open(replay, 'w'), indent=1, sort_keys=True)
    nt = set()
    labels, per = {}, {}
    for r in results:
        for h in r['nontrivial']:
            nt.add((r['sub'], h))
        p = per.setdefault(r['sub'], {'evaluations': 0, 'distinct_nontrivial': set(), 'labels': {}, 'wall_s': 0.0,
                                      'discarded': 0, 'skipped_on_budget': 0})
        p['evaluations'] += r['evaluations']
        p['distinct_nontrivial'].update(r['nontrivial'])
        p['wall_s'] = round(p['wall_s'] + r['wall'], 2)
        p['discarded'] += r['discarded']
        p['skipped_on_budget'] += r['skipped']
        for k, v in r['labels'].items():
            p['labels'][k] = p['labels'].get(k, 0) + v
    for p in per.values():
        p['distinct_nontrivial'] = len(p['distinct_nontrivial'])
    samples = []
    for r in results:
        samples += r['samples'][:2]
    rule = getattr(mod, 'RULE', '') + ' Sub-checks: ' + '; '.join('%s: %s' % (s.name, s.rule) for s in subs)
    ev = {'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': sum(r['evaluations'] for r in results), 'distinct_nontrivial': len(nt),
                       'rule': rule, 'samples': samples[:24] or ['none'], 'per_subcheck': per,
                       'failures': [{'subcheck': r['sub'], 'message': r['failure']['msg']} for r in fails]},
          'wall_s': round(time.time() - t0, 2),
          'violations': len(fails),
          'assumptions': getattr(mod, 'ASSUMPTIONS', [])}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for s, p in sorted(per.items()):
        print('%-34s eval=%-6d nontrivial=%-6d wall=%.1fs disc=%d %s' % (
            s, p['evaluations'], p['distinct_nontrivial'], p['wall_s'], p['discarded'],
            ('SKIPPED=%d ' % p['skipped_on_budget'] if p['skipped_on_budget'] else '') +
            ' '.join('%s=%d' % kv for kv in sorted(p['labels'].items()))[:300]))
    for r in errors:
        print('ERROR in sub-check %s: %s' % (r['sub'], r['error']))
    for r in fails:
        print('%s: %s' % (r['sub'], r['failure']['msg'][:600]))
    if fails:
        print('VIOLATION property=%s replay=%s' % (a.prop, replay))
        return 1
    if errors:
        return 2
    print('OK property=%s' % a.prop)
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
