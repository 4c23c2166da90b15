"""Command line driver: runs the obligations and rules of one property and writes its evidence file."""
import argparse
import importlib.util
import json
import multiprocessing
import os
import sys
import threading
import time
import traceback

from . import checker
from .frontend import AnalysisError
from .checker import HERE, Finding, Timeout

PROJECT = None
OBLS = None
BASE = None
RULES = {}


def load_rules():
    d = os.path.join(HERE, 'rules')
    out = {}
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else ():
        if f.endswith('.py') and not f.startswith('_'):
            sp = importlib.util.spec_from_file_location('rules_' + f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(m)
            for pid, fs in getattr(m, 'RULES', {}).items():
                out.setdefault(pid, []).extend(fs)
    return out


def known_findings():
    """{(property, key): text} from known_findings.txt"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip('\n')
            if line.startswith('known: '):
                head, _, text = line[len('known: '):].partition(' :: ')
                prop, _, key = head.partition(' ')
                out[(prop.split('=', 1)[1], key.strip())] = text
    return out


def run_task(task):
    kind, idx = task
    sys.setrecursionlimit(60000)
    t = time.time()
    try:
        if kind == 'obl':
            o = OBLS[idx]
            f, info = checker.check_obligation(PROJECT, o, BASE)
            return (o.target, [vars(x) for x in f], info, None, time.time() - t)
        rule = idx
        name, fun = RULE_LIST[rule]
        with checker._alarm(checker.LIMIT):
            f, info = fun(PROJECT)
        return (name, [vars(x) for x in f], info, None, time.time() - t)
    except AnalysisError as e:
        return (label(task), [], {}, 'cannot analyse: %s' % e, time.time() - t)
    except Timeout:
        return (label(task), [], {}, 'analysis did not finish within %d s' % checker.LIMIT, time.time() - t)
    except Exception as e:
        return (label(task), [], {}, 'internal error: %r %s' % (e, ' | '.join(
            traceback.format_exc().strip().splitlines()[-6:])), time.time() - t)


def label(task):
    return OBLS[task[1]].target if task[0] == 'obl' else RULE_LIST[task[1]][0]


RULE_LIST = []


def _worker(tasks, q):
    threading.stack_size(512 * 1024 * 1024)
    for t in tasks:
        q.put(run_task(t))


def run(props, jobs=4, verbose=False):
    """run all obligations and rules of the given properties"""
    global PROJECT, OBLS, BASE, RULE_LIST
    PROJECT = checker.load_project()
    allo = checker.obligations(PROJECT)
    OBLS = [o for o in allo if set(o.props) & set(props)]
    BASE = checker.baseline_attrs()
    rules = load_rules()
    RULE_LIST = [(getattr(f, 'rule', f.__name__), f) for p in props for f in rules.get(p, [])]
    tasks = [('obl', i) for i in range(len(OBLS))] + [('rule', i) for i in range(len(RULE_LIST))]
    if not tasks:
        raise AnalysisError('no obligations for %s' % props)
    if jobs > 1 and len(tasks) > 1:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(jobs, len(tasks)), maxtasksperchild=8) as pool:
            res = pool.map(run_task, tasks, chunksize=1)
    else:
        res = [run_task(t) for t in tasks]
    return res


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--jobs', type=int, default=4)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    sys.setrecursionlimit(60000)
    t0 = time.time()
    pid = a.property
    with open(os.path.join(HERE, 'properties.jsonl')) as fh:
        props = {json.loads(l)['id']: json.loads(l) for l in fh if l.strip()}
    if pid not in props:
        print('ERROR: unknown property', pid)
        return 3
    try:
        res = run([pid], a.jobs)
    except AnalysisError as e:
        print('ERROR property=%s %s' % (pid, e))
        return 2
    known = known_findings()
    viol, kn, errs = [], [], []
    functions, compared = set(), 0
    samples = []
    seen = set()
    for name, fs, info, err, dt in res:
        if a.v:
            print('  %-70s %5.1fs %s findings=%d %s' % (name, dt, 'ERR' if err else 'ok', len(fs),
                                                        info.get('unknown') or ''))
        if err:
            errs.append('%s: %s' % (name, err))
        functions.update(info.get('functions', ()))
        compared += info.get('compared', 0)
        if info:
            samples.append({'obligation': name, 'compared': info.get('compared', 0), 'note': str(info.get('note', ''))[:200]})
        for f in fs:
            x = Finding(f['rule'], f['construct'], f['where'], f['text'])
            if (x.key) in seen:
                continue
            seen.add(x.key)
            if (pid, x.key) in known:
                kn.append(x)
            else:
                viol.append(x)
    minimum = props[pid].get('x_min_compared', 1)
    if not errs and compared < minimum:
        errs.append('only %d comparisons made, at least %d expected' % (compared, minimum))
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    ev = {
        'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other',
        'coverage': {
            'explanation': 'Static value-flow analysis of the sources under /repo: every listed obligation compares the '
                           'symbolic final state (return value, attributes, call histories, error conditions) of a '
                           'repository function, for all inputs and all paths, with the value the property prescribes; '
                           'rules additionally inspect the syntax tree and call graph.',
            'obligations': len(res), 'undecided': len(errs), 'undecided_reasons': [str(e)[:300] for e in errs],
            'observables_compared': compared,
            'functions_analysed': len(functions), 'functions': sorted(functions),
            'samples': samples[:60],
        },
        'assumptions': ['Python/numpy semantics as modelled in sa/npmodel.py', 'exact real arithmetic'],
        'violations': [str(x) for x in viol], 'wall_s': round(time.time() - t0, 2),
    }
    with open(os.path.join(HERE, 'evidence', '%s.json' % pid), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for x in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[(pid, x.key)] or x))
    if viol:
        rp = os.path.join(HERE, 'evidence', 'replay', '%s.txt' % pid)
        with open(rp, 'w') as fh:
            for x in viol:
                fh.write(str(x) + '\n  key: %s\n' % x.key)
        for x in viol[:40]:
            print(x)
            if a.v:
                print('    key:', x.key)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    for e in errs:
        print('UNDECIDED property=%s %s' % (pid, e))
    if errs and len(errs) >= len(res):
        return 2
    print('OK property=%s obligations=%d observables=%d functions=%d %.1fs' % (pid, len(res), compared, len(functions),
                                                                              time.time() - t0))
    return 0
