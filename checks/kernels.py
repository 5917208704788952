"""C01 C02 C03 C04 C08: abstract interpretation of the automata update kernels."""
import json, os
import vt


def configs(tier, bit):
    """(entry, par, case, q, weighted, err)"""
    widths = ['i8', 'i16', 'i32']
    out = []
    for w in widths:
        for par in (0, 1):
            for wt in ((1, 0) if (w == 'i8' or tier == 'thorough') else (1,)):
                out.append(('vt_clf_cls_' + w, par, 0, 0, wt, 0))
                for err in (-1, 0, 1):
                    out.append(('vt_reg_cls_' + w, par, 0, 0, wt, err))
    return out


def shards(cfg):
    return 8 if ('_clf_' in cfg[0] or cfg[5] < 0) else 2


def run(prop, tier):
    vt.build_tools(['vttrain'])
    ll = vt.emit_ir(os.path.join(vt.VERIF, 'wrap', 'kernels.cpp'), 'kernels')
    prep = os.path.join(vt.scratch(), 'kernels.p.ll')
    vt.must([vt.tool('vttrain'), 'prep', ll, prep], 'preparing kernels')
    cfgs = configs(tier, False)
    jobs = [(c, i, shards(c)) for c in cfgs for i in range(shards(c))]

    def one(j):
        c, i, n = j
        out = vt.must([vt.tool('vttrain'), 'run', prep] + [str(x) for x in c] + [str(i), str(n)], 'analysis of ' + c[0])
        return c, json.loads(out.strip().splitlines()[-1])
    res = vt.pool(jobs, one)
    merged = {}
    for c, r in res:
        m = merged.setdefault(c, {'steps': 0, 'states': 0, 'joins': 0, 'props': {}, 'runs': 0})
        for k in ('steps', 'states', 'joins'):
            m[k] += r[k]
        m['runs'] += int(r['run'].split('runs=')[1].split()[0])
        for p, t in r['props'].items():
            a = m['props'].setdefault(p, {'decided': 0, 'violations': set(), 'undecided': set()})
            a['decided'] += t['decided']
            a['violations'] |= {tuple(x) for x in t['violations']}
            a['undecided'] |= {tuple(x) for x in t['undecided']}
    # which of the two toss vectors each polarity listens to: one choice per kernel, different for the two polarities
    for c, m in merged.items():
        if c[1] != 0:
            continue
        o = merged.get((c[0], 1) + c[2:])
        if o is None:
            continue
        z = {'decided': 0, 'violations': set(), 'undecided': set()}
        h = [(m['props'].get('H1', z), o['props'].get('H2', z)), (m['props'].get('H2', z), o['props'].get('H1', z))]
        best = min(h, key=lambda ab: (sum(len(t['violations']) for t in ab), sum(len(t['undecided']) for t in ab)))
        for mm, t in zip((m, o), best):
            a = mm['props'].setdefault('C02', {'decided': 0, 'violations': set(), 'undecided': set()})
            a['decided'] += t['decided']
            a['violations'] |= t['violations']
            a['undecided'] |= t['undecided']
    viol, und, ob, det = [], [], 0, []
    for c, m in sorted(merged.items()):
        t = m['props'].get(prop)
        if t is None:
            continue
        ob += t['decided'] + len(t['undecided']) + len(t['violations'])
        name = '%s literal=%s%s weighted=%d' % (c[0][3:], 'neg' if c[1] else 'pos', (' error=%+d' % c[5]) if '_reg_' in c[0] else '', c[4])
        det.append({'kernel': name, 'decided': t['decided'], 'states': m['states'], 'inputs_partitions': m['runs']})
        for w, msg in sorted(t['violations']):
            viol.append({'where': w or c[0], 'rule': 'update-table', 'msg': '%s (%s)' % (msg, name)})
        for w, msg in sorted(t['undecided']):
            und.append('%s %s (%s)' % (w, msg, name))
    cov = {'obligations': ob, 'discharged': ob - len(und) - len(viol), 'checker_cmd': 'checks/run.py %s %s' % (prop, tier),
           'trusted_base': ['clang 18 front end', 'src/engine.cpp transfer functions', 'models of vector/PRNG/coin tosser in src/train.cpp'],
           'kernels': det, 'abstract_states': sum(m['states'] for m in merged.values()), 'transfer_steps': sum(m['steps'] for m in merged.values())}
    return dict(coverage=cov, violations=dedup(viol), undecided=und, instances=ob, floor=20,
                assumptions=['counters, clause ranges and matrix sizes below 2^28', 'matrix invariants of C23 (row stride >= columns)', 'coin tosses in {0,1}'])


def dedup(v):
    seen, out = set(), []
    for x in v:
        k = (x['where'], x['msg'])
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out
