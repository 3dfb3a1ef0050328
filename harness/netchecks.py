"""Checks decided by the tensor-heap specification (CtlNet): C01-C05, C16-C18."""
import re
from net import *

BASE = dict(
    kinds=['dense', 'dense', 'dense', 'diag', 'diag', 'like', 'dlike'],
    ops=dict(new=2, newnet=3, link=6, copy=1, tolike=1, copylist=1, rename=1, tag=.5, untag=.5, front=1, rearrange=1,
             totensor=1, tovector=.5, tomatrix=1, trace=1, norm=1, single=1, labels=1, fuse=1, sumout=1, contract=4,
             contractlist=2, merge=1, ends=.7, poke=1, pokeinput=.5, drop=1, bad=1.5))


def profile(**kw):
    p = dict(BASE)
    p.update(kw)
    return p


CONCRETE = ['dense', 'dense', 'diag', 'diag']
PROFILES = {
    'C01': profile(kinds=CONCRETE, explicit=0.4, complex=0.45, maxrank=4,
                   ops=dict(new=2, newnet=5, link=8, contract=9, front=1, rearrange=1, rename=.7, drop=1, sumout=.4, single=.3)),
    'C02': profile(),
    'C03': profile(kinds=['dense', 'dense', 'dense', 'diag', 'diag'], ranks=[0, 1, 2, 3, 3, 4],
                   ops=dict(new=3, newnet=1, link=2, contract=1, front=4, rearrange=4, rename=3, tag=2, untag=2, totensor=4,
                            tovector=2, tomatrix=5, trace=4, norm=2, single=1, labels=3, fuse=4, sumout=4, copy=.5, drop=2, poke=.5)),
    'C04': profile(kinds=CONCRETE + ['dense'],
                   ops=dict(new=2, newnet=3, link=5, copy=4, copylist=5, ends=.5, tolike=.5, contractlist=3, contract=1.5, poke=6, pokeinput=4,
                            rename=2, front=1, rearrange=1.5, fuse=1, sumout=1, drop=3, totensor=.5, tovector=1, tomatrix=1.5, trace=.3, tag=.5, untag=.5)),
    'C05': profile(kinds=['dense', 'dense', 'dense', 'diag', 'like'], maxlist=5, ranks=[0, 1, 2, 2, 3],
                   ops=dict(new=2, newnet=6, link=9, contractlist=7, copylist=.5, front=.5, rearrange=.5, drop=.5)),
    'C16': profile(kinds=['like', 'like', 'dlike', 'dlike', 'dense', 'diag'], maxsize=400,
                   ops=dict(new=2, newnet=4, link=6, copy=1, tolike=3, copylist=1.5, rename=1, tag=.5, untag=.5, front=1.5, rearrange=1.5,
                            labels=2, fuse=3, sumout=2, contract=5, contractlist=3, merge=2, ends=.3, drop=2, bad=2)),
    'C17': profile(kinds=['diag', 'diag', 'diag', 'dense'], complex=0.5, ranks=[0, 1, 2, 2, 3, 4],
                   ops=dict(new=3, newnet=4, link=5, copy=1, rename=1, front=1.5, rearrange=2, totensor=3, tovector=.5, tomatrix=3,
                            trace=4, norm=3, single=1, labels=1, fuse=.3, sumout=5, contract=7, contractlist=1.5, poke=1, drop=2,
                            tag=.5, untag=.5, merge=.5, copylist=.5)),
    'C18': profile(kinds=['dense', 'dense', 'diag', 'diag', 'like', 'dlike'], ranks=[1, 2, 2, 3, 3],
                   ops=dict(new=2, newnet=4, link=5, copy=.5, tolike=1, bad=16, ends=2, contract=1, contractlist=.5, merge=.5, rename=.5,
                            front=.5, rearrange=.5, fuse=.5, sumout=.5, totensor=.3, tomatrix=.3, drop=1, tag=1, untag=.3)),
}


LIB = profile(ops=dict(BASE['ops'], tolike=.3, bad=.3, contract=6, link=7, sumout=2, totensor=2, tomatrix=2),
              kinds=['dense', 'dense', 'dense', 'diag', 'diag', 'diag', 'like'], ranks=[0, 1, 2, 2, 3, 4])


def require_lib(run):
    try:
        lib()
        return True
    except BaseException as x:
        run.violate('the library cannot be imported: %s: %s' % (type(x).__name__, x), dict(op='import'))
        return False


def random_programs(run, prof, count, steps, maxlive=5, tag='', generate=None):
    """Random programs on the real library, judged by TraceNet."""
    traces = []
    kinds = {}
    for i in range(count):
        g = Gen(random.Random('%s/%s/%s/%d' % (run.prop, run.seed, tag, i)), prof, maxlive)
        tr = g.program(steps) if generate is None else generate(g, steps)
        if not tr:
            continue
        traces.append(tr)
        for e in tr:
            k = e['op'] + ('' if e['out'] == 'ok' else '!')
            kinds[k] = kinds.get(k, 0) + 1
    run.extra.setdefault('events', {})
    for k, v in kinds.items():
        run.extra['events'][k] = run.extra['events'].get(k, 0) + v
    if traces:
        run.sample([{k: v for k, v in e.items() if k != 'snap'} for e in traces[0][:6]])
    for i in range(0, len(traces), 2000):
        validate(run, 'TraceNet', traces[i:i + 2000])


def behaviours(run, module, env, timeout=800):
    out, gen, dist, rc = tlc(module, env=env, timeout=timeout)
    if rc != 0:
        raise TlcError('%s %s: rc %d\n%s' % (module, env, rc, tlc_tail(out, 40)))
    run.states += dist
    run.transitions += max(gen - 1, 0)
    res = []
    for line in out.splitlines():
        if line.startswith('"BEHAVIOUR '):
            res.append(json.loads(json.loads(line)[len('BEHAVIOUR '):]))
    return res


def replay_model(run, scenarios, depth, cap=None):
    """Every behaviour of MCNet to the given depth, executed on the real library, judged by TraceNet."""
    for s in scenarios:
        bs = behaviours(run, 'MCNet', dict(DEPTH=str(depth), SCENARIO=str(s), EXPORT='1'))
        run.extra['model_behaviours'] = run.extra.get('model_behaviours', 0) + len(bs)
        if cap and len(bs) > cap:
            bs = random.Random('%s/%d' % (run.seed, s)).sample(bs, cap)
        traces = []
        for b in bs:
            w = World()
            for e in b:
                w.do(dict(e))
                if w.dead:
                    break
            traces.append(w.events)
        for i in range(0, len(traces), 2000):
            validate(run, 'TraceNet', traces[i:i + 2000], label='MCNet behaviour')


def model_laws(run, scenarios, depth):
    """The laws of the model itself: consistency and conservation."""
    for s in scenarios:
        out, gen, dist, rc = tlc('MCNet', env=dict(DEPTH=str(depth), SCENARIO=str(s), EXPORT='0'))
        if rc != 0:
            raise TlcError('MCNet %s: rc %d\n%s' % (s, rc, tlc_tail(out, 40)))
        run.states += dist
        run.transitions += max(gen - 1, 0)


SCEN = {'C01': ([1, 2], [1, 2, 3, 4, 6]), 'C02': ([1, 2, 3], [1, 2, 3, 4, 5, 6]), 'C03': ([3], [1, 3, 6]), 'C04': ([4], [1, 2, 4]),
        'C05': ([4], [2, 3, 4]), 'C16': ([5], [5]), 'C17': ([2, 6], [2, 6]), 'C18': ([1, 6], [1, 2, 3, 4, 5, 6])}


def net_check(run, n_quick=900, n_thorough=12000):
    if not require_lib(run):
        return
    quick, full = SCEN[run.prop]
    if run.quick:
        model_laws(run, quick[:1], 1)
        replay_model(run, quick, 2, cap=400)
        random_programs(run, PROFILES[run.prop], n_quick, 20)
    else:
        model_laws(run, full, 2)
        replay_model(run, full, 2)
        random_programs(run, PROFILES[run.prop], n_thorough, 30, maxlive=6)
    import legchecks
    legchecks.legs_check(run)
    run.assumptions.append('entries are Gaussian integers, so floating-point results are exact')
