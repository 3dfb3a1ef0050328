"""C23: everything is computed with the array library in use; the specifications of the other checks hold under any."""
import net
from net import *
from netchecks import LIB, require_lib, random_programs, replay_model, behaviours
from seqchecks import guarded, validate_records
import ftnchecks, splitchecks, isingchecks, latticechecks, mpschecks, helperchecks


def switching(g, steps):
    """A program that changes the array library on its way."""
    at = [0] + sorted(g.r.sample(range(4, steps), g.r.choice([0, 0, 1, 2])))
    try:
        for i, a in enumerate(at):
            if g.w.dead:
                break
            g.w.do(dict(op='setxp', to='other' if i % 2 == 0 else 'numpy'))
            g.program(at[i + 1] if i + 1 < len(at) else steps)
    finally:
        import CTL
        CTL.setXP(np)
    return g.w.events


def perform(g, history):
    """A history of the closed model, on tensors of the generator's choice."""
    try:
        for s in history:
            if g.w.dead:
                break
            if s in LIBRARIES:
                e = dict(op='setxp', to=s)
            elif s in ('dense', 'diag'):
                e = g.gen_newnet() if s == 'dense' and g.w.t else g.new(kind=s)
            else:
                f = getattr(g, 'gen_' + s)
                if s == 'contract':
                    e = g.gen_link()
                    if e:
                        g.w.do(e)
                e = next((q for q in (f() for _ in range(6) if not g.w.dead) if q), None)
            if e and not g.w.dead:
                g.w.do(e)
    finally:
        import CTL
        CTL.setXP(np)
    return g.w.events


def histories(run):
    hs = behaviours(run, 'MCBackend', dict(DEPTH=run.n('5', '6')))
    hs = sorted({tuple(h) for h in hs if any(x in LIBRARIES for x in h[:-1])})
    run.extra['model_behaviours'] = run.extra.get('model_behaviours', 0) + len(hs)
    cap = run.n(600, 8000)
    if len(hs) > cap:
        hs = rng(run, 'histories').sample(hs, cap)
    traces = [perform(Gen(rng(run, 'h', i), LIB, 4), h) for i, h in enumerate(hs)]
    traces = [t for t in traces if t]
    for i in range(0, len(traces), 2000):
        validate(run, 'TraceNet', traces[i:i + 2000], label='MCBackend history')


def networks(run):
    tmpl = ftnchecks.load_templates(run)
    traces = []
    for i in range(run.n(150, 1500)):
        traces.append(ftnchecks.NetGen(random.Random('%s/%s/n/%d' % (run.prop, run.seed, i)), ftnchecks.PROF).history(20))
    for i in range(run.n(2, 20)):
        for t in sorted(tmpl):
            traces.append(ftnchecks.NetGen(random.Random('%s/%s/%s/%d' % (run.prop, run.seed, t, i)), ftnchecks.PROF).template_history(t, 2, tmpl))
    for i in range(run.n(40, 400)):
        traces.append(ftnchecks.NetGen(random.Random('%s/%s/f/%d' % (run.prop, run.seed, i)), ftnchecks.PROF).function_history())
    traces = [t for t in traces if t]
    ftnchecks.count(run, traces)
    for i in range(0, len(traces), 800):
        validate(run, 'TraceFtn', traces[i:i + 800])


AGAIN = ('svd', 'env', 'iso', 'g', 'l', 't', 'arrays', 'made', 'trg')


def rng(run, *what):
    return random.Random('/'.join(str(x) for x in (run.prop, run.seed) + what))


def records(run, module, parts, batch=1500):
    recs = []
    for name, f, n in parts:
        for i in range(n):
            # the same calls under numpy first: nothing of that may come back
            for use in ['numpy', 'other'] if name in AGAIN else ['other']:
                with using(use):
                    q = f(rng(run, name, i))
                recs += q if isinstance(q, list) else [q]
    ev = run.extra.setdefault('events', {})
    for e in recs:
        e.setdefault('op', e.get('f', ''))
        ev[e['op']] = ev.get(e['op'], 0) + 1
    for i in range(0, len(recs), batch):
        validate_records(run, module, recs[i:i + batch])


def made(r):
    """Arrays the library makes itself."""
    from CTL.funcs import funcs as F
    from CTL.models import Ising as I
    X = lib()
    D = [r.choice([1, 2, 3])] * r.randint(1, 3)
    L = r.sample('abcdef', len(D))
    what = r.choice(['tensor', 'tensor', 'legs', 'diag', 'diag', 'diaglegs', 'zeros', 'random', 'eye', 'ising', 'edge'])
    rec = helperchecks.rec('library', a=[net.LIBRARY])

    def f(rec):
        legs = [X.Leg(None, d, x) for d, x in zip(D, L)]
        q = (X.Tensor(shape=tuple(D), labels=L).a if what == 'tensor' else X.Tensor(legs=legs).a if what == 'legs' else
             X.DiagonalTensor(shape=tuple(D), labels=L).a if what == 'diag' else X.DiagonalTensor(legs=legs).a if what == 'diaglegs' else
             X.DiagonalTensor(shape=tuple(D), labels=L).toTensor() if what == 'zeros' else F.randomArray(tuple(D)) if what == 'random' else
             F.ndEye(len(D), D[0]) if what == 'eye' else I.squareIsingTensor(.5).a if what == 'ising' else I.IsingEdgeMatrix(.5))
        rec['out'] = [library_of(q)]
    return guarded(f, rec)


def c23(run):
    if not require_lib(run):
        return
    random_programs(run, LIB, run.n(350, 5000), 24, generate=switching)
    histories(run)
    with using('other'):
        replay_model(run, run.n([1], [1, 2, 3]), 2, cap=run.n(200, 2000))
        networks(run)
    S, I, L, M = splitchecks, isingchecks, latticechecks, mpschecks
    k = run.n(1, 9)
    pair = lambda op: lambda r: S.run_pair(r, *S.pair(r, op, r.random() < .05))
    records(run, 'TraceSplit', [('svd', S.do_svd, 60 * k), ('tsvd', S.do_tsvd, 60 * k), ('env', S.do_env, 50 * k), ('mschmidt', S.do_mschmidt, 40 * k),
                                ('iso', S.do_iso, 60 * k), ('merge', pair('merge'), 120 * k), ('schmidt', pair('schmidt'), 80 * k)])
    records(run, 'TraceIsing', [('g', I.random_graph, 60 * k), ('l', I.lattice_record, 40 * k), ('t', I.local_record, 120 * k)])
    records(run, 'TraceHelpers', [('arrays', lambda r: list(helperchecks.arraycalls(r)), 40 * k), ('made', made, 150 * k)], 20000)
    records(run, 'TraceMps', [('history', lambda r: M.history(r, merge=False), 25 * k), ('creation', M.creation, 25 * k), ('two', M.contract2, 25 * k), ('merge2', M.merge2, 25 * k)])
    records(run, 'TraceLattice', [('ctm', L.ctm, 15 * k), ('trg', L.trg, 15 * k), ('hotrg', L.hotrg, 15 * k)], 400)
    run.assumptions.append('the other library is a stand-in: numpy underneath, with arrays that refuse to be mixed with numpy arrays; no GPU is present')
