"""C20: name sets."""
import random, string
from common import *


class Names:
    """Runs events on the real name sets and records what they answer."""
    MODULES = ('MLStringSet', 'TensorStringSet', 'BondStringSet')

    def __init__(self, universe, reseed=None):
        self.sets = {}
        self.events = []
        self.univ = list(universe)
        self.reseed = reseed          # the library's own draws repeat: collisions at any length
        self.dead = False

    def do(self, e):
        import CTL.funcs.stringSet as S
        import CTL.funcs.funcs as F
        e = dict(dict(id='', arg='', n=0, known=[], res='', yes=False, out='ok'), **e)
        if self.reseed is not None:
            random.seed(self.reseed)
        try:
            with limit(20), quiet():
                op, i = e['op'], e['id']
                if op == 'make':
                    self.sets[i] = S.StringSet() if e.pop('default', False) else S.StringSet(e['n'])
                elif op == 'fresh':
                    e['res'] = self.sets[i].newString()
                elif op == 'given':
                    e['res'] = self.sets[i].newString(e['arg'])
                elif op == 'add':
                    self.sets[i].add(e['arg'])
                elif op == 'remove':
                    self.sets[i].remove(e['arg'])
                elif op == 'fill':
                    for x in e['known']:
                        self.sets[i].add(x)
                elif op == 'contains':
                    e['yes'] = self.sets[i].contains(e['arg'])
                elif op == 'avoid':
                    k = e.pop('kind', 'set')
                    known = {'set': set, 'list': list, 'dict': lambda x: {y: 1 for y in x}}[k](e['known'])
                    had = list(known)
                    e['res'] = F.getNewString(known) if e['n'] == 10 else F.getNewString(known, e['n'])
                    if list(known) != had:
                        e['out'] = 'rejected'
                elif op == 'random':
                    e['res'] = F.randomString(e['n'])
        except OpTimeout:
            e['out'] = 'hung'
            self.dead = True
        except Exception:
            e['out'] = 'rejected'
        for k in ('default', 'kind'):
            e.pop(k, None)
        if not isinstance(e['res'], str):
            e['res'] = '?not a string?'
        if type(e['yes']) is not bool:
            e['yes'] = bool(e['yes'])
        if e['res'] and e['res'] not in self.univ:
            self.univ.append(e['res'])
        for s in e['known'] if e['op'] == 'fill' else []:
            if s not in self.univ:
                self.univ.append(s)
        e['has'] = [dict(id=i, names=[s for s in self.univ if t.contains(s)]) for i, t in self.sets.items()]
        self.events.append(e)
        return e


def history(r, steps):
    """A random history over a few sets, own and module-wide ones."""
    pool = []
    for _ in range(r.randrange(3, 7)):
        s = ''.join(r.choice(string.ascii_letters + ' _-0') for _ in range(r.choice([0, 1, 2, 5, 10])))
        pool += [s, r.choice([s.upper(), s.lower(), s + 'x', s[:-1], s[::-1], s + ' ', ' ' + s, s.strip()])]
    pool = list(dict.fromkeys(pool))
    w = Names(pool, reseed=r.randrange(100) if r.random() < .4 else None)
    ids = []
    ones = set()
    for i in range(r.randrange(1, 4)):
        e = dict(op='make', id='s%d' % i, n=r.choice([1, 1, 2, 3, 10]))
        if e['n'] == 10 and r.random() < .5:
            e['default'] = True
        w.do(e)
        ids.append('s%d' % i)
        if e['n'] == 1:
            ones.add('s%d' % i)
        if e['n'] == 1 and r.random() < .7:
            ls = list(string.ascii_letters)
            r.shuffle(ls)
            w.do(dict(op='fill', id='s%d' % i, known=[x for x in ls[r.randrange(1, 5):] if not w.sets['s%d' % i].contains(x)]))
    for _ in range(steps):
        i = r.choice(ids)
        used = [s for s in w.univ if w.sets[i].contains(s)]
        op = r.choice(['fresh', 'fresh', 'fresh', 'given', 'add', 'remove', 'remove', 'contains', 'contains', 'avoid', 'random'])
        if op == 'fresh':
            if i in ones and all(w.sets[i].contains(x) for x in string.ascii_letters):
                continue
            w.do(dict(op=op, id=i))
        elif op in ('given', 'add', 'remove', 'contains'):
            src = used if used and r.random() < (.8 if op == 'remove' else .35) else w.univ
            w.do(dict(op=op, id=i, arg=r.choice(src)))
        elif op == 'avoid':
            n = r.choice([1, 2, 10])
            known = list(string.ascii_letters) if n == 1 else r.sample(w.univ, r.randrange(len(w.univ) + 1))
            if n == 1:
                r.shuffle(known)
                known = known[r.randrange(1, 4):]
            w.do(dict(op=op, n=n, known=known, kind=r.choice(['set', 'set', 'list', 'dict'])))
        else:
            w.do(dict(op=op, n=r.choice([0, 1, 4, 10])))
        if w.dead:
            break
    return w.events


def module_history(r, steps):
    """The sets behind bond and tensor names, which live as long as the process."""
    import CTL.funcs.stringSet as S
    random.seed(r.randrange(10 ** 12))
    w = Names([], reseed=r.randrange(10 ** 9) if r.random() < .6 else None)
    gets = dict(MLStringSet=S.getMLBondName, TensorStringSet=S.getTensorName, BondStringSet=S.getBondName)
    for i in gets:
        w.do(dict(op='make', id=i, n=10, default=True))
        w.sets[i] = getattr(S, i)
    # names are unique to this history, so nothing of it is in use yet
    tag = '%d.' % r.randrange(10 ** 9)
    w.univ = [tag + x for x in ('a', 'b', 'A')]

    class View:
        """The module's set, addressed by its getter."""
        def __init__(self, i):
            self.i = i

        def newString(self, *a):
            return gets[self.i](*a)

        def __getattr__(self, k):
            return getattr(getattr(S, self.i), k)
    for i in gets:
        w.sets[i] = View(i)
    for _ in range(steps):
        i = r.choice(list(gets))
        op = r.choice(['fresh', 'fresh', 'given', 'add', 'remove', 'contains'])
        w.do(dict(op=op, id=i) if op == 'fresh' else dict(op=op, id=i, arg=r.choice(w.univ)))
        if w.dead:
            break
    return w.events


def c20(run):
    from netchecks import require_lib, behaviours
    if not require_lib(run):
        return
    random.seed(run.seed)
    bs = behaviours(run, 'MCNames', dict(DEPTH=run.n('3', '4')))
    seen = {json.dumps(b): b for b in bs}
    bs = [seen[k] for k in sorted(seen)]
    run.extra['model_behaviours'] = len(bs)
    r0 = random.Random(run.seed)
    if len(bs) > run.n(700, 8000):
        bs = r0.sample(bs, run.n(700, 8000))
    traces = []
    for k, b in enumerate(bs):
        r = random.Random('%s/b/%d' % (run.seed, k))
        letters = list(string.ascii_letters)
        r.shuffle(letters)
        name = dict(zip('abc', letters[:3]))
        w = Names(letters, reseed=None if r.random() < .5 else r.randrange(1000))
        for i in ('1', '2'):
            w.do(dict(op='make', id=i, n=1))
            if i == '1' or r.random() < .3:
                w.do(dict(op='fill', id=i, known=letters[3:]))
        for e in b:
            if e['op'] == 'fresh' and all(w.sets[e['id']].contains(x) for x in letters):
                continue
            w.do(dict(op=e['op'], id=e['id'], arg=name.get(e['arg'], '')))
            if w.dead:
                break
        traces.append(w.events)
    for k in range(run.n(900, 12000)):
        traces.append(history(random.Random('%s/h/%d' % (run.seed, k)), 25))
    for k in range(run.n(150, 1500)):
        traces.append(module_history(random.Random('%s/m/%d' % (run.seed, k)), 15))
    ev = run.extra.setdefault('events', {})
    for t in traces:
        for e in t:
            c = e['op'] + ('' if e['out'] == 'ok' else '!')
            ev[c] = ev.get(c, 0) + 1
    run.sample([{k: v for k, v in e.items() if k != 'has'} for e in traces[-1][:6]])
    random.Random(run.seed).shuffle(traces)
    for i in range(0, len(traces), 1500):
        validate(run, 'TraceNames', traces[i:i + 1500])
    run.assumptions.append('which unused name is handed out is left open; a set with no name left is not asked for one')
