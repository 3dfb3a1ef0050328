"""C07 and C21: FiniteTensorNetwork and the shipped templates, judged by Ftn/Templates."""
from net import *

FTN_LEGS = ['l', 'r', 'u', 'd', 'o', 'x']
FTN_NAMES = ['A', 'B', 'C', 'ul', 'w', 'D']


class NetWorld(World):
    def __init__(self):
        World.__init__(self)
        self.nets = {}
        self.ncnt = 0

    def freshnet(self):
        self.ncnt += 1
        return 'n%d' % self.ncnt

    def do(self, e, seconds=30):
        r = World.do(self, e, seconds)
        ev = self.events[-1]
        obs = []
        try:
            for i, n in self.nets.items():
                obs.append(dict(id=i, names=[str(x) for x in n.tensorNames], count=int(n.tensorCount), locked=bool(n.locked)))
        except Exception as x:
            ev['broken'] = 'network %s' % type(x).__name__
            self.dead = True
        ev['nets'] = obs
        return r

    def op_ftn_new(self, e):
        from CTL.tensornetwork.tensornetwork import FiniteTensorNetwork
        how = e.get('how')
        if how == 'default' and not e['names']:
            n = FiniteTensorNetwork()
        elif how == 'typical':
            n = FiniteTensorNetwork(list(e['names']), realCost=False)
        elif how == 'typical2':
            n = FiniteTensorNetwork(tensorNames=list(e['names']), realCost=False, typicalDim=2)
        else:
            n = FiniteTensorNetwork(tensorNames=list(e['names']))
        self.nets[e['n']] = n

    def op_ftn_template(self, e):
        self.nets[e['n']] = template(e['t'])

    def op_ftn_lock(self, e):
        self.nets[e['n']].lock()

    def op_ftn_unlock(self, e):
        self.nets[e['n']].unlock()

    def op_ftn_addtensor(self, e):
        self.nets[e['n']].addTensor(e['name'])

    def op_ftn_rmtensor(self, e):
        self.nets[e['n']].removeTensor(e['name'])

    def op_ftn_addlink(self, e):
        self.nets[e['n']].addLink(e['a'], e['la'], e['b'], e['lb'])

    def op_ftn_addpre(self, e):
        self.nets[e['n']].addPreNameChange(e['name'], e['leg'], e['to'])

    def op_ftn_addpost(self, e):
        self.nets[e['n']].addPostNameChange(e['name'], e['leg'], e['to'])

    def op_ftn_rmpre(self, e):
        self.nets[e['n']].removePreNameChange(e['name'], e['leg'], e['to'])

    def op_ftn_rmpost(self, e):
        self.nets[e['n']].removePostNameChange(e['name'], e['leg'], e['to'])

    def op_ftn_addout(self, e):
        ls = list(e['labels'])
        if e.get('astuple'):
            ls = [tuple(l.split('-', 1)) for l in ls]
        self.nets[e['n']].addPostOutProduct(ls, e['new'])
        # the list stays the caller's own
        ls.append('nosuch')

    def op_ftn_contract(self, e):
        from CTL.tensornetwork.tensordict import TensorDict
        d = {n: self.t[i] for n, i in e['map']}
        keep = dict(d)
        bytd = e.get('bytd') and not e.get('asdict')
        if e.get('asdict'):
            arg = d
        elif bytd:
            arg = TensorDict()
            for n, i in e['map']:
                arg.setTensor(n, self.t[i])
        else:
            arg = TensorDict(d)
        if e['removetag']:
            r = self.nets[e['n']].contract(arg)
        else:
            r = self.nets[e['n']].contract(arg, removeTensorTag=False)
        if bytd:
            now = {n: arg.getTensor(n) for n in keep if n in arg.tensors}
            if arg.tensorCount != len(keep):
                raise Unreadable('tensor dict with %d entries' % arg.tensorCount)
        else:
            now = d
        if set(now) != set(keep) or any(now[n] is not keep[n] for n in keep):
            raise Unreadable('input dict changed')
        self.t[e['r']] = r

    def op_tmpl_tritrace(self, e):
        from CTL.tensor.contract.contractExp import triangleTensorTrace
        self.t[e['r']] = triangleTensorTrace(self.t[e['a']], self.t[e['b']])

    def op_tmpl_selftrace(self, e):
        from CTL.tensor.contract.contractExp import selfTrace
        self.t[e['r']] = selfTrace(self.t[e['a']])

    def op_tmpl_squaretrace(self, e):
        from CTL.tensor.contract.contractExp import squareTrace
        re, im = reim(squareTrace(self.t[e['a']]))
        return [re[0], im[0] if im else 0]

    def op_tmpl_dict(self, e):
        from CTL.tensor.contract.contractExp import makeTriangleTensorDict, makeSquareTensorDict
        a, b = self.t[e['a']], self.t[e['b']]
        if e['t'] == 'triangle':
            d = makeTriangleTensorDict(a)
        elif e['a'] == e['b']:
            d = makeSquareTensorDict(a)
        else:
            d = makeSquareTensorDict(a, b)
        back = {id(t): i for i, t in self.t.items()}
        ts = d if isinstance(d, dict) else d.tensors
        return [[n, back.get(id(t), '?')] for n, t in sorted(ts.items())]


def template(t):
    import CTL.tensor.contract.contractExp as X
    if t.startswith('squareH-'):
        return X.squareHorizontalContractFTN(t[-1])
    if t.startswith('squareV-'):
        return X.squareVerticalContractFTN(t[-1])
    if t in ('qxA', 'c', 'cc', 'scEnvS'):
        import CTL.examples.TNR as N
        return dict(qxA=N.createQxAFTN, c=N.createCFTN, cc=N.createCCFTN, scEnvS=N.createSCEnvSFTN)[t]()
    return dict(triangle=X.triangleContractFTN, square=X.squareContractFTN, squareout=X.squareContractOutFTN,
                hotrgH=X.HOTRGHorizontalContractFTN, hotrgV=X.HOTRGVerticalContractFTN, hEdge=X.CTMRGHEdgeExtendFTN,
                vEdge=X.CTMRGVEdgeExtendFTN, corner=X.CTMRGCornerExtendFTN, hBuild=X.CTMRGHEdgeBuildFTN,
                vBuild=X.CTMRGVEdgeBuildFTN, evenZ=X.CTMRGEvenZFTN, oddZ=X.CTMRGOddFTN, qEnv=X.EvenblyTNRQEnvFTN)[t]()


class Net:
    """The generator's own record of a network, so that it knows what makes sense."""
    def __init__(self, names=()):
        self.names = list(names)
        self.legs = {}      # name -> {leg: dim class}
        self.pre, self.post, self.links, self.outs = [], [], [], []
        self.locked = False
        self.template = None


class NetGen(Gen):
    """Random histories of networks."""
    def __init__(self, rng, profile, maxlive=9):
        Gen.__init__(self, rng, profile, maxlive)
        self.w = NetWorld()
        self.m = {}

    # ------------------------------------------------------------ networks
    def gen_net(self):
        if len(self.m) >= 3:
            return None
        r = self.r
        k = r.choice([1, 2, 2, 3, 3, 4])
        names = r.sample(FTN_NAMES, k)
        n = Net(names)
        i = self.w.freshnet()
        for x in names:
            n.legs[x] = r.sample(FTN_LEGS, r.choice([0, 1, 2, 2, 3, 3]) if k < 4 else r.choice([1, 2, 2]))
        self.m[i] = n
        given = names if r.random() < 0.7 else []
        if not self.w.do(dict(op='ftn_new', n=i, names=list(given), how=r.choice(['', '', 'default', 'typical', 'typical2']))):
            return None
        for x in names:
            if x not in given:
                self.w.do(dict(op='ftn_addtensor', n=i, name=x))
        for _ in range(r.randint(0, 5)):
            self.w.do(self.rand_link(i, n) or self.rand_pre(i, n) or dict(op='ftn_unlock', n=i))
        return dict(op='ftn_unlock', n=i)

    def used(self, n):
        u = set()
        for a, la, b, lb in n.links:
            u.add((a, la))
            u.add((b, lb))
        return u

    def effective(self, n, x):
        """leg names of input x after the renamings before the contraction"""
        res = {}
        for l in n.legs[x]:
            m = l
            for t, f, to in n.pre:
                if t == x and f == m:
                    m = to
            res[l] = m
        return res

    def opennames(self, n):
        u = self.used(n)
        return [(x, m) for x in n.names for m in self.effective(n, x).values() if (x, m) not in u]

    def rand_link(self, i, n):
        op = self.opennames(n)
        pairs = [(p, q) for p in op for q in op if p[0] != q[0]]
        if not pairs:
            return None
        p, q = self.r.choice(pairs)
        # legs already fused or renamed after the contraction must stay open
        busy = {l for ls, _ in n.outs for l in ls} | {'%s-%s' % (t, f) for t, f, _ in n.post}
        if '%s-%s' % p in busy or '%s-%s' % q in busy:
            return None
        if not n.locked:
            n.links.append((p[0], p[1], q[0], q[1]))
        return dict(op='ftn_addlink', n=i, a=p[0], la=p[1], b=q[0], lb=q[1])

    def rand_pre(self, i, n):
        r = self.r
        if not n.names:
            return None
        x = r.choice(n.names)
        eff = self.effective(n, x)
        free = [m for m in eff.values() if (x, m) not in self.used(n)]
        busy = {l for ls, _ in n.outs for l in ls} | {'%s-%s' % (t, f) for t, f, _ in n.post}
        free = [m for m in free if '%s-%s' % (x, m) not in busy]
        if not free:
            return None
        f = r.choice(free)
        to = r.choice([l for l in ['p', 'q', 's', 't'] + FTN_LEGS if l not in eff.values() and l not in eff])
        if not n.locked:
            n.pre.append((x, f, to))
        return dict(op='ftn_addpre', n=i, name=x, leg=f, to=to)

    def result_labels(self, n):
        L = ['%s-%s' % p for p in self.opennames(n)]
        for ls, new in n.outs:
            L = [l for l in L if l not in ls] + ['res-' + new]
        for t, f, to in n.post:
            L = ['%s-%s' % (t, to) if l == '%s-%s' % (t, f) else l for l in L]
        return L

    def gen_edit(self):
        if not self.m:
            return None
        r = self.r
        i = r.choice(list(self.m))
        n = self.m[i]
        if n.locked and r.random() < 0.6:
            n.locked = False
            return dict(op='ftn_unlock', n=i)
        k = r.choice(['link', 'link', 'pre', 'post', 'post', 'out', 'rmpre', 'rmpost', 'addt', 'rmt', 'lock', 'bad', 'again', 'again'])
        if k == 'again':
            # the same renaming stated a second time, or one that finds nothing to rename
            which = r.choice(['pre', 'post'])
            lst = n.pre if which == 'pre' else n.post
            if not lst:
                return None
            t, f, to = r.choice(lst)
            if r.random() < 0.4:
                f = 'nosuch'
            lst.append((t, f, to))
            if n.locked or not self.coherent(n):
                lst.pop()
                if not n.locked:
                    return None
            if not n.locked and r.random() < 0.5:
                self.w.do(dict(op='ftn_add' + which, n=i, name=t, leg=f, to=to))
                lst.remove((t, f, to))
                return dict(op='ftn_rm' + which, n=i, name=t, leg=f, to=to)
            return dict(op='ftn_add' + which, n=i, name=t, leg=f, to=to)
        if k == 'link':
            return self.rand_link(i, n)
        if k == 'pre':
            return self.rand_pre(i, n)
        if k == 'post':
            L = [l for l in self.result_labels(n)]
            if not L:
                return None
            l = r.choice(L)
            t, f = l.split('-', 1)
            to = r.choice([x for x in ['p', 'q', 's', 't', 'v'] + FTN_LEGS if '%s-%s' % (t, x) not in L])
            if not n.locked:
                n.post.append((t, f, to))
            return dict(op='ftn_addpost', n=i, name=t, leg=f, to=to)
        if k == 'out':
            L = ['%s-%s' % p for p in self.opennames(n)]
            for ls, new in n.outs:
                L = [l for l in L if l not in ls]
            L = [l for l in L if l.split('-', 1)[0] != 'res' and l not in {'%s-%s' % (t, f) for t, f, _ in n.post}]
            if not L:
                return None
            ls = r.sample(L, r.randint(1, min(3, len(L))))
            new = r.choice([x for x in ['g', 'h', 'k', 'm'] if x not in [o[1] for o in n.outs]] or ['zz'])
            if new == 'zz':
                return None
            if not n.locked:
                n.outs.append((ls, new))
            return dict(op='ftn_addout', n=i, labels=ls, new=new, astuple=r.random() < 0.3)
        if k in ('rmpre', 'rmpost'):
            lst = n.pre if k == 'rmpre' else n.post
            if not lst:
                return None
            t = r.choice(lst)
            twice = [x for x in lst if lst.count(x) > 1 or sum((x[0], x[2]) == (y[0], y[2]) for y in lst) > 1]
            if twice and r.random() < 0.7:
                t = r.choice(twice)
            trial = list(lst)
            trial.remove(t)
            if not n.locked:
                if k == 'rmpre':
                    # links and renamings may rely on it: only remove what nothing relies on
                    if t[2] != self.effective(n, t[0]).get(t[1], t[2]):
                        pass
                    old = list(n.pre)
                    n.pre = trial
                    if not self.coherent(n):
                        n.pre = old
                        return None
                else:
                    old = list(n.post)
                    n.post = trial
                    if not self.coherent(n):
                        n.post = old
                        return None
            return dict(op='ftn_' + k, n=i, name=t[0], leg=t[1], to=t[2])
        if k == 'addt' and len(n.names) < 4:
            cand = [x for x in FTN_NAMES if x not in n.names]
            x = r.choice(cand)
            if not n.locked:
                n.names.append(x)
                n.legs[x] = r.sample(FTN_LEGS, r.choice([0, 1, 2, 2]))
            return dict(op='ftn_addtensor', n=i, name=x)
        if k == 'rmt' and len(n.names) > 1:
            cand = [x for x in n.names if all(x not in (a, b) for a, _, b, _ in n.links) and all(t != x for t, _, _ in n.pre + n.post)
                    and not any(l.startswith(x + '-') for ls, _ in n.outs for l in ls)]
            if not cand:
                return None
            x = r.choice(cand)
            if not n.locked:
                n.names.remove(x)
            return dict(op='ftn_rmtensor', n=i, name=x)
        if k == 'lock':
            n.locked = True
            return dict(op='ftn_lock', n=i)
        if k == 'bad':
            b = r.choice(['rmt', 'rmpre', 'rmpost'])
            if b == 'rmt':
                return dict(op='ftn_rmtensor', n=i, name='nosuch')
            return dict(op='ftn_' + b, n=i, name='A', leg='nosuch', to='z')
        return None

    def coherent(self, n):
        """Every reference still names something that is there, and final labels are distinct."""
        eff = {x: list(self.effective(n, x).values()) for x in n.names}
        if any(len(set(v)) != len(v) for v in eff.values()):
            return False
        for a, la, b, lb in n.links:
            if a not in eff or b not in eff or la not in eff[a] or lb not in eff[b]:
                return False
        L = ['%s-%s' % p for p in self.opennames(n)]
        for ls, new in n.outs:
            if any(l not in L for l in ls):
                return False
            L = [l for l in L if l not in ls] + ['res-' + new]
        for t, f, to in n.post:
            L = ['%s-%s' % (t, to) if l == '%s-%s' % (t, f) else l for l in L]
            if len(set(L)) != len(L):
                return False
        return len(set(L)) == len(L)

    def dims_for(self, n, dims):
        """A dimension for every (name, original leg), equal along links."""
        par = {}

        def find(x):
            while par[x] != x:
                x = par[x]
            return x
        orig = {}
        for x in n.names:
            for l, m in self.effective(n, x).items():
                par[(x, l)] = (x, l)
                orig[(x, m)] = (x, l)
        for a, la, b, lb in n.links:
            if (a, la) in orig and (b, lb) in orig:
                par[find(orig[(a, la)])] = find(orig[(b, lb)])
        val = {}
        for k in par:
            val.setdefault(find(k), self.r.choice(dims))
        return {k: val[find(k)] for k in par}

    def gen_contract_net(self):
        if not self.m:
            return None
        r = self.r
        i = r.choice(list(self.m))
        n = self.m[i]
        if not n.names or not self.coherent(n):
            return None
        L = self.result_labels(n)
        removetag = r.random() < 0.75
        if removetag:
            short = [l.split('-', 1)[1] for l in L]
            if len(set(short)) != len(short):
                removetag = False
        if len(L) > 7:
            return None
        like = r.random() < 0.05
        D = self.dims_for(n, r.choice([[1, 2], [2], [2, 2, 3], [1, 2, 3]]))
        size = 1
        u = self.used(n)
        for x in n.names:
            for l, m in self.effective(n, x).items():
                if (x, m) not in u:
                    size *= D[(x, l)]
        if size > 150:
            return None
        for x in list(self.w.t):
            if len(self.w.t) > 5:
                if all(p == FREE for p in self.S(x)['P']):
                    self.w.do(dict(op='drop', a=x))
                else:
                    break
        mp = []
        total = 1.0
        for x in n.names:
            legs = list(n.legs[x])
            r.shuffle(legs)
            want = [D[(x, l)] for l in legs]
            found = None
            if r.random() < 0.6:
                # the same tensor under several names, or a tensor used before
                for t in self.live():
                    s = self.S(t)
                    d = dict(zip(s['L'], s['D']))
                    if set(s['L']) == set(legs) and all(d[l] == D[(x, l)] for l in legs) and (s['k'] in ('like', 'dlike')) == like \
                            and not (n.outs and s['k'] in ('diag', 'dlike')):
                        found = t
            if not found:
                kind = 'dense'
                if legs and len(set(want)) == 1 and not n.outs and r.random() < 0.3:
                    kind = 'diag'
                if like:
                    kind = 'dlike' if kind == 'diag' else 'like'
                e = self.new(kind=kind, D=want, L=legs)
                if not self.w.do(e):
                    return None
                found = e['r']
            mp.append([x, found])
            total *= self.mag(self.S(found)) * 2 * max(1, self.size(self.S(found)))
        if total > 1e12:
            return None
        if len(n.names) > 1 and r.random() < 0.15:
            # bonds between inputs mean nothing to a network
            a, b = mp[0][1], mp[1][1]
            if a != b:
                for l, d in self.free(a):
                    for m, f in self.free(b):
                        if d == f:
                            self.w.do(dict(op='link', a=a, b=b, la=[l], lb=[m], asleg=False, bare=True))
                            break
                    else:
                        continue
                    break
        e = dict(op='ftn_contract', n=i, map=mp, removetag=removetag, r=self.w.fresh(), asdict=r.random() < 0.4, bytd=r.random() < 0.3)
        if r.random() < 0.12 and len(mp) > 0:
            # a request that must be refused
            k = r.choice(['missing', 'extra', 'dim'])
            if k == 'missing':
                e['map'] = mp[1:]
            elif k == 'extra':
                e['map'] = mp + [['zz', mp[0][1]]]
            else:
                bad = [(x, l) for (x, l) in D if any((a, la) == (x, self.effective(n, x)[l]) for a, la, _, _ in n.links)]
                if bad:
                    x, l = r.choice(bad)
                    legs = list(n.legs[x])
                    ev = self.new(kind='like' if like else 'dense', D=[D[(x, q)] + (1 if q == l else 0) for q in legs], L=legs)
                    self.w.do(ev)
                    e['map'] = [[y, ev['r'] if y == x else t] for y, t in mp]
        n.locked = True
        ok = self.w.do(e)
        if not ok and not self.w.dead:
            n.locked = bool(self.w.nets[i].locked)
        return None

    def gen_pokeinput2(self):
        return self.gen_poke()

    def history(self, steps):
        ops = dict(net=2, edit=6, contract_net=6, poke=1, drop=.5, rename=.2)
        names, ws = list(ops), list(ops.values())
        tries = 0
        while len(self.w.events) < steps and tries < steps * 6 and not self.w.dead:
            tries += 1
            if not self.m:
                e = self.gen_net()
            else:
                e = getattr(self, 'gen_' + self.r.choices(names, ws)[0])()
            if e:
                self.w.do(e)
        return self.w.events

    # ------------------------------------------------------------ templates
    def template_history(self, t, rounds, tmpl, small=False):
        r = self.r
        info = tmpl[t]
        k = r.choice([1, 1, 2])
        nets = []
        for _ in range(k):
            i = self.w.freshnet()
            n = Net(info['net']['names'])
            n.legs = {x: list(info['legs'][x]) for x in n.names}
            n.links = [tuple(l) for l in info['net']['links']]
            n.outs = [(o['labels'], o['new']) for o in info['net']['outs']]
            n.post = [tuple(p) for p in info['net']['post']]
            self.m[i] = n
            nets.append(i)
            if not self.w.do(dict(op='ftn_template', n=i, t=t)):
                return self.w.events
        for _ in range(rounds):
            if self.w.dead:
                break
            i = r.choice(nets)
            n = self.m[i]
            for x in list(self.w.t):
                self.w.do(dict(op='drop', a=x))
            big = len(n.names) > 4
            for _ in range(60):
                D = self.dims_for(n, r.choice([[2], [1, 2], [1, 2, 2], [2, 3]] if not big else [[1, 1, 2], [1, 2]]))
                u = self.used(n)
                size, inner = 1, 1
                for x in n.names:
                    for l, m in self.effective(n, x).items():
                        if (x, m) not in u:
                            size *= D[(x, l)]
                        else:
                            inner *= D[(x, l)]
                if size <= 150 and inner ** 0.5 * size < 3000:
                    break
            else:
                continue
            mp = []
            for x in n.names:
                legs = list(n.legs[x])
                r.shuffle(legs)
                found = None
                if r.random() < 0.4:
                    for y in self.live():
                        s = self.S(y)
                        d = dict(zip(s['L'], s['D']))
                        if set(s['L']) == set(legs) and all(d[l] == D[(x, l)] for l in legs):
                            found = y
                if not found:
                    e = self.new(kind='dense', D=[D[(x, l)] for l in legs], L=legs)
                    lim = 1 if len(n.names) > 5 else 2
                    e['re'] = [r.randint(-lim, lim) for _ in e['re']]
                    e['im'] = [r.randint(-lim, lim) for _ in e['im']] if len(n.names) < 6 else []
                    if not self.w.do(e):
                        return self.w.events
                    found = e['r']
                mp.append([x, found])
            self.w.do(dict(op='ftn_contract', n=i, map=mp, removetag=True, r=self.w.fresh(), asdict=r.random() < 0.5))
        return self.w.events

    def function_history(self):
        r = self.r
        w = self.w
        kind = r.choice(['tri', 'tri', 'self', 'square', 'dict'])
        if kind == 'tri':
            D = [r.choice([1, 2, 3]) for _ in range(3)]
            ids = []
            for k in range(2):
                L = ['1', '2', '3']
                DD = list(D)
                if r.random() < 0.5:
                    L.append('o%d' % k)
                    DD.append(2)
                p = r.sample(range(len(L)), len(L))
                e = self.new(kind='dense', L=[L[j] for j in p], D=[DD[j] for j in p])
                w.do(e)
                ids.append(e['r'])
            if r.random() < 0.4 and self.S(ids[0])['L'] == ['1', '2', '3']:
                ids[1] = ids[0]
            w.do(dict(op='tmpl_tritrace', a=ids[0], b=ids[1], r=w.fresh()))
            w.do(dict(op='tmpl_tritrace', a=ids[1], b=ids[0], r=w.fresh()))
        elif kind == 'self':
            e = self.new(kind=r.choice(['dense', 'dense', 'diag']))
            w.do(e)
            w.do(dict(op='tmpl_selftrace', a=e['r'], r=w.fresh()))
        elif kind == 'square':
            a, b = r.choice([1, 2, 3]), r.choice([1, 2, 3])
            L = ['u', 'd', 'l', 'r']
            D = dict(u=a, d=a, l=b, r=b)
            p = r.sample(L, 4)
            e = self.new(kind='dense', L=p, D=[D[x] for x in p])
            w.do(e)
            w.do(dict(op='tmpl_squaretrace', a=e['r']))
        else:
            e = self.new(kind='dense')
            f = self.new(kind='dense')
            w.do(e)
            w.do(f)
            w.do(dict(op='tmpl_dict', t='triangle', a=e['r'], b=e['r']))
            w.do(dict(op='tmpl_dict', t='square', a=e['r'], b=f['r']))
            w.do(dict(op='tmpl_dict', t='square', a=e['r'], b=e['r']))
        return w.events


PROF = dict(kinds=['dense'], dims=[1, 2, 2, 3], complex=0.3, ops={})


def count(run, traces):
    ev = run.extra.setdefault('events', {})
    for tr in traces:
        for e in tr:
            k = e['op'] + ('' if e['out'] == 'ok' else '!')
            ev[k] = ev.get(k, 0) + 1


def load_templates(run):
    from netchecks import behaviours
    return {b['t']: b for b in behaviours(run, 'MCTemplates', {})}


def c07(run):
    from netchecks import require_lib
    if not require_lib(run):
        return
    traces = []
    for i in range(run.n(700, 4000)):
        g = NetGen(random.Random('%s/%s/%d' % (run.prop, run.seed, i)), PROF)
        tr = g.history(30)
        if tr:
            traces.append(tr)
    count(run, traces)
    run.sample([{k: v for k, v in e.items() if k not in ('snap', 'nets')} for e in traces[0][:8]])
    for i in range(0, len(traces), 800):
        validate(run, 'TraceFtn', traces[i:i + 800])
    replay_ftn(run)
    run.assumptions.append('no link joins two legs of the same tensor; final leg names are distinct')


def replay_ftn(run):
    """Every behaviour of the closed model of one network, on the real class."""
    from netchecks import behaviours
    for s in run.n(['1'], ['1', '2', '3']):
        bs = behaviours(run, 'MCFtn', dict(DEPTH=run.n('2', '3'), SCENARIO=s))
        run.extra['model_behaviours'] = run.extra.get('model_behaviours', 0) + len(bs)
        r = random.Random(run.seed)
        cap = run.n(500, 2500)
        if len(bs) > cap:
            bs = r.sample(bs, cap)
        traces = []
        for b in bs:
            w = NetWorld()
            for e in b:
                w.do(dict(e))
                if w.dead:
                    break
            traces.append(w.events)
        for i in range(0, len(traces), 800):
            validate(run, 'TraceFtn', traces[i:i + 800], label='MCFtn behaviour')


def c21(run):
    from netchecks import require_lib
    if not require_lib(run):
        return
    tmpl = load_templates(run)
    traces = []
    for i in range(run.n(10, 120)):
        for t in sorted(tmpl):
            g = NetGen(random.Random('%s/%s/%s/%d' % (run.prop, run.seed, t, i)), PROF)
            traces.append(g.template_history(t, 3, tmpl))
    for i in range(run.n(100, 1000)):
        g = NetGen(random.Random('%s/%s/f/%d' % (run.prop, run.seed, i)), PROF)
        traces.append(g.function_history())
    traces = [t for t in traces if t]
    count(run, traces)
    run.extra['templates'] = len(tmpl)
    run.sample([{k: v for k, v in e.items() if k not in ('snap', 'nets')} for e in traces[0][:6]])
    for i in range(0, len(traces), 800):
        validate(run, 'TraceFtn', traces[i:i + 800])
