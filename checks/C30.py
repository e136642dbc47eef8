"""A simulation evolves exactly the systems and protocols that were added to it and not removed."""
from symx.harness import harness

ASSUMPTIONS = ['frequencies, step sizes and initial states are free; the systems are qubits precessing freely, so that the '
               'expected states are known in closed form']


class World:
    """the real objects and what the simulation should hold"""

    def __init__(self, cx, sim=None):
        qg = cx.qg
        self.cx, self.dt = cx, cx.real('dt', positive=True)
        self.freq, self.psi, self.sys = {}, {}, {}
        for name in 'ab':
            self.freq[name], self.psi[name] = cx.real('f' + name, nonzero=True), cx.ket('psi' + name, 2)
            self.sys[name] = self.qubit(name)
        self.pro, self.ratio, self.of = {}, dict(p=3, q=2, r=3), dict(p='a', q='a', r='b', freea='a', freeb='b')
        a, b = self.sys['a'], self.sys['b']
        self.pro['p'] = qg.qProtocol(system=a, steps=[qg.freeEvolution(system=a), qg.freeEvolution(system=a, ratio=2)])
        self.pro['q'] = qg.freeEvolution(system=a, ratio=2)
        self.pro['r'] = qg.qProtocol(system=b, steps=[qg.freeEvolution(system=b, ratio=3)])
        self.sim = qg.Simulation() if sim is None else self.sys[sim].simulation
        self.held = [] if sim is None else ['free' + sim]
        self.times()

    def qubit(self, name):
        sys = self.cx.qg.Qubit(frequency=self.freq[name])
        sys.initialState = self.psi[name]
        return sys

    def times(self):
        self.sim.stepSize = self.dt
        self.sim.stepCount = 2

    def key(self, entry):
        """the object of an entry"""
        return self.sys[self.of[entry]]._freeEvol if entry.startswith('free') else self.pro[entry]

    def add(self, name):
        if not any(self.of[e] == name for e in self.held):
            self.held.append('free' + name)

    def addProtocol(self, entry, instead=None):
        if entry not in self.held:
            self.held.append(entry)
        if instead in self.held:
            self.held.remove(instead)

    def remove(self, name):
        self.held = [e for e in self.held if self.of[e] != name]

    def check(self, label, states=True):
        cx, sim = self.cx, self.sim
        cx.check([s is self.sys[self.of[e]] for s, e in zip(sim.qSystems, self.held)] == [True]*len(sim.qSystems)
                 and len(sim.qSystems) == len(self.held), label + ': systems')
        if not states or not self.held:
            return
        sim.run()
        cx.check([p is self.key(e) for p, e in zip(sim.protocols, self.held)] == [True]*len(sim.protocols), label + ': protocols')
        now = sim.qEvolutions if len(self.held) > 1 else [sim.qEvolutions]
        cx.check(len(now) == len(self.held), label + ': evolutions')
        names = {}
        for e in self.held:
            names[(self.sys[self.of[e]] if e.startswith('free') else self.pro[e]).name + 'Results'] = e
        got = {str(k): v for k, v in sim.states.items() if len(v)}
        cx.check(set(got) == {str(n) for n in names}, label + ': states of exactly these')
        for name, e in names.items():
            num = self.of[e]
            turn = -1j*self.dt*self.freq[num]*self.ratio.get(e, 1)*cx.ops.Jz(2, isDim=True)
            prop, want = cx.expm(turn), cx.dense(self.psi[num])
            cx.equal(len(got[str(name)]), 3, label + ': number of states')
            for state in got[str(name)]:
                cx.equal(state, want, label + ': each evolves by its own propagator')
                want = cx.dense(prop) @ want


def form(cx, name, obj, forms=('object', 'name', 'list', 'alias')):
    """how the user refers to an object"""
    how = cx.choice(name, list(forms))
    if how == 'name':
        return str(obj.name)
    if how == 'alias':
        obj.alias = name
        return name
    return [obj] if how == 'list' else obj


OPS = ['add', 'addProtocol', 'replace', 'removeSubSys', 'removeProtocol', 'create']


def operate(w, what, step, few):
    cx, sim = w.cx, w.sim
    forms = ('object', 'name') if few else ('object', 'name', 'list', 'alias')
    if what == 'add':
        one = cx.choice(f'who{step}', ['a', 'b', 'ab'])
        if one == 'ab':
            sim.addSubSys([w.sys['a'], w.sys['b']])
        else:
            obj = w.sys[one]
            how = cx.choice(f'add{step}', ['add', 'name'] if few else ['add', 'name', 'systems', 'set'])
            if how == 'set' and w.held:
                return False
            if how == 'systems':
                sim.addQSystems(obj)
            elif how == 'set':
                sim.subSys = obj
            else:
                sim.addSubSys(obj if how == 'add' else str(obj.name))
        for name in one:
            w.add(name)
    elif what == 'addProtocol':
        how = cx.choice(f'how{step}', ['alone', 'list', 'subSys'] if few else ['alone', 'system', 'list', 'subSys', 'systems'])
        new = cx.choice(f'new{step}', ['p', 'q', 'r'][:1 if how == 'list' else 3])
        if how == 'alone':
            sim.addProtocol(w.pro[new])
        elif how == 'system':
            sim.addProtocol(w.pro[new], w.sys[w.of[new]])
        elif how == 'list':
            sim.addProtocol([w.pro['p'], w.pro['r']])
            w.addProtocol('p')
            new = 'r'
        elif how == 'subSys':
            sim.addSubSys(w.sys[w.of[new]], w.pro[new])
        else:
            sim.addQSystems(w.sys[w.of[new]], Protocol=w.pro[new])
        w.addProtocol(new)
    elif what == 'replace':
        new = cx.choice(f'new{step}', ['p', 'q', 'r'])
        old = [e for e in w.held if w.of[e] == w.of[new] and e != new]
        if not old:
            return False
        old = cx.choice(f'old{step}', old)
        ref = w.sys[w.of[old]] if old.startswith('free') and cx.bool(f'system{step}') else w.key(old)
        sim.addProtocol(w.pro[new], protocolRemove=form(cx, f'ref{step}', ref, forms))
        w.addProtocol(new, old)
    elif what == 'removeSubSys':
        gone = cx.choice(f'gone{step}', ['a', 'b'])
        if not any(w.of[e] == gone for e in w.held):
            cx.raises(KeyError, lambda: sim.removeSubSys(w.sys[gone]), 'a system that is not there cannot be removed')
            return True
        ref = form(cx, f'ref{step}', w.sys[gone], forms)
        (sim.removeSubSys if not few and cx.bool(f'sub{step}') else sim.removeQSystems)(ref)
        w.remove(gone)
    elif what == 'removeProtocol':
        gone = cx.choice(f'gone{step}', ['p', 'r', 'freea'])
        ref = w.sys[w.of[gone]] if gone.startswith('free') and cx.bool(f'system{step}') else w.key(gone)
        sim.removeProtocol(form(cx, f'ref{step}', ref, forms))     # nothing happens if it is not there
        w.held = [e for e in w.held if e != gone]
    else:
        name = f'c{step}'
        w.freq[name], w.psi[name] = cx.real(f'f{name}', nonzero=True), cx.ket(f'psi{name}', 2)
        if cx.bool(f'sub{step}'):
            new = sim.createSubSys(cx.qg.Qubit, frequency=w.freq[name])
        else:
            new, _ = sim.createQSystems(cx.qg.Qubit, frequency=w.freq[name])
        cx.check(isinstance(new, cx.qg.Qubit), 'the new system is returned')
        new.initialState = w.psi[name]
        w.sys[name], w.of['free' + name] = new, name
        w.add(name)
    return True


START = [[], ['b'], ['a', 'b'], ['p', 'b'], ['p', 'q', 'b']]


@harness('C30', reload=True, quick=[{'start': k, 'first': f, 'steps': 1} for k in range(5) for f in OPS if k or f != 'replace'] + [
    {'start': k, 'first': f, 'steps': 2, 'few': True} for k, f in ((0, 'add'), (1, 'addProtocol'), (3, 'removeSubSys'), (4, 'removeProtocol'))],
         thorough=[{'start': k, 'first': f, 'steps': 2} for k in range(5) for f in OPS if k or f != 'replace'],
         bounds='two or three systems and three protocols, added one by one or in lists, removed or replaced by object, name, '
                'alias or list, before and after runs, histories of 1..2 operations on five starting points, two time steps')
def holding(cx, start, first, steps, few=False):
    w = World(cx)
    for entry in START[start]:
        if entry in w.sys:
            w.sim.addSubSys(w.sys[entry])
            w.add(entry)
        else:
            w.sim.addProtocol(w.pro[entry])
            w.addProtocol(entry)
    if w.held and cx.bool('ran'):
        w.sim.run()
    for step in range(steps):
        what = first if step == 0 else cx.choice(f'op{step}', ['add', 'addProtocol', 'removeSubSys'])
        if not operate(w, what, step, few):
            return
        if steps > 1 and step < steps-1 and w.held and cx.bool(f'run{step}'):
            w.sim.run()
    w.check('after the last operation')


@harness('C30', reload=True, quick=[{}], bounds='the simulation of a qubit: protocols added to it, or replacing its free evolution')
def own(cx):
    w = World(cx, sim='a')
    sys = w.sys['a']
    if cx.bool('ran'):
        sys.runSimulation()
    how = cx.choice('how', ['none', 'add', 'replace', 'replaceName', 'both'])
    if how == 'add':
        sys.addProtocol(w.pro['p'])
        w.addProtocol('p')
    elif how == 'replace':
        sys.addProtocol(w.pro['p'], protocolRemove=sys._freeEvol)
        w.addProtocol('p', 'freea')
    elif how == 'replaceName':
        sys.addProtocol(w.pro['q'], protocolRemove=str(sys.name))
        w.addProtocol('q', 'freea')
    elif how == 'both':
        sys.addProtocol([w.pro['p'], w.pro['q']])
        w.addProtocol('p')
        w.addProtocol('q')
    w.check('simulation of a system')


@harness('C30', reload=True, quick=[{'how': h} for h in ('system', 'protocol', 'replace', 'sweep', 'object')],
         bounds='up to four sweeps or time dependent parameters of systems, protocols and the simulation of a system; one '
                'removal of a system, protocol or sweep, by object, name or list')
def sweeps(cx, how):
    w = World(cx)
    sim = w.sim
    sim.addProtocol(w.pro['p'])
    sim.addSubSys(w.sys['b'])
    w.held = ['p', 'freeb']
    where = sim.timeDependency if cx.bool('dependency') else sim.Sweep
    left = {}

    def sweep(name, obj, key, vals):
        left[name] = where.createSweep(system=obj, sweepKey=key, sweepList=vals)
    vals = [cx.real(f'v{k}', nonzero=True) for k in range(2)]
    sweep('a', w.sys['a'], 'frequency', vals)
    both = cx.bool('both')
    sweep('ab' if both else 'b', [w.sys['a'], w.sys['b']] if both else w.sys['b'], 'frequency', vals)
    sweep('p', w.pro['p'], 'ratio', [1, 2])
    if cx.bool('ran') and where is sim.Sweep:
        sim.run()
    if how == 'system':
        sim.removeSubSys(form(cx, 'ref', w.sys['a']))
        gone = ['a', 'p']
    elif how in ('protocol', 'replace'):
        ref = form(cx, 'ref', w.pro['p'])
        if how == 'replace':
            sim.addProtocol(w.pro['q'], protocolRemove=ref)
            gone = ['p']
        else:
            sim.removeProtocol(ref)
            gone = ['a', 'p']       # no protocol of that system is left
    elif how == 'sweep':
        which = cx.choice('which', list(left))
        sim.removeSweep(form(cx, 'ref', left[which], ('object', 'name', 'list')))
        gone = [which]
    else:
        which = cx.choice('which', ['a', 'b', 'p'])
        sim.removeSweep(form(cx, 'ref', w.sys[which] if which in w.sys else w.pro[which]))
        gone = [which]
    if both and 'b' in gone:
        gone = []
        cx.check(len(left['ab'].subSys) == 1, 'only the removed object leaves its sweep')
    if both and how in ('system', 'protocol'):
        cx.check([s is w.sys['b'] for s in left['ab'].subSys.values()] == [True], 'only the removed object leaves its sweep')
    want = [s for n, s in left.items() if n not in gone]
    have = list(where.sweeps.values())
    cx.check(len(want) == len(have) and all(s is t for s, t in zip(want, have)), 'the sweeps of what was removed, and only these')
    if where is sim.Sweep and cx.bool('thenRun'):
        sim.run()
        for val in [v for v in sim.states.values() if len(v)]:
            cx.equal(len(val), 2 if want else 3, 'one evolution per point of the remaining sweeps')
            for one in val:
                cx.equal(len(one) if want else 3, 3, 'one evolution per point of the remaining sweeps')
