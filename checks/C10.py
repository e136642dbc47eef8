"""Names and aliases: each is an equally good key and belongs to one object."""
from symx.harness import harness

ASSUMPTIONS = ['aliases are free labels (integers), so every pattern of equal and different aliases is covered']


class Label:
    """an alias: equal to another when their numbers are"""
    def __init__(self, num):
        self.num = num

    def __eq__(self, other):
        return self.num == other.num if isinstance(other, Label) else NotImplemented

    def __ne__(self, other):
        return self.num != other.num if isinstance(other, Label) else NotImplemented

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'label'


def label(cx, name):
    return Label(cx.int(name, 1, 9))


def labels(cx, number):
    return [label(cx, f'a{k}') for k in range(number)]


OPS = ['set', 'get', 'default', 'delete', 'pop', 'popDefault', 'setdefault', 'update', 'clear']


SHORT = [{'first': o, 'ops': 1, 'number': 3} for o in OPS] + [{'first': o, 'ops': 2, 'number': 2} for o in OPS]


@harness('C10', quick=SHORT, thorough=[{'first': o, 'ops': 2, 'number': 3} for o in OPS],
         bounds='up to three keys with an alias each; histories of two operations by key, name, alias or unknown label')
def dictionary(cx, first, ops, number):
    base = cx.load('classes.base')
    labs = labels(cx, number)
    for k in range(number):
        for other in labs[k+1:]:
            cx.assume(labs[k] != other)
    names = ['A', 'B', 'C'][:number]
    keys = [base.aliasClass(name=n, alias=[a] if n == 'A' else a) for n, a in zip(names, labs)]
    if number > 2:
        keys[1] = base.aliasClass(name='B')
        keys[1].alias = [labs[1]]
    vals = [cx.real(f'v{k}') for k in range(number)]
    dic = base.aliasDict()
    have = {}
    for k in range(cx.pick(cx.int('size', 1, number))):
        dic[keys[k]] = vals[k]
        have[k] = vals[k]
    for step in range(ops):
        what = first if not step else cx.choice(f'op{step}', ['set', 'pop', 'setdefault', 'get'])
        new = cx.real(f'w{step}')
        how = cx.choice(f'by{step}', ['key', 'name', 'label', 'fresh']) if what != 'clear' else 'key'
        if how == 'label':
            query = label(cx, f'q{step}')
            for k in range(number):
                if query == labs[k]:
                    pos = k
                    break
            else:
                pos = None
        else:
            pos = cx.pick(cx.int(f'k{step}', 0, number-1))
            query = {'key': keys[pos], 'name': names[pos],
                     'fresh': base.aliasClass(name=f'F{step}', alias=[labs[pos]])}[how]
        known = pos in have
        if not known and what in ('set', 'setdefault', 'update') and (how == 'fresh' or pos is None):
            return      # would introduce a key of its own
        if not known and what in ('set', 'setdefault', 'update') and how != 'key':
            query = keys[pos]
        if what == 'set':
            dic[query] = new
            have[pos] = new
        elif what == 'get':
            if known:
                cx.equal(dic[query], have[pos], 'a value is found by name or alias')
            else:
                cx.raises(KeyError, lambda: dic[query], 'an unknown key is not found')
        elif what == 'default':
            cx.equal(dic.get(query, new), have[pos] if known else new, 'a value is found by name or alias')
            cx.check(dic.get(query) is None or known, 'an unknown key is not found')
        elif what == 'delete':
            if known:
                del dic[query]
                del have[pos]
            else:
                cx.raises(KeyError, lambda: dic.__delitem__(query), 'an unknown key is not found')
        elif what == 'pop':
            if known:
                cx.equal(dic.pop(query), have.pop(pos), 'a value is taken by name or alias')
            else:
                cx.raises(KeyError, lambda: dic.pop(query), 'an unknown key is not found')
        elif what == 'popDefault':
            cx.equal(dic.pop(query, new), have.pop(pos, new), 'a value is taken by name or alias')
        elif what == 'setdefault':
            cx.equal(dic.setdefault(query, new), have.setdefault(pos, new), 'a default does not replace a value')
        elif what == 'update':
            form = cx.choice(f'form{step}', ['dict', 'pairs'])
            dic.update({query: new} if form == 'dict' else [(query, new)])
            have[pos] = new
        else:
            dic.clear()
            have.clear()
    copied = dic.copy()
    cx.check(type(copied) is type(dic), 'a copy is of the same kind')
    for one in (dic, copied):
        cx.equal(len(one), len(have), 'one entry per key')
        for k in range(number):
            for query in (keys[k], names[k], labs[k]):
                cx.check((query in one) == (k in have), 'a key is found by name or alias')
                if k in have:
                    cx.equal(one[query], have[k], 'a value is found by name or alias')


TEXTS = ['x', '_x', 'X', 'Qubit7 y']


@harness('C10', reload=True, quick=[{'number': n} for n in (1, 2, 3)] + [{'number': 2, 'texts': True}],
         bounds='up to three objects and three settings of aliases, alone or in a list, in any pattern of equality; also '
                'with strings that look like names')
def aliases(cx, number, texts=False):
    qg = cx.qg

    def made(name):
        return cx.choice(name, TEXTS) if texts else label(cx, name)
    objs = [cx.choice('class', [qg.Qubit, qg.Simulation])()] if number == 1 else \
        [qg.Qubit(), qg.Simulation(), qg.Qubit()][:number]
    owner = []      # (label, object)
    for step in range(2 if texts else 3):
        pos = cx.pick(cx.int(f'o{step}', 0, number-1)) if step else number-1
        lab = [made(f'a{step}')]
        if step == 1 and cx.bool('list'):
            lab.append(made('extra'))
        given = lab if len(lab) > 1 else lab[0]
        taken = False
        for one in lab:
            for other, obj in owner:
                if obj != pos and one == other:
                    taken = True
        if taken:
            cx.raises(ValueError, lambda: setattr(objs[pos], 'alias', given), 'an alias belongs to one object')
            if len(lab) > 1:
                return
        else:
            objs[pos].alias = given
            owner += [(one, pos) for one in lab]
    cx.raises(ValueError, lambda: setattr(objs[-1], 'alias', objs[0].name.name), 'a name is no alias of another object') \
        if number > 1 else None
    other = qg.qBase()
    for lab, pos in owner:
        cx.check(other.getByNameOrAlias(lab) is objs[pos], 'an object is found by its alias')
    for obj in objs:
        cx.check(other.getByNameOrAlias(obj.name) is obj, 'an object is found by its name')
        cx.check(other.getByNameOrAlias(obj.name.name) is obj, 'an object is found by its name')
        cx.check(other.getByNameOrAlias(obj) is obj, 'an object is itself')
    free = made('free')
    if all(free != lab for lab, _ in owner):
        cx.raises(ValueError, lambda: other.getByNameOrAlias(free), 'an unknown alias finds nothing')


CLASSES = ['Qubit', 'Cavity', 'Spin', 'QuantumSystem', 'QTerm', 'qProtocol', 'freeEvolution', 'Simulation', 'qBase',
           'SpinRotation', 'xGate', 'Sweep', 'qResults', 'QubitOld', 'CavityOld', 'SpinOld', 'qCoupling', 'thermalBath',
           'dissipatorObj', 'Gate', 'qDrive']


@harness('C10', reload=True, quick=[{'part': k} for k in range(4)],
         bounds='one after the other any three of the public classes; internal and external instances')
def names(cx, part):
    qg = cx.qg
    base = cx.load('classes.base')
    have = [n for n in CLASSES if hasattr(qg, n)]
    cx.check(len(have) >= 18, 'the public classes are there')
    made = []
    first = have[part::4]
    for k, pool in enumerate((first, have)):
        cls = getattr(qg, cx.choice(f'class{k}', pool))
        internal = cx.bool(f'internal{k}')
        made.append(cls(_internal=internal) if internal else cls())
        made.append(cls())
        for one in made[-2:]:
            cx.check(one.name.name.startswith('_') == one._internal, 'internal objects are named with an underscore')
    alive = [(k, v) for k, v in base.named._allInstacesDict.items()]
    found = {}
    for key, ref in alive:
        obj = ref() if not isinstance(ref, base.named) else ref
        if obj is not None:
            cx.check(obj.name is key, 'every object has a name of its own')
            found[id(obj)] = obj
    for one in made:
        cx.check(id(one) in found, 'every object has a name of its own')
        cx.check(one.getByNameOrAlias(one.name.name) is one, 'every object has a name of its own')
    texts = [o.name.name for o in found.values()]
    cx.equal(len(set(texts)), len(texts), 'every object has a name of its own')


@harness('C10', reload=True, quick=[{'ops': 3, 'first': k} for k in range(3)],
         thorough=[{'ops': 4, 'first': k} for k in range(3)],
         bounds='three objects in a container; three (thorough four) additions and removals by object, name, alias or list')
def containers(cx, ops, first):
    qg = cx.qg
    box = qg.qBase()
    labs = labels(cx, 3)
    for k in range(3):
        for other in labs[k+1:]:
            cx.assume(labs[k] != other)
    objs = [qg.Qubit(), qg.qBase(), qg.Simulation()]
    for obj, lab in zip(objs, labs):
        obj.alias = lab
    have = []
    for step in range(ops):
        what = cx.choice(f'op{step}', ['add', 'remove', 'set', 'list'] if step else ['list'])
        pos = cx.pick(cx.int(f'k{step}', 0, 2)) if step else first
        ref = cx.choice(f'by{step}', ['object', 'name'] if what == 'list' else ['name'] if what == 'add' else
                        ['object', 'alias'] if what == 'remove' else ['object'])
        one = {'object': objs[pos], 'name': objs[pos].name, 'text': objs[pos].name.name, 'alias': labs[pos]}[ref]
        if what == 'add':
            box.addSubSys(one)
            have += [pos] if pos not in have else []
        elif what == 'set':
            box.subSys = one
            have = [pos]
        elif what == 'list':
            box.addSubSys([objs[(pos+1) % 3], one])
            have += [k for k in ((pos+1) % 3, pos) if k not in have]
        elif pos in have:
            box.removeSubSys(one)
            have.remove(pos)
        else:
            cx.raises(KeyError, lambda: box.removeSubSys(one), 'what is not there cannot be removed')
    cx.equal(len(box.subSys), len(have), 'a container holds what was added and not removed')
    for pos, val in zip(have, box.subSys.values()):
        cx.check(val is objs[pos], 'contents are in the order of addition')
    for pos, obj in enumerate(objs):
        for query in (obj.name, obj.name.name, labs[pos]):
            cx.check((query in box.subSys) == (pos in have), 'contents are found by name and alias')
            cx.check(box.subSys.get(query) is (obj if pos in have else None), 'contents are found by name and alias')


@harness('C10', reload=True, bounds='three objects of which one or two no longer exist, with any aliases')
def gone(cx):
    base = cx.load('classes.base')
    labs = labels(cx, 3)
    objs = [base.qBase() if cx.bool('qBase') else base.named() for _ in range(3)]
    last = objs[2]
    for obj, ali in zip(objs[:2], labs):
        if not any(ali == o for o in labs[:objs.index(obj)]):
            obj.alias = ali
    names = [o.name.name for o in objs]
    have = [list(o.alias) for o in objs]
    del obj
    keep = cx.choice('keep', [[2], [0, 2], [1, 2]])
    objs = [o if k in keep else None for k, o in enumerate(objs)]
    for k in range(2):
        for key in [names[k]] + have[k]:
            if objs[k] is None:
                cx.raises(ValueError, lambda: last.getByNameOrAlias(key), 'objects that do not exist are not found')
            else:
                cx.check(last.getByNameOrAlias(key) is objs[k], 'existing objects are found')
    taken = any(objs[k] is not None and any(labs[2] == a for a in have[k]) for k in range(2))
    if taken:
        def give():
            last.alias = labs[2]
        cx.raises(ValueError, give, 'aliases of existing objects are refused')
    else:
        last.alias = labs[2]
        cx.check(last.getByNameOrAlias(labs[2]) is last, 'aliases of objects that do not exist are free')
