"""Results written to CSV files and read back."""
import contextlib
import os
import shutil
import sys
import tempfile
from symx.harness import harness

ASSUMPTIONS = ['text of a number read back is that number (str and float of Python are inverse to each other)',
               'files are real files in a scratch directory of the check']


@contextlib.contextmanager
def scratch():
    path = tempfile.mkdtemp(prefix='symx-csv-')
    try:
        yield path
    finally:
        shutil.rmtree(path)


def number(cx, name, kind):
    """one value; int, float and complex numbers of Python or numpy"""
    if kind == 'int':
        return cx.scalar(cx.int(name, -3, 3) if not cx.symbolic else cx.int(name, None, None))
    if kind == 'float':
        return cx.scalar(cx.real(name))
    return cx.scalar(cx.complex(name))


def readBack(cx, mod, fil, kind, want, label):
    """every way of reading gives the rows of want"""
    types = {'int': [int, float], 'float': [float, cx.np.float64], 'complex': [complex, cx.np.complex128]}[kind]
    for typ in types:
        for real in (False, True):
            got = mod.readCSV(fil, datatype=typ, realVal=real)
            if typ is float and not real and kind == 'float':
                cx.equal(list(mod.readCSV(fil)) if len(want) == 1 else [list(r) for r in mod.readCSV(fil)],
                         want[0] if len(want) == 1 else want, label + ' by default')
            got = [list(got)] if len(want) == 1 else [list(row) for row in got]
            exp = want
            if typ is cx.np.complex128 and real:
                exp = [[v.real for v in row] for row in want]
            cx.equal(got, exp, label)


@harness('C28', quick=[{'kind': k, 'num': n} for k in ('int', 'float', 'complex') for n in (False, True)],
         bounds='1-3 rows of 1-3 values each, lists and arrays, rows of one value also unwrapped, integers, reals and '
                'complex numbers of Python and numpy, with and without file name and directory')
def saveRead(cx, kind, num):
    mod = cx.load('extensions.saveReadCSV')
    cx.text(numpy=num)
    rows = cx.choice('rows', [0, 1, 2, 3])
    data, want, base = [], [], []
    if rows == 0:
        data = [number(cx, f'x{i}', kind) for i in range(cx.choice('len', [1, 2, 3]))]
        want = [list(data)]
        if cx.bool('array'):
            data = cx.np.array(data)
    else:
        style = cx.choice('style', ['lists', 'arrays', 'matrix', 'unwrapped'])
        lens = [cx.choice(f'len{i}', [1, 2, 3]) if style != 'matrix' or i == 0 else None for i in range(rows)]
        for i in range(rows):
            row = [number(cx, f'x{i}_{j}', kind) for j in range(lens[i] or lens[0])]
            want.append(list(row))
            if style == 'unwrapped' and len(row) == 1:
                row = row[0]
            data.append(cx.np.array(row) if style == 'arrays' else row)
        if style == 'unwrapped':
            cx.assume(any(isinstance(row, list) for row in data))
        if style == 'matrix':
            data = cx.np.array(data)
    base = [list(row) for row in want]
    with scratch() as path:
        folder, name, again = cx.choice('where', [(path, 'res', True), (path + '/new', 'a.b', False), (path, None, False),
                                                  (None, 'res', False), (None, None, False)][:5 if rows < 2 else 2])
        here = folder or path
        with open(path + '/keep', 'w') as fil:
            fil.write('1,2')
        old = sys.path[0]
        sys.path[0] = path
        try:
            if again:
                mod.saveCSV([[7., 8.], [9.]], folder, name)
            back = mod.saveCSV(data, folder, name) if folder is None or name is None else \
                mod.saveCSV(data, path=folder, fileName=name)
        finally:
            sys.path[0] = old
        cx.check(back == here, 'the directory is returned')
        with open(path + '/keep') as fil:
            cx.check(fil.read() == '1,2', 'other files are left alone')
        found = [fil for fil in os.listdir(here) if fil not in ('keep', 'new')]
        cx.check(len(found) == 1, 'one file is written')
        if name is not None:
            cx.check(found == [name + '.txt'], 'the file has the name that was given')
        readBack(cx, mod, here + '/' + found[0], kind, want, 'read back')
    got = [[v for v in row] if isinstance(row, (list, cx.np.ndarray)) else [row] for row in data] if rows else [list(data)]
    cx.equal(got, base, 'data are not changed')


def nested(cx, name, dims, kind, rag=True):
    """a nested list of numbers"""
    if not dims:
        return number(cx, name, kind)
    return [nested(cx, f'{name}_{i}', dims[1:], kind, rag) for i in range(dims[0] - (
        1 if rag and len(dims) == 1 and dims[0] > 1 and name.endswith('_1') else 0))]


def files(name, val):
    """what a result is saved to: {file name: rows}"""
    if not isinstance(val, list):
        return {name: [[val]]}
    if not any(isinstance(v, list) for v in val):
        return {name: [val]}
    if not any(isinstance(w, list) for v in val if isinstance(v, list) for w in v):
        return {name: [v if isinstance(v, list) else [v] for v in val]}
    out = {}
    for i, one in enumerate(val):
        out.update(files(name + ('_' if name.endswith('#') else '') + str(i) + '#', one))
    return out


def named(val):
    return {key.replace('#', ''): rows for key, rows in val.items()}


def prefix(res):
    """name and aliases, joined"""
    key = [key for key, val in res.allResults.items() if val is res][0]
    return key.name + ''.join(key.alias)


def saved(cx, mod, path, results, kinds):
    """the directory holds exactly these results: {(object, key): value}"""
    want = {}
    for (obj, key), val in results.items():
        for fil, rows in named(files(prefix(obj) + key, val)).items():
            want[fil + '.txt'] = (rows, kinds[key])
    cx.check(sorted(os.listdir(path)) == sorted(want), 'one file for each stored table')
    for fil, (rows, kind) in want.items():
        if os.path.exists(path + '/' + fil):
            readBack(cx, mod, path + '/' + fil, kind, rows, 'saved results')


SHAPES = [[], [1], [3], [1, 2], [2, 2], [2, 3], [2, 2, 2], [1, 3, 2], [2, 1, 2, 2]]


@harness('C28', quick=[{'first': s, 'num': s % 2 == 0} for s in range(len(SHAPES))],
         thorough=[{'first': s, 'num': n} for s in range(len(SHAPES)) for n in (False, True)], reload=True,
         bounds='results of one to three objects with one or two keys, averages, lists and nested lists of up to four '
                'levels, ragged or not, some objects with an alias or no results')
def results(cx, first, num):
    qg = cx.qg
    mod = cx.load('extensions.saveReadCSV')
    cx.text(numpy=num)
    objs = [qg.Qubit(frequency=1), qg.Cavity(dimension=2, frequency=1), qg.QuantumSystem()]
    if cx.choice('alias', [True] if first > 3 else [False, True]):
        objs[0].alias = 'probe'
        objs[1].alias = ['cav', 'mode']
    kinds = {'z': 'float', 'n': cx.choice('kind', ['int', 'float', 'complex'])}
    stored = {}
    for k, (obj, key, shape) in enumerate([(0, 'z', SHAPES[first]), (0, 'n', cx.choice('second', SHAPES if first == 0 else SHAPES[:1] + SHAPES[first:first+1])),
                                           (1, 'n', [2])]):
        val = nested(cx, f'r{k}', shape, kinds[key], cx.bool(f'rag{k}') if len(shape) > 1 else False)
        res = objs[obj].qRes
        res.resultsDict[key] = val
        stored[res, key] = val
    with scratch() as path:
        mod.saveQResCSV(objs[cx.choice('who', [0, 2])].qRes, path)
        saved(cx, mod, path, stored, kinds)


@harness('C28', quick=[{'sweeps': s, 'num': s % 2 == 0} for s in (0, 1, 2, 3)],
         thorough=[{'sweeps': s, 'num': n} for s in (0, 1, 2, 3) for n in (False, True)], reload=True,
         bounds='runs with no to three sweeps of one or two values and two steps, results and averages')
def afterRun(cx, sweeps, num):
    qg = cx.qg
    mod = cx.load('extensions.saveReadCSV')
    qub = qg.Qubit(frequency=1)
    other = qg.Qubit(frequency=cx.real('w'))
    sys_ = qg.QuantumSystem(subSys=[qub, other])
    sys_.initialState = [0, 1]
    steps = cx.choice('steps', [1, 2])
    sys_.simStepSize, sys_.simTotalTime = 1, steps
    vals = [cx.reals(f's{i}_', cx.choice(f'n{i}', [1, 2]), positive=True) if i < 2 else [1, 1] for i in range(sweeps)]
    for i, val in enumerate(vals):
        sys_.simulation.Sweep.createSweep(system=(qub, other, qub)[i],
                                          sweepKey=('frequency', 'frequency', 'order')[i], sweepList=val,
                                          combinatorial=i > 0)
    count = []

    def compute(sim, *args):
        count.append(1)
        sys_.qRes.singleResult = 'z', cx.scalar(qub.frequency + len(count))
        other.qRes.resAverage = 'n', cx.scalar(other.frequency*1.0)
    sys_.simulation.compute = compute
    cx.text(numpy=num)
    sys_.runSimulation()
    stored = {(sys_.qRes, 'z'): sys_.qRes.resultsDict['z'], (other.qRes, 'n'): other.qRes.resultsDict['n']}
    with scratch() as path:
        mod.saveQResCSV(sys_.qRes, path)
        saved(cx, mod, path, stored, {'z': 'float', 'n': 'float'})


@harness('C28', quick=[{'dims': [12, 12, 2, 1]}], thorough=[{'dims': [12, 12, 2, 1]}, {'dims': [3, 12, 12, 1, 1]}],
         reload=True, bounds='twelve points of two sweeps (thorough: and three of another), tables of two rows')
def manyPoints(cx, dims):
    mod = cx.load('extensions.saveReadCSV')
    res = cx.qg.Qubit(frequency=1).qRes
    cx.text(numpy=True)
    off = cx.real('x')

    def table(dims, base):
        return [table(dims[1:], 20*base + i) for i in range(dims[0])] if dims else cx.scalar(off + base)
    res.resultsDict['z'] = table(dims, 0)
    with scratch() as path:
        mod.saveQResCSV(res, path)
        saved(cx, mod, path, {(res, 'z'): table(dims, 0)}, {'z': 'float'})
