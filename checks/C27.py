"""Pulses and drives: the shape of a drive is the sum of its pulses, each confined to its time window."""
from symx.harness import harness

ASSUMPTIONS = ['pulse shapes are polynomials of time with free real coefficients']


def shape(time, *args, **kwargs):
    res = 0
    for power, val in enumerate(args):
        res = res + val*time**power
    return res + kwargs.get('offset', 0)


def other(time, *args, **kwargs):
    return 3*shape(time, *args, **kwargs) - 7


class Ref:
    """what a pulse has to be"""
    def __init__(self, start, stop, func, args, kwargs):
        self.start, self.stop, self.func, self.args, self.kwargs = start, stop, func, args, kwargs

    def at(self, time):
        if self.start < time and time < self.stop:
            return self.func(time, *self.args, **self.kwargs)
        return 0


def one(cx, ind, nargs):
    start, length = cx.real(f'start{ind}'), cx.real(f'length{ind}', positive=True)
    args = [cx.real(f'c{ind}{k}') for k in range(nargs)]
    kwargs = {'offset': cx.real(f'offset{ind}')} if nargs == 0 else {}
    ref = Ref(start, start + length, shape, args, kwargs)
    return dict(t0=ref.start, t1=ref.stop, func=shape, funcArgs=args, funcKwargs=kwargs), ref


CHANGES = ['t0', 't1', 'func', 'funcArgs', 'funcKwargs', 'all']


def change(cx, pulse, ref, what):
    if what in ('t0', 'all'):
        pulse.t0 = ref.start = ref.start - cx.real('earlier', positive=True)
    if what in ('t1', 'all'):
        pulse.t1 = ref.stop = ref.stop + cx.real('later', positive=True)
    if what in ('func', 'all'):
        pulse.func = ref.func = other
    if what in ('funcArgs', 'all'):
        pulse.funcArgs = ref.args = [cx.real('newArg')]
    if what in ('funcKwargs', 'all'):
        pulse.funcKwargs = ref.kwargs = {'offset': cx.real('newOffset')}


@harness('C27', reload=True, quick=[{'what': w} for w in CHANGES],
         bounds='one pulse with any window, up to two free coefficients, read at any two times, then changed and read again')
def pulses(cx, what):
    kwargs, ref = one(cx, 0, cx.pick(cx.int('args', 0, 2)))
    drive = cx.load('classes.QDrive')
    pulse = drive.pulse(**kwargs)
    times = [cx.real(f'time{k}') for k in range(2)]
    before = cx.choice('before', ['apply', 'shape', 'nothing'])
    if before == 'apply':
        cx.equal(pulse.apply(times[0]), ref.at(times[0]), 'pulse')
    elif before == 'shape':
        for got, time in zip(pulse.totalShape(times), times):
            cx.equal(got, ref.at(time), 'shape')
    change(cx, pulse, ref, what)
    last = pulse.totalShape(times)
    cx.check(len(last) == 2, 'one value for each time')
    for got, time in zip(last, times):
        cx.equal(got, ref.at(time), 'shape after a change')
    cx.equal(pulse.totalShape([cx.real('time2')])[0], ref.at(cx.real('time2')), 'shape at other times')


HOW = ['addPulse', 'pulses', 'addSubSys', 'keyword']


@harness('C27', reload=True, quick=[{'how': h, 'then': t} for h in HOW for t in ['add', 'remove', 'replace', 'change']],
         bounds='one or two pulses, given in every way; one more added, removed, replaced or changed; read at any time')
def drives(cx, how, then):
    mod = cx.load('classes.QDrive')
    num = cx.pick(cx.int('pulses', 1, 2))
    pairs = [one(cx, k, 1) for k in range(num)]
    refs = [p[1] for p in pairs]
    if how == 'addPulse':
        drive = mod.qDrive()
        objs = [drive.addPulse(**p[0]) for p in pairs]
    else:
        objs = [mod.pulse(**p[0]) for p in pairs]
        if how == 'keyword':
            drive = mod.qDrive(pulses=objs)
        else:
            drive = mod.qDrive()
            if how == 'pulses':
                drive.pulses = objs
            else:
                for obj in objs:
                    drive.addSubSys(obj)
    times = [cx.real('time')]

    def compare(label):
        cx.equal(drive.totalShape(times)[0], sum((r.at(times[0]) for r in refs), 0), label)
    if cx.bool('read'):
        compare('sum of the pulses')
    if then == 'add':
        kwargs, ref = one(cx, 2, 1)
        drive.addPulse(**kwargs)
        refs.append(ref)
    elif then == 'remove':
        drive.removeSubSys(objs[0])
        refs = refs[1:]
    elif then == 'replace':
        kwargs, ref = one(cx, 2, 1)
        drive.pulses = [mod.pulse(**kwargs)]
        refs = [ref]
    else:
        change(cx, objs[-1], refs[-1], cx.choice('what', ['t0', 't1', 'func', 'funcArgs']))
    compare('after a change')
    cx.equal(drive.apply(times[0]), sum((r.at(times[0]) for r in refs), 0), 'apply')


@harness('C27', reload=True, quick=[{'degree': 0}, {'degree': 1}],
         bounds='constant and linear shapes starting at zero or one, any length from 0.01, rotation and coefficients '
                'with an area of at least 0.01')
def rotations(cx, degree):
    mod = cx.load('classes.QDrive')
    start = cx.pick(cx.int('start', 0, 1))
    length = cx.real('length', positive=True)
    args = [cx.real(f'c{k}') for k in range(degree + 1)]
    stop = start + length
    area = args[0]*length + (args[1]*(stop**2 - start**2)/2 if degree else 0)
    cx.assume(length >= cx.frac(1, 100))
    cx.assume(area*area >= cx.frac(1, 10000))
    rotation = cx.real('rotation')
    drive = mod.qDrive()
    drive.addPulse(rotation=rotation, t0=start, t1=stop, func=shape, funcArgs=args)
    middle = start + length*cx.frac(1, 3)
    # the area of 2 pi times the shape is the rotation
    cx.equal(drive.apply(middle)*2*cx.pi*area, rotation*shape(middle, *args), 'scale')
    cx.equal(drive.apply(stop), 0, 'outside')
