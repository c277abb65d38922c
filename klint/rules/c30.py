"""C30: audio files are refused or converted, never misread."""
from ..core import V, clause
from ..engine import C, NONE, is_const, show
from ..lin import Sys, fname
from ..poly import poly
from ..walk import Range

EXPLAIN = ('Conversions: on every path of loading, writing and converting, the returned samples are factored into the original data and the scales '
           'applied to it; there must be exactly one scale, derived from the integer type of the data (or of the target), and the path must have '
           'established that the data does not already have the target representation. Loading additionally: which sample widths reach the end, the '
           'type and layout the bytes are given. Playing: 0 <= start < stop <= length and start <= position <= stop as an inductive invariant over '
           'construction and every operation (polyhedral domain); what the callback returns is, for the remaining range, the samples from the '
           'position on and, when looping, those of the trimmed range repeated (normal form of the index expression). '
           'The width test is evaluated for each width a file can have, and converted samples must not be turned back into integers.')
ASSUME = ['sample positions and chunk sizes are integers', 'scipy and wave read and write files as documented']
MINIMUM = 5
TECHNIQUE = 'factor normal form of conversion terms over all paths, polyhedral invariant for playing samples'
S = 'klang.audio.sampling.Sample'
W = 'klang.audio.wavfile.'
COPIES = ('numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', 'numpy.asfarray', 'numpy.squeeze', 'numpy.atleast_1d', 'numpy.asanyarray')
FLOATS = ('numpy.float64', 'numpy.float32', 'builtins.float', 'float', 'numpy.double')
INTS = {'numpy.int8', 'numpy.uint8', 'numpy.int16', 'numpy.uint16', 'numpy.int32', 'numpy.int64', 'numpy.uint32'}


def check(ctx):
    r = ctx.rep
    r.rule('width', 'only 16 bit files are accepted, and all of them')
    r.rule('layout', 'bytes become samples of the right type, number and arrangement')
    r.rule('scale', 'samples are scaled exactly once per conversion, by the range of the integer type')
    r.rule('refuse', 'data that already has the target representation is refused')
    r.rule('inv', 'trimmed range and position stay inside the samples')
    r.rule('play', 'what is played lies inside the trimmed range and continues with its start when looping')
    clause(ctx, 'width', load)
    clause(ctx, 'scale', to_float)
    clause(ctx, 'scale', to_int)
    clause(ctx, 'scale', write)
    clause(ctx, 'scale', crusher)
    clause(ctx, 'scale', audio_file)
    clause(ctx, 'inv', construct)
    for name, src in (('trim', '    s.trim(a, b)\n'), ('rewind', '    s.rewind()\n'), ('callback', '    y = s.callback(a)\n'),
                      ('set_playback_speed', '    s.set_playback_speed(a)\n')):
        clause(ctx, 'inv', keeps, name, src)
    clause(ctx, 'play', callback)


# ------------------------------------------------------------ factors
def strip(t):
    """Undo what does not change sample values or their arrangement."""
    while True:
        if t[0] != 'call':
            return t
        if isinstance(t[1], str) and t[1] in COPIES and t[2]:
            t = t[2][0]
        elif isinstance(t[1], tuple) and t[1][0] == 'extm' and t[1][2] in ('copy', 'squeeze'):
            t = t[1][1]
        else:
            return t


def dtype_of(t):
    if isinstance(t, tuple) and t[0] == 'ext':
        return t[1]
    if is_const(t) and isinstance(t[2], str):
        return {'<i2': 'numpy.int16', 'i2': 'numpy.int16', 'int16': 'numpy.int16', 'h': 'numpy.int16', 'int8': 'numpy.int8', 'uint16': 'numpy.uint16',
                'int32': 'numpy.int32', 'uint8': 'numpy.uint8', '<i4': 'numpy.int32', '>i2': 'big endian numpy.int16'}.get(t[2], t[2])
    if t[0] == 'call' and fname(t) == 'numpy.dtype' and t[2]:
        return dtype_of(t[2][0])
    return None


class Factors:
    """base * product of powers of scales, astype targets on the way."""

    def __init__(self):
        self.base, self.scales, self.casts, self.odd = None, [], [], []
        self.last = []                      # types the scaled samples are converted to

    def walk(self, t, sign=1):
        while t[0] == 'call' and isinstance(t[1], str) and t[1] in COPIES and t[2]:
            d = dict(t[3]).get('dtype') or (t[2][1] if len(t[2]) > 1 else None)
            if d is not None and not self.scales:
                self.last.append(d)
            t = t[2][0]
        t = strip(t)
        if t[0] == 'op' and t[1] in ('*', '/') and len(t[2]) == 2:
            a, b = t[2]
            ka, kb = scalar(a), scalar(b)
            if kb:
                self.scale(b, sign if t[1] == '*' else -sign)
                return self.walk(a, sign)
            if ka and t[1] == '*':
                self.scale(a, sign)
                return self.walk(b, sign)
            self.odd.append(t)
        elif t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'extm' and t[1][2] == 'astype' and t[2]:
            self.casts.append(t[2][0])
            if not self.scales:
                self.last.append(t[2][0])
            return self.walk(t[1][1], sign)
        elif t[0] == 'call' and isinstance(t[1], str) and t[1] in ('numpy.multiply', 'numpy.true_divide', 'numpy.divide') and len(t[2]) == 2:
            return self.walk(('op', '*' if t[1] == 'numpy.multiply' else '/', t[2]), sign)
        elif t[0] == 'call' and isinstance(t[1], str) and t[1] in ('numpy.round', 'numpy.rint', 'numpy.clip', 'numpy.around'):
            return self.walk(t[2][0], sign)
        else:
            self.base = t
        return self

    def scale(self, t, sign):
        if t[0] == 'op' and t[1] in ('*', '/') and len(t[2]) == 2:
            self.scale(t[2][0], sign)
            self.scale(t[2][1], sign if t[1] == '*' else -sign)
        else:
            self.scales.append((t, sign))


def scalar(t):
    """A number, not samples: derived from the range of a type, a constant, or a maximum over samples."""
    if is_const(t):
        return True
    if kind(t) is not None or peak(t):
        return True
    if t[0] == 'op' and t[1] in ('*', '/', '+', '-', '**', '<<', '>>', 'u-'):
        return all(scalar(x) for x in t[2])
    return t[0] == 'fld' and fname(t[1]) == 'numpy.iinfo' or t[0] == 'call' and fname(t) in (
        'builtins.abs', 'builtins.float', 'builtins.int', 'builtins.max', 'builtins.min') and all(scalar(x) for x in t[2])


def peak(t):
    """Largest absolute sample."""
    if t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'extm' and t[1][2] == 'max' and not t[2]:
        return strip(t[1][1])[0] == 'call' and fname(strip(t[1][1])) in ('numpy.abs', 'builtins.abs', 'numpy.absolute', 'numpy.fabs')
    if t[0] == 'call' and fname(t) in ('numpy.max', 'numpy.amax', 'builtins.max') and len(t[2]) == 1:
        return strip(t[2][0])[0] == 'call' and fname(strip(t[2][0])) in ('numpy.abs', 'builtins.abs', 'numpy.absolute', 'numpy.fabs')
    return False


def kind(t):
    """(which, type) of a scale taken from the range of an integer type: which in 'min', 'max', '-min'."""
    if t[0] == 'fld' and t[2] in ('min', 'max') and fname(t[1]) == 'numpy.iinfo' and t[1][2]:
        return t[2], t[1][2][0]
    if t[0] == 'call' and fname(t) in ('builtins.abs', 'numpy.abs', 'builtins.float', 'builtins.int') and len(t[2]) == 1:
        k = kind(t[2][0])
        if k and fname(t) in ('builtins.abs', 'numpy.abs'):
            return ('-min' if k[0] == 'min' else k[0]), k[1]
        return k
    if t[0] == 'op' and t[1] in ('u-', 'neg'):
        k = kind(t[2][0])
        return ('-min', k[1]) if k and k[0] == 'min' else None
    if t[0] == 'op' and t[1] == '+' and C(1) in t[2]:
        k = kind(t[2][0] if t[2][1] == C(1) else t[2][1])
        return ('-min', k[1]) if k and k[0] == 'max' else None
    return None


def own_type(d, base):
    """d is the type of base."""
    return d[0] == 'fld' and d[2] == 'dtype' and strip(d[1]) == base


def numbers(p):
    return dict(p.facts)


def integer_fact(p, base):
    """True / False / None: what the path knows about base being integers."""
    for k, val in numbers(p).items():
        if k[0] != 'truthy':
            continue
        t = k[1]
        if fname(t) == 'numpy.issubdtype' and len(t[2]) == 2 and own_type(t[2][0], base):
            what = dtype_of(t[2][1])
            if what in ('numpy.integer', 'numpy.signedinteger', 'builtins.int'):
                return val
            if what in ('numpy.floating', 'numpy.inexact', 'builtins.float'):
                return not val
    return None


def mentions(t, base):
    if isinstance(t, tuple):
        if t[:1] == ('fld',) and len(t) > 2 and t[2] == 'dtype':
            return True
        if t[:1] == ('call',) and fname(t) in ('builtins.isinstance', 'numpy.result_type', 'numpy.issubdtype'):
            return True
        return any(mentions(x, base) for x in t)
    return False


def last(p, kinds=('call', 'binop', 'write')):
    return next((e for e in reversed(p.events) if e.kind in kinds), None)


def refusal(ctx, con, ps, base, target):
    """Every path that converts has established that the data is not yet the target."""
    v = V(ctx, 'refuse', con)
    done = 0
    for p in ps:
        if p.raises:
            continue
        done += 1
        is_int = integer_fact(p, base)
        if is_int is None:
            if any(mentions(x, base) for k in numbers(p) for x in k[1:]):
                v.und('test of the type')
            else:
                v.bad('%s are converted without a look at their type' % ('integers' if target == 'int' else 'floats'), last(p))
        elif is_int == (target == 'int'):
            v.bad('data that already are %ss are converted' % target, last(p))
    if not done:
        v.bad('nothing is converted', ctx_where(ps))
    v.done('%d paths' % done)


def ctx_where(ps):
    return last(ps[0]) if ps else None


def to_float(ctx):
    x = ('sym', 'x')
    f = ctx.client('from klang.audio.wavfile import convert_samples_to_float\n\n\ndef client(x):\n    return convert_samples_to_float(x)\n')
    ps = ctx.run(ctx.interp(), f) or []
    v = V(ctx, 'scale', 'convert_samples_to_float')
    for p in ps:
        if p.raises:
            continue
        scaled(v, p, p.value, x, -1, None)
    v.done()
    if ps:
        refusal(ctx, 'convert_samples_to_float', ps, x, 'float')


def scaled(v, p, t, base, sign, dt, peaks=0):
    """t is base times one scale of an integer type to the power of sign."""
    f = Factors().walk(t) or Factors()
    ev = last(p)
    if f.odd or f.base is None:
        v.und(show(t))
        return None
    if base is not None and f.base != base:
        v.und('what is scaled: %s' % show(f.base))
        return None
    kinds = [(kind(s), sg, s) for s, sg in f.scales]
    mine = [(k, sg, s) for k, sg, s in kinds if k is not None]
    rest = [(s, sg) for k, sg, s in kinds if k is None and not (is_const(s) and s[2] in (1, 1.))]
    if peaks:
        norm = [x for x in rest if peak(x[0])]
        rest = [x for x in rest if not peak(x[0])]
        if len(norm) > 1:
            v.und('normalised twice')
    consts = [s for s, _ in rest if is_const(s)]
    if len(consts) < len(rest):
        wrong = by_type(p, f, sign, dt)
        if wrong:
            v.bad('samples of %s are scaled by %s' % wrong, ev)
            return None
        v.und('scale %s' % ', '.join(show(s) for s, _ in rest))
        return None
    if consts:
        v.bad('samples are scaled by %s, which is not derived from the integer type' % ', '.join(show(s) for s in consts), ev)
        return None
    if not mine:
        v.bad('samples are not scaled', ev)
        return None
    if len(mine) > 1:
        v.bad('samples are scaled %d times' % len(mine), ev)
        return None
    (which, d), sg, s = mine[0]
    if sign < 0 and any(own_type(x, f.base) or dtype_of(x) in INTS or dtype_of(x) == 'builtins.int' for x in f.last):
        v.bad('the converted samples are made integers again', ev)
    if sg != sign:
        v.bad('samples are scaled the wrong way', ev)
    elif which == 'min':
        v.bad('samples are scaled by a negative number', ev)
    elif sign > 0 and which != 'max':
        v.bad('a full scale sample does not fit into the integer type: scaled by %s' % show(s), ev)
    if dt is not None:
        if d != dt:
            v.bad('the scale is taken from %s instead of %s' % (show(d), show(dt)), ev) if dtype_of(d) or d[0] == 'sym' else v.und('type %s' % show(d))
    elif not own_type(d, f.base):
        if dtype_of(d) in INTS:
            v.bad('the scale is taken from %s instead of the type of the samples' % show(d), ev)
        else:
            v.und('type %s' % show(d))
    return f


def by_type(p, f, sign, dt):
    """A type whose samples get another scale than its own range: (type, scale)."""
    if any(isinstance(x, tuple) and 'dtype' in repr(x) and not (k[0] == 'truthy' and fname(k[1]) == 'numpy.issubdtype') for k in p.facts for x in k[1:3]):
        return None
    for bits in (8, 16, 32):
        total = 1.
        for s, sg in f.scales:
            x = size(s, bits, dt, f.base)
            if not x:
                return None
            total *= x ** sg
        total = total ** sign
        if abs(total - (2 ** (bits - 1) - 1)) > 1e-9 * total and (sign > 0 or abs(total - 2 ** (bits - 1)) > 1e-9 * total):
            return 'int%d' % bits, '%g' % total
    return None


def size(t, bits, dt, base):
    """Value of a scale where the integer type has so many bits, None: not known."""
    if is_const(t):
        return t[2] if isinstance(t[2], (int, float)) and not isinstance(t[2], bool) else None
    k = kind(t)
    if k is not None and (k[1] == dt if dt is not None else own_type(k[1], base)):
        return {'min': -2. ** (bits - 1), 'max': 2. ** (bits - 1) - 1, '-min': 2. ** (bits - 1)}[k[0]]
    if t[0] == 'call' and fname(t) in ('builtins.max', 'builtins.min', 'builtins.abs', 'builtins.float', 'builtins.int', 'numpy.abs') and not t[3]:
        a = [size(x, bits, dt, base) for x in t[2]]
        if None in a or not a or len(a) == 1 and fname(t) in ('builtins.max', 'builtins.min'):
            return None
        return {'max': max, 'min': min, 'abs': abs, 'float': float, 'int': int}[fname(t).rpartition('.')[2]](*a)
    if t[0] == 'op':
        a = [size(x, bits, dt, base) for x in t[2]]
        if None in a:
            return None
        try:
            return {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y, '**': lambda x, y: x ** y,
                    'u-': lambda x: -x}[t[1]](*a)
        except (KeyError, ZeroDivisionError, TypeError, OverflowError):
            return None
    return None


def to_int(ctx):
    x, d = ('sym', 'x'), ('sym', 'dtype')
    f = ctx.client('from klang.audio.wavfile import convert_samples_to_int\n\n\ndef client(x, dtype):\n    return convert_samples_to_int(x, dtype)\n')
    ps = ctx.run(ctx.interp(), f) or []
    v = V(ctx, 'scale', 'convert_samples_to_int')
    for p in ps:
        if p.raises:
            continue
        g = scaled(v, p, p.value, x, 1, d)
        if g is not None:
            cast(v, p, g, d)
    v.done()
    if ps:
        refusal(ctx, 'convert_samples_to_int', ps, x, 'int')


def cast(v, p, g, d):
    if not g.casts:
        v.bad('the result does not get the integer type', last(p))
    elif any(c != d for c in g.casts):
        c = next(c for c in g.casts if c != d)
        if dtype_of(c):
            v.bad('the result gets the type %s instead of %s' % (show(c), show(d)), last(p))
        else:
            v.und('type %s' % show(c))


def write(ctx):
    v = V(ctx, 'scale', 'write_wave')
    f = ctx.client('from klang.audio.wavfile import write_wave\n\n\ndef client(audio, path, rate, dtype):\n    write_wave(audio, path, rate, dtype)\n')
    n = 0
    for p in ctx.run(ctx.interp(), f) or ():
        if p.raises:
            continue
        for e in p.events:
            if e.kind == 'call' and e.fn == ('ext', 'scipy.io.wavfile.write') or e.kind == 'call' and fname(getattr(e, 'result', NONE) or NONE) == 'scipy.io.wavfile.write':
                if len(e.args) != 3 or e.kwargs:
                    v.und('arguments')
                    continue
                n += 1
                if e.args[1] != ('sym', 'rate'):
                    v.bad('the file gets the rate %s' % show(e.args[1]), e) if e.args[1][0] in ('const', 'glob') or is_const(e.args[1]) else v.und('rate')
                g = scaled(v, p, e.args[2], ('sym', 'audio'), 1, ('sym', 'dtype'), 1)
                if g is not None:
                    cast(v, p, g, ('sym', 'dtype'))
    if not n:
        v.und('no file written')
    v.done()


# ------------------------------------------------------------ loading
def load(ctx):
    w, y, s = V(ctx, 'width', 'load_wave'), V(ctx, 'layout', 'load_wave'), V(ctx, 'scale', 'load_wave')
    f = ctx.client('from klang.audio.wavfile import load_wave\n\n\ndef client(path):\n    return load_wave(path)\n')
    accepted, n = set(), 0
    for p in ctx.run(ctx.interp(), f) or ():
        if p.raises:
            continue
        n += 1
        width = next((e.result for e in p.events if method(e, 'getsampwidth')), None)
        if width is None:
            w.und('width')
        else:
            r = Range(width, numbers(p))
            among = []
            for k, val in numbers(p).items():
                if k[0] == 'inset' and k[1] == width or k[0] == 'in' and k[1] == width:
                    items = members(k[2])
                    if items is None:
                        r.odd.append((k, val))
                    else:
                        among.append((items, val))
            if r.odd:
                w.und('test of the width')
            else:
                ok = [x for x in (1, 2, 3, 4) if r.holds(x) and all((x in items) == bool(val) for items, val in among)]
                accepted |= set(ok)
                wrong = [x for x in ok if x != 2]
                if wrong:
                    w.bad('files of %d bit are accepted' % (8 * wrong[0]), last(p))
        if p.value[0] != 'tuple' or len(p.value[1]) != 2:
            y.und('result')
            continue
        rate, data = p.value[1]
        if not (rate[0] == 'call' and isinstance(rate[1], tuple) and rate[1][-1:] and rate[1][0] == 'extm' and rate[1][2] == 'getframerate'):
            if is_const(rate) or rate[0] == 'call' and isinstance(rate[1], tuple) and rate[1][0] == 'extm':
                y.bad('the rate is %s' % show(rate), last(p))
            else:
                y.und('rate')
        g = scaled(s, p, data, None, -1, None)
        if g is not None:
            layout(y, p, g.base)
    if n and w.v == 'ok' and 2 not in accepted:
        w.bad('16 bit files are refused', None)
    if not n:
        w.und('no path')
    for z in (w, y, s):
        z.done('%d paths' % n)


def members(t):
    """The constants a set, list or tuple consists of."""
    if t[0] == 'tuple':
        t = t[1]
    if all(isinstance(x, tuple) and x and is_const(x) for x in t):
        return {x[2] for x in t}
    return None


def method(e, name):
    return e.kind == 'call' and isinstance(e.fn, tuple) and e.fn[0] == 'extm' and e.fn[2] == name and not e.failed


def getter(t):
    t = strip(t)
    return t[1][2] if t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'extm' and not t[2] else None


def layout(y, p, t):
    ev = last(p)
    t = strip(t)
    if t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'extm' and t[1][2] == 'reshape':
        args = t[2][0][1] if len(t[2]) == 1 and t[2][0][0] == 'tuple' else t[2]
        inner = t[1][1]
    elif t[0] == 'call' and fname(t) == 'numpy.reshape' and len(t[2]) == 2 and t[2][1][0] == 'tuple':
        args, inner = t[2][1][1], t[2][0]
    else:
        y.und('arrangement: %s' % show(t))
        return
    if dict(t[3]) if t[3] else False:
        y.und('order')
        return
    if len(args) != 2:
        y.und('shape')
        return
    a, b = args
    if getter(b) == 'getnchannels':
        if not (a == C(-1) or getter(a) == 'getnframes'):
            y.und('shape')
    elif getter(a) == 'getnchannels' or getter(b) == 'getnframes':
        y.bad('frames and channels are swapped', ev)
    else:
        y.und('shape')
    inner = strip(inner)
    if fname(inner) != 'numpy.frombuffer' or not inner[2]:
        y.und('source: %s' % show(inner))
        return
    kw = dict(inner[3])
    dt = kw.get('dtype') or (inner[2][1] if len(inner[2]) > 1 else None)
    if dt is None:
        y.bad('the bytes are read as floats', ev)
    elif dtype_of(dt) is None:
        y.und('type %s' % show(dt))
    elif dtype_of(dt) != 'numpy.int16':
        y.bad('the bytes of 16 bit samples are read as %s' % show(dt), ev)
    for k in ('offset', 'count'):
        if k in kw and kw[k] not in (C(0), C(-1)):
            y.und(k)
    raw = strip(inner[2][0])
    if getter(raw) is None and not (raw[0] == 'call' and isinstance(raw[1], tuple) and raw[1][0] == 'extm' and raw[1][2] == 'readframes'):
        y.und('bytes')
        return
    arg = raw[2][0] if raw[2] else None
    if arg is None or not (arg == C(-1) or getter(arg) == 'getnframes'):
        if arg is not None and is_const(arg) and isinstance(arg[2], int) and arg[2] >= 0:
            y.bad('only %d frames are read' % arg[2], ev)
        else:
            y.und('number of frames')


def conv(g):
    return g.key in (W + 'convert_samples_to_float', W + 'convert_samples_to_int')


def calls(t, key):
    """Occurrences of calls of the function in a term, outermost first."""
    out = []
    if isinstance(t, tuple):
        if t[:1] == ('call',) and isinstance(t[1], tuple) and t[1][0] == 'func' and t[1][1] == key:
            out.append(t)
        for x in t:
            out += calls(x, key)
    return out


def crusher(ctx):
    v = V(ctx, 'scale', 'Bitcrusher')
    f = ctx.client('from klang.audio.effects import Bitcrusher\n\n\ndef client(x):\n    b = Bitcrusher(4)\n    b.input.set_value(x)\n    b.update()\n    return b.output.value\n')
    n = 0
    for p in ctx.run(ctx.interp(opaque=conv), f) or ():
        if p.raises:
            continue
        n += 1
        F, I = W + 'convert_samples_to_float', W + 'convert_samples_to_int'
        fs, is_ = calls(p.value, F), calls(p.value, I)
        if not fs and not is_:
            v.und('conversion')
        elif len(set(fs)) != 1 or len(set(is_)) != 1:
            v.bad('samples are converted %d times to integers and %d times back' % (len(set(is_)), len(set(fs))), last(p))
        elif strip(p.value) != fs[0] or strip(is_[0][2][0]) != ('sym', 'x'):
            v.und(show(p.value))
    if not n:
        v.und('no path')
    v.done()


def audio_file(ctx):
    v = V(ctx, 'scale', 'AudioFile')
    f = ctx.client('from klang.audio.sampling import AudioFile\n\n\ndef client(path, mono):\n    f = AudioFile(path, mono)\n    return f.sample.data\n')
    n = 0
    for p in ctx.run(ctx.interp(opaque=lambda g: g.key == W + 'load_wave' or conv(g)), f) or ():
        if p.raises:
            continue
        n += 1
        t = p.value
        if not calls(t, W + 'load_wave'):
            v.und('samples')
        again = calls(t, W + 'convert_samples_to_float') + calls(t, W + 'convert_samples_to_int')
        if again:
            v.bad('loaded samples are converted again', last(p))
    if not n:
        v.und('no path')
    v.done()


# ------------------------------------------------------------ playing
READ = '    return s.start, s.stop, s.currentIndex, s.length'
HEAD = 'from klang.audio.sampling import Sample\n\n\n'


class Ints(Sys):
    """Whole numbers: int() changes nothing."""

    def lin(self, t):
        if isinstance(t, tuple) and fname(t) == 'builtins.int' and len(t[2]) == 1:
            return self.lin(t[2][0])
        return super().lin(t)

    def copy(self):
        o = super().copy()
        o.__class__ = Ints
        return o


def before(ctx):
    f = ctx.client(HEAD + 'def client(s):\n' + READ + ', s.data\n')
    ps = [p for p in ctx.run(ctx.interp(), f, args=[ctx.obj(S, 's')]) or () if p.normal]
    return list(ps[0].value[1]) if len(ps) == 1 and ps[0].value[0] == 'tuple' else None


def assume(s, q):
    start, stop, cur, length = q[:4]
    s.le(0, start)
    s.lt(start, stop)
    s.le(stop, length)
    s.le(start, cur)
    s.le(cur, stop)


def holds(v, s, q, p):
    start, stop, cur, length = q
    for a, rel, b, text in ((C(0), '<=', start, 'the range starts before the samples'), (start, '<', stop, 'the range is empty'),
                            (stop, '<=', length, 'the range ends behind the samples'), (start, '<=', cur, 'the position is before the range'),
                            (cur, '<=', stop, 'the position is behind the range')):
        if not s.holds(rel, a, b):
            mod = modulo(a, b, rel, s)
            if mod:
                continue
            if s.exact(a, b) and mod is not False:
                v.bad('%s: %s %s %s' % (text, show(a), rel, show(b)), last(p))
            else:
                v.und('%s %s %s' % (show(a), rel, show(b)))


def split_mod(t):
    """rest + (u % d) -> (rest, u, d)."""
    m = poly(t)
    hit = [k for k in m if any(a[0] == 'op' and a[1] == '%' for a in k)]
    if len(hit) != 1 or len(hit[0]) != 1 or m[hit[0]] != 1.:
        return None
    a = hit[0][0]
    rest = {k: c for k, c in m.items() if k != hit[0]}
    return rest, a[2][0], a[2][1]


def modulo(a, b, rel, s):
    """0 <= u % d < d for a bound of a position of this kind; None: not of this kind."""
    for t, o, up in ((a, b, True), (b, a, False)):
        x = split_mod(t)
        if x is None:
            continue
        rest, u, d = x
        r = unpoly(rest)
        if not s.holds('<', C(0), d):
            return False
        ok = s.holds('<=', ('op', '+', (r, d)), o) if up else s.holds('<=', o, r)      # r <= r + (u % d) < r + d
        return ok or (None if ('sym', 'a') in leaves(u) else False)
    return None


def leaves(t):
    return {t} if t[0] in ('sym', 'fld') else {x for y in t if isinstance(y, tuple) and y for x in leaves(y)}


def unpoly(m):
    t = None
    for k, c in m.items():
        x = C(int(c)) if c == int(c) else C(c)
        for a in k:
            x = a if x == C(1) else ('op', '*', (x, a))
        t = x if t is None else ('op', '+', (t, x))
    return C(0) if t is None else t


def construct(ctx):
    v = V(ctx, 'inv', 'construction')
    f = ctx.client(HEAD + 'def client(rate, data, start, stop, loop):\n    s = Sample(rate, data, start, stop, loop)\n' + READ + '\n')
    n = 0
    for p in ctx.run(ctx.interp(), f) or ():
        if p.raises:
            continue
        if p.value[0] != 'tuple':
            v.und('result')
            continue
        n += 1
        s = Ints({p.value[1][3]: ('sym', '#length')})
        s.le(1, p.value[1][3])
        s.facts(p.facts)
        if s.sat():
            holds(v, s, p.value[1], p)
    if not n:
        v.und('no path')
    v.done('%d paths' % n)


def keeps(ctx, name, src):
    v = V(ctx, 'inv', name)
    pre = before(ctx)
    if pre is None:
        v.und('quantities')
        v.done()
        return
    f = ctx.client(HEAD + 'def client(s, a, b):\n' + src + READ + '\n')
    n = 0
    for p in ctx.run(ctx.interp(), f, args=[ctx.obj(S, 's'), ('sym', 'a'), ('sym', 'b')]) or ():
        if p.raises:
            continue
        s = Ints({pre[3]: ('sym', '#length')})
        assume(s, pre)
        if name == 'callback':
            s.le(0, ('sym', 'a'))
        s.facts(p.facts)
        if not s.sat():
            continue
        n += 1
        if p.value[0] != 'tuple':
            v.und('result')
            continue
        holds(v, s, p.value[1], p)
    if not n:
        v.und('no path')
    v.done('%d paths' % n)


def callback(ctx):
    v = V(ctx, 'play', 'callback')
    pre = before(ctx)
    if pre is None:
        v.und('quantities')
        v.done()
        return
    start, stop, cur, length, data = pre
    f = ctx.client(HEAD + 'def client(s, n):\n    return s.callback(n), s.currentIndex, s.loop\n')
    N = ('sym', 'n')
    end = ('op', '+', (cur, N))
    count = 0
    I = ctx.interp()
    for p in ctx.run(I, f, args=[ctx.obj(S, 's'), N]) or ():
        if p.raises:
            continue
        if p.value[0] != 'tuple':
            v.und('result')
            continue
        y, after, loop = p.value[1]
        base = Ints({length: ('sym', '#length')})
        assume(base, pre)
        base.le(1, N)
        base.facts(p.facts)
        looping = next((val for k, val in numbers(p).items() if k[0] == 'truthy' and k[1] == loop), None)
        for where, rel in (('inside', '<'), ('over', '<=')):
            s = base.copy()
            s.lt(end, stop) if where == 'inside' else s.le(stop, end)
            if not s.sat():
                continue
            count += 1
            if where == 'inside':
                straight(v, s, p, y, after, cur, end, data)
            else:
                if looping is not True:
                    if looping is False:
                        straight(v, s, p, y, after, cur, stop, data)
                    elif looping is None:
                        v.bad('the end of the range is treated the same with and without looping', last(p)) if plain_slice(y, data) else v.und('loop')
                if looping is True:
                    around(I, v, s, p, y, after, pre, N)
    if not count:
        v.und('no path')
    v.done('%d paths' % count)


def plain_slice(y, data):
    y = strip(y)
    if y[0] == 'idx' and y[1] == data and y[2][0] == 'op' and y[2][1] == 'slice' and y[2][2][2] in (NONE, C(1)):
        return y[2][2][:2]
    return None


def straight(v, s, p, y, after, lo, hi, data):
    b = plain_slice(y, data)
    if b is None:
        f = fancy(strip(y), data)
        if f is None:
            v.und(show(y))
        # an index expression modulo the range is judged where the range ends
        return
    for a, w, what in ((b[0], lo, 'starts at'), (b[1], hi, 'ends at')):
        if a == NONE:
            v.und('open slice')
        elif not s.holds('==', a, w):
            v.bad('what is played %s %s instead of %s' % (what, show(a), show(w)), last(p)) if s.exact(a) else v.und(show(a))
    if not s.holds('==', after, hi):
        v.bad('the position becomes %s instead of %s' % (show(after), show(hi)), last(p)) if s.exact(after) else v.und(show(after))


def fancy(y, data):
    """data[expression in arange(a, b)] -> (expression with k, first, number)."""
    if not (y[0] == 'idx' and y[1] == data or y[0] == 'call' and fname(y) == 'numpy.take' and y[2][0] == data):
        return None
    key = y[2] if y[0] == 'idx' else y[2][1]
    found = set()

    def rep(t):
        if isinstance(t, tuple):
            if t[:1] == ('call',) and fname(t) == 'numpy.arange' and t[2] and not t[3]:
                found.add(t)
                a = t[2][0] if len(t[2]) > 1 else C(0)
                return ('op', '+', (a, ('sym', '#k')))
            return tuple(rep(x) if isinstance(x, tuple) else x for x in t)
        return t
    out = rep(key)
    if len(found) != 1:
        return None
    ar = found.pop()
    if len(ar[2]) > 2:
        return None
    n = ar[2][0] if len(ar[2]) == 1 else ('op', '-', (ar[2][1], ar[2][0]))
    return out, n


def around(I, v, s, p, y, after, pre, N):
    start, stop, cur, length, data = pre
    ev = last(p)
    y = strip(y)
    period = ('op', '-', (stop, start))
    K = ('sym', '#k')
    f = fancy(y, data)
    if f is not None:
        e, n = f
        if not s.holds('==', n, N):
            v.bad('%s samples are played instead of %s' % (show(n), show(N)), ev) if s.exact(n) else v.und('number of samples')
        m = split_mod(e)
        if m is None:
            v.und('index %s' % show(e))
        else:
            ring(v, m, start, period, ('op', '+', (cur, K)), 'sample k played', ev, s)
        m = split_mod(after)
        end = ('op', '+', (cur, N))
        if m is None:
            once = s.copy()                              # the end is passed once
            once.lt(stop, end)
            once.lt(end, ('op', '+', (stop, period)))
            if once.exact(after) and once.sat() and once.excludes(after, ('op', '-', (end, period))):
                v.bad('the position becomes %s' % show(after), ev)
            else:
                v.und('position %s' % show(after))
        else:
            ring(v, m, start, period, end, 'the position afterwards', ev, s)
        return
    pieces = None
    if fname(y) in ('numpy.concatenate', 'numpy.append', 'numpy.hstack', 'numpy.vstack') and y[2]:
        pieces = y[2][0][1] if y[2][0][0] == 'tuple' else y[2] if fname(y) == 'numpy.append' else I.contents(y[2][0], p.st)
    elif plain_slice(y, data):
        pieces = [y]
    if pieces is None:
        v.und(show(y))
        return
    spans = [plain_slice(x, data) for x in pieces]
    if any(b is None or NONE in b for b in spans):
        v.und('pieces')
        return
    for lo, hi in spans:
        if s.exact(lo) and not s.holds('<=', start, lo):
            v.bad('samples before the range are played: %s' % show(lo), ev)
        if s.exact(hi) and not s.holds('<=', hi, stop):
            v.bad('samples behind the range are played: %s' % show(hi), ev)
    spans = [b for b in spans if not s.holds('<=', b[1], b[0])]
    if not spans:
        v.bad('nothing is played at the end of the range', ev)
        return
    lo, hi = spans[0]
    if not s.holds('==', lo, cur):
        v.bad('the first sample played is %s instead of %s' % (show(lo), show(cur)), ev) if s.exact(lo) else v.und(show(lo))
        return
    if not s.holds('==', hi, stop):
        v.und('first piece')
        return
    for lo, hi in spans[1:]:
        if not s.holds('==', lo, start):
            v.bad('playing continues with %s instead of the start' % show(lo), ev) if s.exact(lo) else v.und(show(lo))
            return
    v.und('number of samples')


def ring(v, m, start, period, want, what, ev, s):
    rest, u, d = m
    r = unpoly(rest)
    if not s.holds('==', d, period):
        v.bad('%s: wraps after %s instead of the length of the range' % (what, show(d)), ev) if s.exact(d) else v.und(show(d))
        return
    if not s.holds('==', r, start):
        v.bad('%s: wraps to %s instead of the start' % (what, show(r)), ev) if s.exact(r) else v.und(show(r))
        return
    off = ('op', '-', (want, start))
    if not s.holds('==', u, off) and not s.holds('==', u, ('op', '-', (off, period))):
        v.bad('%s is offset %s of the range instead of %s' % (what, show(u), show(off)), ev) if s.exact(u) else v.und(show(u))
