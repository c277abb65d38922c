"""What is known about numpy arrays: which terms are arrays, which are new memory and which look at the memory of another array."""
from .engine import is_const

NEW = set('zeros ones full empty arange linspace logspace geomspace array copy zeros_like ones_like full_like empty_like concatenate stack '
          'vstack hstack dstack column_stack tile repeat fromfunction fromiter eye identity cumsum cumprod diff convolve interp roll pad '
          'append insert delete outer meshgrid hanning hamming blackman fromstring fromfile loadtxt'.split())
ELEMENTWISE = set('sin cos tan tanh sinh cosh exp exp2 expm1 log log2 log10 log1p sqrt square abs absolute fabs sign floor ceil rint round around trunc clip '
                  'add subtract multiply divide true_divide floor_divide power float_power mod remainder fmod negative maximum minimum fmax fmin where '
                  'nan_to_num arctan arctan2 arcsin arccos hypot heaviside sinc cbrt reciprocal unwrap greater less equal logical_and logical_or '
                  'logical_not isnan isfinite deg2rad rad2deg'.split())
BINARY = set('add subtract multiply divide true_divide floor_divide power float_power mod remainder fmod maximum minimum fmax fmin arctan2 hypot heaviside '
             'greater less equal logical_and logical_or'.split())
"""Functions of two arrays; a third argument receives the result."""
UNARY = set('sin cos tan tanh sinh cosh exp exp2 expm1 log log2 log10 log1p sqrt square absolute abs fabs sign floor ceil rint trunc negative arctan arcsin arccos cbrt '
            'reciprocal isnan isfinite logical_not deg2rad rad2deg'.split())
VIEWS = set('asarray asanyarray atleast_1d atleast_2d atleast_3d reshape ravel squeeze transpose swapaxes expand_dims frombuffer ascontiguousarray '
            'rollaxis moveaxis flip fliplr flipud rot90 diagonal real imag require asfarray asfortranarray'.split())
METHOD_VIEWS = set('reshape ravel view squeeze transpose swapaxes diagonal __getitem__'.split())
METHOD_NEW = set('copy flatten cumsum cumprod clip round repeat dot conj conjugate take compress __copy__ __deepcopy__ byteswap'.split())
ATTR_VIEWS = set('T flat real imag'.split())
METHOD_INPLACE = set('fill sort partition put itemset resize byteswap'.split())
"""Methods of an array which change it (byteswap only with inplace=True)."""
FUNC_INPLACE = {'copyto': 0, 'put': 0, 'place': 0, 'putmask': 0, 'fill_diagonal': 0, 'put_along_axis': 0, 'shuffle': 0}
READONLY = {'broadcast_to'}


def numpy_name(fn):
    """Name of the numpy function called, or None."""
    if isinstance(fn, tuple) and fn and fn[0] == 'ext':
        fn = fn[1]
    if isinstance(fn, str) and fn.startswith(('numpy.', 'np.')):
        return fn.split('.', 1)[1]
    return None


def kwarg(kwargs, name):
    items = kwargs.items() if isinstance(kwargs, dict) else kwargs or ()
    for k, v in items:
        if k == name:
            return v
    return None


def is_call(t):
    return isinstance(t, tuple) and bool(t) and t[0] == 'call'


def method(fn):
    """(receiver, name) of a call of a method of an unknown object."""
    if isinstance(fn, tuple) and fn and fn[0] == 'extm':
        return fn[1], fn[2]
    return None


def truth(t):
    return bool(t[2]) if is_const(t) else None


def step(t):
    """('new', ()) | ('view', base) | ('maybe', base) new or view | ('readonly', ()) | ('scalar', ()) | None when not known to be an array."""
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == 'const':
        return 'scalar', ()
    if t[0] == 'op':
        if t[1] == 'slice':
            return None
        return ('new', ()) if any(arrayish(x) for x in t[2]) else None
    if t[0] == 'cmp':
        return ('new', ()) if any(arrayish(x) for x in t[2:]) else None
    if t[0] == 'idx':
        return ('view', t[1]) if arrayish(t[1]) and basic(t[2]) else ('new', ()) if arrayish(t[1]) and advanced(t[2]) else None
    if t[0] == 'elem':
        return ('view', t[1]) if arrayish(t[1]) else None
    if t[0] == 'fld':
        return ('view', t[1]) if t[2] in ATTR_VIEWS and arrayish(t[1]) else None
    if t[0] == 'extm' and t[2] in ATTR_VIEWS and arrayish(t[1]):
        return 'view', t[1]
    if t[0] != 'call':
        return None
    fn, args, kw = t[1], t[2], t[3]
    n = numpy_name(fn)
    out = kwarg(kw, 'out')
    if n is not None:
        tail = n.rsplit('.', 1)[-1]
        if out is not None and out != ('const', 'NoneType', None):
            return 'view', out
        if tail in READONLY:
            return 'readonly', ()
        if n.startswith('random.'):
            return ('new', ()) if args or kw else None
        if tail == 'array':
            c = kwarg(kw, 'copy')
            if c is not None and truth(c) is not True and args:
                return 'maybe', args[0]
            return 'new', ()
        if tail in NEW:
            return 'new', ()
        if tail in ELEMENTWISE:
            if tail == 'nan_to_num' and kwarg(kw, 'copy') is not None and args:
                return 'maybe', args[0]
            return ('new', ()) if any(arrayish(x) for x in args) else None
        if tail in VIEWS and args:
            if arrayish(args[0]):
                return 'view', args[0]
            if args[0][0] == 'cont' or args[0][0] == 'tuple':
                return 'new', ()
            return 'maybe', args[0]
        return None
    m = method(fn)
    if m and arrayish(m[0]):
        if m[1] in METHOD_VIEWS:
            return 'view', m[0]
        if m[1] in METHOD_NEW:
            return 'new', ()
        if m[1] == 'astype':
            c = kwarg(kw, 'copy')
            return ('maybe', m[0]) if c is not None and truth(c) is not True else ('new', ())
    return None


def arrayish(t):
    s = step(t)
    return s is not None and s[0] != 'scalar'


def basic(key):
    """Does indexing with this key look at the memory of the array?"""
    if key[0] == 'op' and key[1] == 'slice':
        return True
    if key == ('const', 'NoneType', None) or key == ('const', 'ellipsis', Ellipsis) or is_const(key) and key[2] is Ellipsis:
        return True
    if key[0] == 'tuple':
        return any(basic(k) for k in key[1]) and all(basic(k) or is_const(k) or k[0] == 'sym' for k in key[1])
    return False


def advanced(key):
    if key[0] == 'cont':
        return True
    return arrayish(key) or key[0] == 'tuple' and any(advanced(k) for k in key[1])
