"""C11: what is sent over the network can be decoded."""
import ast

from ..core import V, clause
from ..engine import C, NONE, TRUE, is_const, show
from ..walk import Range, flat, subterm
from .c10 import EDGE, LEGAL, derived
from .c12 import may, segments

EXPLAIN = ('Composition of the two ends over symbolic values: what JsonCourier.send_object hands to the socket for a note, an array and any other value is '
           'taken apart down to the object given to the JSON encoder; that object is then fed, still symbolic, to the object hook the courier gives to its '
           'decoder, and what comes out must be the same note (each attribute from the same attribute), the same array (element bytes in element order, '
           'its dtype, its shape) or the very value. So writer and reader are compared with each other and not with a copy of the format.')
ASSUME = ['json and base64 are inverse to their own decoders', 'only valid notes exist (C10)', 'a JSON list for a tuple makes no difference to the reader']
MINIMUM = 4
NOTE = 'klang.messages.Note'
CLIENT = ('from klang.network import JsonCourier\n\n\ndef client(o):\n    c = JsonCourier((\'localhost\', 1234))\n    c.send_object(o)\n')


def check(ctx):
    r = ctx.rep
    r.rule('send', 'each object sent is encoded as text and handed to the socket once')
    r.rule('note', 'a note comes back with every attribute from the same attribute')
    r.rule('array', 'an array comes back with the same elements, dtype and shape')
    r.rule('other', 'other values pass through unchanged')
    r.rule('receive', 'what was received is decoded unchanged')
    note = ctx.obj(NOTE, 'n')
    clause(ctx, 'note', trip, 'Note', note, note_back)
    clause(ctx, 'array', trip, 'array', ('sym', 'o'), array_back)
    clause(ctx, 'other', trip, 'value', ('sym', 'o'), other_back)
    clause(ctx, 'other', hook_other)
    clause(ctx, 'send', blocks)
    clause(ctx, 'receive', receive)


# ------------------------------------------------------------------ sending
def sent(p):
    """Arguments of all sends on a path."""
    out = []
    for it in flat(p):
        e = it.ev
        if e.kind == 'call' and not e.inlined and e.fn[0] == 'extm' and e.fn[2] in ('sendto', 'send', 'sendall'):
            out.append((e, bool(it.loops)))
    return out


def payload(t, what=''):
    """What was serialised, given the bytes sent: (term, None) or (None, reason)."""
    n = 0
    if what == 'Note' and t[0] == 'call' and t[1][0] == 'extm' and t[1][2] == 'encode' and t[1][1][0] == 'call' and t[1][1][1] in (('ext', 'json.dumps'), 'json.dumps') \
            and not any(k == 'cls' for k, _ in t[1][1][3]):
        return t[1][1][2][0], None               # a default function is never asked about a tuple
    while n < 8:
        n += 1
        if t[0] == 'call' and t[1][0] == 'extm' and t[1][2] == 'encode' and not t[2] and not t[3]:
            t = t[1][1]
        elif t[0] == 'call' and t[1][0] == 'extm' and t[1][2] == 'encode' and len(t[2]) == 1 and is_const(t[2][0]) and 'utf' in str(t[2][0][2]).lower():
            t = t[1][1]
        elif t[0] == 'call' and t[1] in (('ext', 'builtins.bytes'), 'builtins.bytes') and t[2]:
            t = t[2][0]
        elif t[0] == 'call' and t[1] in (('ext', 'json.dumps'), 'json.dumps') and len(t[2]) == 1 and not any(k in ('cls', 'default') for k, _ in t[3]):
            return t[2][0], None
        elif t[0] == 'call' and t[1][0] == 'extm' and t[1][2] == 'encode' and len(t[2]) == 1 and (
                t[1][1][0] in ('super', 'call', 'ext', 'obj')):
            return t[2][0], None
        elif t[0] == 'call' and t[1][0] in ('extm', 'ext') and t[1][-1].endswith('encode') and len(t[2]) == 2:
            return t[2][1], None
        else:
            return None, show(t)
    return None, show(t)


def cut(t):
    """A part of a string of bytes or text."""
    n = 0
    while n < 8:
        n += 1
        if t[0] == 'idx' and t[2][0] == 'op' and t[2][1] == 'slice' and any(x != NONE for x in t[2][2]):
            return True
        if t[0] == 'call' and t[1][0] == 'extm' and t[1][2] == 'encode' and not (len(t[2]) == 1 and not is_const(t[2][0])):
            t = t[1][1]
        else:
            return False
    return False


def charset(t):
    """Charset bytes were made with or are read with."""
    if t[0] == 'call' and t[1][0] == 'extm' and t[1][2] in ('encode', 'decode'):
        a = dict(t[3]).get('encoding', t[2][0] if t[2] else C('utf-8'))
        if is_const(a) and isinstance(a[2], str):
            return a[2].lower().replace('_', '-').replace('utf8', 'utf-8').replace('utf16', 'utf-16').replace('utf32', 'utf-32')
    return None


def plain_charset(c):
    """JSON text is plain ASCII, these charsets agree on that."""
    return c in ('utf-8', 'ascii', 'us-ascii', 'latin-1', 'latin1', 'iso-8859-1', 'cp1252')


READ = "from klang.network import JsonCourier\n\n\ndef client():\n    c = JsonCourier(('localhost', 1234), bind=True)\n    for x in c.receive_objects():\n        print(x)\n"
RECV = ('recv', 'recvfrom', 'recv_into', 'recvmsg')


def texts(ctx):
    """What is done to the received bytes and the text made of them: (call term, event)."""
    I = ctx.interp(may_raise=may)
    for p in ctx.run(I, ctx.client(READ)) or []:
        for e in (e for es in segments(p) for e in es):
            if e.kind == 'call' and not e.inlined and e.fn[0] == 'extm' and received(e.fn[1]) and e.failed is None:
                yield ('call', e.fn, tuple(e.args), tuple(e.kwargs), None), e


def received(t):
    if not isinstance(t, tuple):
        return False
    if t[:1] == ('call',) and isinstance(t[1], tuple) and t[1][0] == 'extm' and t[1][2] in RECV:
        return True
    return any(received(x) for x in t if isinstance(x, tuple))


def charsets(ctx):
    out = set()
    for t, e in texts(ctx):
        if meth(t) == 'decode':
            out.add(charset(t))
    return out


CHANGE = ('lower', 'upper', 'title', 'swapcase', 'capitalize', 'casefold', 'replace', 'translate', 'zfill', 'center', 'ljust', 'rjust', 'expandtabs')


def receive(ctx):
    """The text is decoded as it was received, by a decoder which keeps numbers."""
    v = V(ctx, 'receive', 'JsonCourier.receive_objects')
    n = 0
    for t, e in texts(ctx):
        n += 1
        if meth(t) in CHANGE:
            v.bad('the text received is changed by %s before it is decoded' % meth(t), e)
    f = ctx.client("from klang.network import JsonCourier\n\n\ndef client():\n    return JsonCourier(('localhost', 1234))\n")
    for p in ctx.run(ctx.interp(), f) or []:
        for e in p.events:
            if e.kind == 'call' and e.fn == ('ext', 'json.JSONDecoder'):
                n += 1
                for k, x in e.kwargs:
                    if k in ('parse_float', 'parse_int') and x[0] == 'ext' and x[1].startswith('builtins.') and x[1] != 'builtins.' + k[6:]:
                        v.bad('numbers are decoded with %s' % x[1][9:], e)
    if not n:
        v.und('no decoding')
    v.done('%d places' % n)


def hook_of(p):
    for e in p.events:
        if e.kind == 'call' and e.fn == ('ext', 'json.JSONDecoder'):
            h = dict(e.kwargs).get('object_hook')
            return h if h is not None else e.args[0] if e.args else NONE
    return None


def trip(ctx, what, obj, back):
    v = V(ctx, {'Note': 'note', 'array': 'array'}.get(what, 'other'), what)
    f = ctx.client(CLIENT)
    I = ctx.interp()
    ps = ctx.run(I, f, args=[obj])
    seen = 0
    readers = charsets(ctx)
    for p in ps or []:
        kind = kind_of(p, obj)
        if kind != what:
            continue
        if p.raises:
            v.bad('sending raises %s' % show(p.out[1]), where(p))
            continue
        s = sent(p)
        if not s:
            v.bad('nothing is handed to the socket', where(p))
            continue
        if len(s) > 1 or s[0][1]:
            v.und('several sends')
            continue
        data = s[0][0].args[0] if s[0][0].args else NONE
        if cut(data):
            v.bad('only a part of the text is sent', s[0][0])
            continue
        c = charset(data)
        if c and not plain_charset(c) and readers and all(r and r != c for r in readers):
            v.bad('the text is sent as %s and read as %s' % (c, sorted(readers)[0]), s[0][0])
        t, why = payload(data, what)
        if t is None:
            v.und('payload %s' % why)
            continue
        h = hook_of(p)
        if h is None:
            v.und('no decoder')
            continue
        if h == NONE and what != 'value':
            v.bad('the decoder has no object hook', s[0][0])
        if h == NONE:
            continue
        seen += 1
        back(ctx, I, v, p, obj, t, h, s[0][0])
    if not seen:
        v.und('nothing sent')
    v.done('%d ways' % seen)


def kind_of(p, obj):
    if obj[0] == 'obj':
        return 'Note'
    kind = 'value'
    for k, val in p.facts.items():
        if k[0] == 'isinst' and k[1] == obj and val:
            kind = 'array' if 'ndarray' in str(k[2]) else 'Note'
    return kind


def where(p):
    e = next((e for e in reversed(p.events) if e.kind in ('call', 'raise') and e.func is not None and not e.func.key.startswith('#')), None)
    if p.raises and len(p.out) > 3 and p.out[3] is not None:
        n = p.out[2]
        return (p.out[3].mod.path + ':%d' % n.lineno) if n is not None and hasattr(p.out[3].mod, 'path') else p.out[3].where
    return e.where if e is not None else ''


# ------------------------------------------------------------------ a note
def note_back(ctx, I, v, p, obj, t, h, ev):
    if t == obj:
        v.bad('a note is encoded like a plain tuple, without its type', ev.where)
        return
    if I.dict_items(t, p.st) is None:
        v.und('payload %s' % show(t))
        return
    for q in decode(ctx, I, h, t, p):
        if strange(q, p, I):
            v.und('depends on something that is not followed')
            continue
        legal = possible(q, obj)
        if legal is None:
            v.und('conditions')
            continue
        if not legal:
            continue
        if q.raises:
            v.bad('decoding what was sent for a valid note raises %s' % show(q.out[1]), where(q) or ev.where)
            continue
        m = q.value
        if m[0] != 'obj' or m[1] != NOTE:
            if m == t or m[0] in ('cont', 'tuple', 'const'):
                v.bad('a note comes back as %s' % show(m), where(q) or ev.where)
            else:
                v.und('comes back as %s' % show(m))
            continue
        for fld in LEGAL:
            got = q.st.heap.get((m, fld))
            if m == obj or got == ('fld', obj, fld, 0):
                continue
            if got is None:
                v.und(fld)
                continue
            got = plain(got, fld)
            if got == ('fld', obj, fld, 0):
                continue
            if got[0] == 'fld' and got[1] == obj:
                v.bad('%s comes back from %s' % (fld, got[2]), where(q) or ev.where)
            elif is_const(got) or derived(got):
                if fld == 'frequency' and no_frequency(q, obj):
                    continue
                v.bad('%s comes back as %s' % (fld, show(got)), where(q) or ev.where)
            elif got[0] == 'call' and got[1] in ('builtins.round', ('ext', 'builtins.round')) or got[0] == 'op':
                v.bad('%s comes back as %s' % (fld, show(got)), where(q) or ev.where)
            elif got[0] == 'call' and got[1] in ('builtins.int', ('ext', 'builtins.int')):
                v.bad('%s comes back as %s' % (fld, show(got)), where(q) or ev.where)
            else:
                v.und('%s is %s' % (fld, show(got)))


def plain(t, fld):
    """Strip conversions that keep the value."""
    while t[0] == 'call' and (t[1] in ('builtins.float', ('ext', 'builtins.float')) or fld == 'pitch' and t[1] in ('builtins.int', ('ext', 'builtins.int'))) \
            and len(t[2]) == 1:
        t = t[2][0]
    return t


def no_frequency(q, obj):
    return any(k[0] == 'eq' and k[1] == NONE and k[2] == ('fld', obj, 'frequency', 0) and val for k, val in q.facts.items())


def strange(q, p, I):
    """Tests while decoding whose outcome is not known from what was sent."""
    return any(k not in p.facts and outside(k) for k in q.facts)


def outside(t):
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 'glob' and not (len(t) > 2 and 'TEMPERAMENT' in str(t[2])):
        return True
    return any(outside(x) for x in t)


def possible(q, obj):
    """Can the path be taken for a valid note? None: cannot say."""
    for fld, ok in LEGAL.items():
        t = ('fld', obj, fld, 0)
        if fld == 'frequency' and no_frequency(q, obj):
            return False
        r = Range(t, q.facts)
        vals = [x for x in r.samples(EDGE[fld]) if ok(x)]
        if fld == 'pitch':                            # documented as integers
            vals = [x for x in vals if not 127 < x < 128]
        if not vals:
            return False
        if r.odd and q.raises:
            return None
    for k, val in q.facts.items():
        for t in k[1:3]:
            if isinstance(t, tuple) and t and derived(t) and not any(LEGAL['frequency'](x) for x in Range(t, q.facts).samples((0,))):
                return False
    return True


def decode(ctx, I, h, t, p):
    return ctx.value(I, h, (t,), (), p.st)


# ------------------------------------------------------------------ an array
def array_back(ctx, I, v, p, obj, t, h, ev):
    if t == obj:
        v.bad('an array is given to JSON as it is', ev.where)
        return
    if I.dict_items(t, p.st) is None:
        v.und('payload %s' % show(t))
        return
    for q in decode(ctx, I, h, t, p):
        if strange(q, p, I):
            v.und('depends on something that is not followed')
            continue
        if q.raises:
            if q.facts != p.facts:
                v.und('raises under conditions')
            else:
                v.bad('decoding what was sent for an array raises %s' % show(q.out[1]), where(q) or ev.where)
            continue
        m = q.value
        if m == t or m[0] in ('cont', 'const'):
            v.bad('an array comes back as %s' % show(m), where(q) or ev.where)
            continue
        a = array_form(m, q.st, I)
        if a is None:
            v.und('comes back as %s' % show(m))
            continue
        data, dtype, shape, order = a
        at = where(q) or ev.where
        raw = elements(data, obj)
        if raw is None:
            v.und('elements %s' % show(data))
        elif raw not in (True, order):
            v.bad('the bytes sent for the elements are %s, in an order that is not that of the elements read' % show(data), at)
        if dtype is None or is_const(dtype) and dtype != NONE or dtype == NONE:
            v.bad('the dtype comes back as %s' % (show(dtype) if dtype else 'the default'), at)
        elif dtype[0] == 'fld' and dtype[1] == ('fld', obj, 'dtype', 0) and dtype[2] in ('kind', 'itemsize', 'num', 'alignment', 'byteorder', 'name', 'char', 'type') or cut(dtype) and \
                is_dtype(dtype[1], obj):
            v.bad('the dtype is only sent in part', at)
        elif dtype[0] == 'fld' and dtype[1] == obj and dtype[2] != 'dtype':
            v.bad('the dtype is taken from %s' % dtype[2], at)
        elif not is_dtype(dtype, obj):
            if is_shape(dtype, obj):
                v.bad('the dtype is taken from the shape', at)
            else:
                v.und('dtype %s' % show(dtype))
        if shape is None:
            v.bad('the shape is not restored', at)
        elif is_const(shape) or shape[0] == 'fld' and shape[1] == obj and shape[2] in ('size', 'ndim', 'nbytes', 'dtype', 'strides') or \
                shape[0] == 'call' and shape[1] in ('builtins.len', ('ext', 'builtins.len')):
            v.bad('the shape comes back as %s' % show(shape), at)
        elif cut(shape) and is_shape(shape[1], obj):
            v.bad('the shape comes back as a slice of the shape', at)
        elif not is_shape(shape, obj):
            v.und('shape %s' % show(shape))
        for k, x in I.dict_items(t, p.st):
            if x == ('fld', obj, 'dtype', 0) or x == obj:
                v.bad('the field %s is %s, which JSON can not encode' % (show(k), show(x)), ev.where)
            elif is_bytes(x):
                v.bad('the field %s is a byte string, which JSON can not encode' % show(k), ev.where)


def fname(t):
    if t[0] != 'call':
        return None
    f = t[1]
    if isinstance(f, str):
        return f
    return f[1] if f[0] == 'ext' else None


def meth(t):
    return t[1][2] if t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'extm' else None


def is_bytes(t):
    return fname(t) in ('base64.b64encode', 'base64.standard_b64encode', 'base64.urlsafe_b64encode')


def kwarg(t, name, pos):
    kw = dict(t[3])
    if name in kw:
        return kw[name]
    return t[2][pos] if len(t[2]) > pos else None


def array_form(t, st, I):
    """(data, dtype, shape, order) of a reconstructed array."""
    shape = None
    order = 'C'
    wrapped = 0
    while wrapped < 6:
        wrapped += 1
        if shape is None and st.heap.get((t, 'shape')) is not None:
            shape = st.heap[(t, 'shape')]
        if meth(t) == 'astype':
            t = t[1][1]
            continue
        if meth(t) == 'reshape':
            if shape is None:
                a = t[2]
                if len(a) == 1:
                    shape = a[0][1] if a[0][0] == 'star' else a[0]
                elif a:
                    return None
            o = dict(t[3]).get('order')
            if o is not None:
                if not is_const(o):
                    return None
                order = o[2]
            t = t[1][1]
        elif fname(t) == 'numpy.reshape' and len(t[2]) == 2 and not t[3]:
            shape = shape or t[2][1]
            t = t[2][0]
        elif meth(t) in ('copy',) or fname(t) in ('numpy.array', 'numpy.copy', 'numpy.ascontiguousarray'):
            t = t[1][1] if meth(t) == 'copy' else t[2][0]
        else:
            break
    if fname(t) in ('numpy.frombuffer', 'numpy.fromstring'):
        return kwarg(t, 'buffer', 0), kwarg(t, 'dtype', 1), shape, order
    if fname(t) == 'numpy.ndarray':
        return kwarg(t, 'buffer', 2), kwarg(t, 'dtype', 1), shape or kwarg(t, 'shape', 0), order
    return None


CODECS = {'base64.b64decode': ('base64.b64encode', 'base64.standard_b64encode'), 'base64.standard_b64decode': ('base64.b64encode', 'base64.standard_b64encode'),
          'base64.urlsafe_b64decode': ('base64.urlsafe_b64encode',), 'base64.b85decode': ('base64.b85encode',), 'base64.b32decode': ('base64.b32encode',),
          'binascii.a2b_base64': ('binascii.b2a_base64', 'base64.b64encode'), 'binascii.unhexlify': ('binascii.hexlify',)}


def text(t):
    """Strip conversions between str and bytes."""
    while meth(t) in ('decode', 'encode') or fname(t) in ('builtins.str', 'builtins.bytes', 'builtins.bytearray') and t[2]:
        t = t[1][1] if meth(t) else t[2][0]
    return t


def elements(t, obj):
    """True: bytes of the elements in C order; 'F': in Fortran order; 'memory': as they lie in memory; False: garbled; None: unknown."""
    t = text(t)
    f = fname(t)
    if f in CODECS and t[2]:
        inner = text(t[2][0])
        if fname(inner) is None or not inner[2]:
            return None
        if fname(inner) in CODECS[f]:
            t = text(inner[2][0])
        elif fname(inner).startswith(('base64.', 'binascii.')):
            return False
        else:
            return None
    if f and f.startswith(('base64.', 'binascii.')) and 'encode' in f:
        return False
    return raw(t, obj)


def raw(t, obj):
    if t[0] == 'fld' and t[2] == 'data':
        if t[1] == obj:
            return 'memory'
        if fname(t[1]) == 'numpy.ascontiguousarray' and t[1][2][:1] == (obj,) and len(t[1][2]) == 1:
            return 'C'
        if meth(t[1]) in ('flatten', 'ravel', 'copy') and t[1][1][1] == obj and not t[1][2] and not t[1][3]:
            return 'C'
        return None
    if meth(t) in ('tobytes', 'tostring'):
        b = t[1][1]
        if b == ('fld', obj, 'T', 0) and not t[2] and not t[3]:
            return 'F'
        if cut(b):
            return False
        if meth(b) == 'astype' and b[1][1] == obj and b[2] and (is_const(b[2][0]) or b[2][0][0] == 'ext'):
            return False
        if (meth(b) in ('ravel', 'flatten') and b[1][1] == obj and not b[2] or fname(b) == 'numpy.ravel' and b[2] == (obj,)) and not b[3]:
            b = obj
        o = kwarg(t, 'order', 0)
        if b == obj or fname(b) == 'numpy.ascontiguousarray' and b[2][:1] == (obj,):
            if o is None:
                return 'C'
            if is_const(o):
                return {'C': 'C', 'F': 'F', None: 'C'}.get(o[2], 'memory')
    if fname(t) == 'numpy.ascontiguousarray' and t[2][:1] == (obj,):
        return 'C'
    if t == obj:
        return 'memory'
    return None


def is_dtype(t, obj):
    d = ('fld', obj, 'dtype', 0)
    while True:
        if t == d:
            return True
        if fname(t) in ('builtins.str', 'numpy.dtype') and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == 'fld' and t[1] == d and t[2] in ('str', 'descr'):
            return True
        else:
            return False


def is_shape(t, obj):
    while fname(t) in ('builtins.list', 'builtins.tuple') and len(t[2]) == 1:
        t = t[2][0]
    return t == ('fld', obj, 'shape', 0) or fname(t) == 'numpy.shape' and t[2][:1] == (obj,) or t[0] == 'cont'


# ------------------------------------------------------------------ anything else
def other_back(ctx, I, v, p, obj, t, h, ev):
    if t == obj:
        return
    if is_const(t) or t[0] in ('cont', 'fld', 'tuple') and not subterm(t, obj):
        v.bad('a value of another type is sent as %s' % show(t), ev.where)
    elif fname(t) in ('builtins.str', 'builtins.repr', 'builtins.ascii', 'builtins.bool') and t[2] == (obj,):
        v.bad('a value of another type is sent as text', ev.where)
    else:
        v.und('payload %s' % show(t))


TAGS = ('Note', 'ndarray')


def hook_other(ctx):
    """The hook returns the very object for any other tag."""
    v = V(ctx, 'other', 'object hook')
    f = ctx.client('from klang.network import JsonCourier\n\n\ndef client():\n    return JsonCourier((\'localhost\', 1234))\n')
    I = ctx.interp()
    hs = {hook_of(p) for p in ctx.run(I, f) or [] if p.normal}
    n = 0
    for h in hs - {None}:
        if h[0] not in ('func', 'bound', 'obj'):
            v.und('hook %s' % show(h))
            continue
        I = ctx.interp(lookup_raises=True)
        d = ('sym', 'd')
        for q in ctx.value(I, h, (d,)):
            tagged = [k for k, val in q.facts.items() if val and k[0] in ('eq', 'inset', 'in') and any('type' in show(x) for x in k[1:3] if isinstance(x, tuple) and x and isinstance(x[0], str))]
            if tagged:
                continue
            n += 1
            if q.raises:
                e = next((e for e in reversed(q.events) if e.kind == 'raise'), None)
                if q.out[1] == ('exc', ('ext', 'builtins.KeyError'), ()) and not q.facts and isinstance(q.out[2], ast.Subscript) and isinstance(q.out[2].slice, ast.Constant):
                    v.bad('an object without a type raises KeyError', where(q))
                else:
                    v.und('raises %s' % show(q.out[1]))
            elif q.value != d:
                if is_const(q.value) or q.value[0] == 'obj':
                    v.bad('an object without a known tag comes back as %s' % show(q.value), where(q))
                else:
                    v.und('comes back as %s' % show(q.value))
    if not n:
        v.und('hook')
    v.done('%d ways' % n)


# ------------------------------------------------------------------ the blocks send what they have
def blocks(ctx):
    for name, src, want in (
            ('NetworkOut', 'b.update()', 'value'), ('NetworkMessageOut', 'b.update()', 'messages')):
        v = V(ctx, 'send', name)
        f = ctx.client('from klang.network import %s\n\n\ndef client():\n    b = %s((\'localhost\', 1234))\n    x = b.input\n    m = %s\n    %s\n    return x, m\n' % (
            name, name, 'x.value' if want == 'value' else 'x', src))
        I = ctx.interp(opaque=lambda g: g.name in ('encode', 'array_to_dict', 'to_json', 'get_value', 'receive'))
        n = 0
        for p in ctx.run(I, f) or []:
            if p.raises:
                v.und('raises %s' % show(p.out[1]))
                continue
            s = sent(p)
            n += 1
            if want == 'value':
                if not s:
                    v.bad('the value of the input is not sent', f.where)
                elif len(s) > 1 or s[0][1]:
                    v.und('several sends')
                else:
                    continue
            else:
                loops = [it for it in flat(p) if it.ev.kind == 'loop' and 'receive' in show(it.ev.iter)]
                if not s and loops and any(lp.paths for lp in (it.ev for it in loops)) and not any(sends(q) for it in loops for q in it.ev.paths):
                    v.bad('received messages are not sent', f.where)
        if not n:
            v.und('update')
        v.done('%d paths' % n)


def sends(p):
    return bool(sent(p))
