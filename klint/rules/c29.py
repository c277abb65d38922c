"""C29: the music data tables are well formed."""
import ast
import math
import os
import re
from fractions import Fraction

from ..core import V, clause
from ..engine import C, NONE, is_const, show
from ..lin import fname
from ..walk import Range, flat, subterm

EXPLAIN = ('Every row of every data file is judged (names unique, scales add up to an octave, chords rise from their root, tunings rise inside an octave, '
           'intervals are at least one), as are the constant tables of the modules. The code between the files and the tables is followed: each row becomes '
           'the entry of its name, unfiltered, a scale is encoded and decoded by the same code, dotting and tuning follow their formulas for every note '
           'and every pitch of the MIDI range.')
ASSUME = ['the random temperament is exempt', 'entries of tables are read with the numbers of the files taken as decimal or rational']
MINIMUM = 6
TECHNIQUE = 'lint of the data files and constant tables; path and formula analysis of the loading and converting code'
DATA = ('klang', 'music', 'data')
# Chords whose numbers count from the key and not from their own root.
FROM_KEY = {'neapolitan chord', 'northern lights chord'}
TABLES = {'scales.csv': ('klang.music.scales', 'KNOWN_SCALES'), 'chords.csv': ('klang.music.chords', 'CHORDS'),
          'intervals.csv': ('klang.music.intervals', 'INTERVALS'), 'tunings.csv': ('klang.music.tunings', 'TEMPERAMENTS')}
PLAIN = {'LARGE': 8, 'LONG': 4, 'DOUBLE_WHOLE': 2, 'WHOLE': 1, 'HALF': Fraction(1, 2), 'QUARTER': Fraction(1, 4), 'EIGHT': Fraction(1, 8),
         'SIXTEENTH': Fraction(1, 16), 'THIRTY_SECOND': Fraction(1, 32), 'SIXTY_FOURTH': Fraction(1, 64), 'HUNDRED_TWENTY': Fraction(1, 128),
         'TWO_HUNDRED_FIFTY_SIXTH': Fraction(1, 256)}
DOTS = (('TRIPLE_DOTTED_', Fraction(15, 8)), ('DOUBLE_DOTTED_', Fraction(7, 4)), ('DOTTED_', Fraction(3, 2)))
OCTAVE = 12


def check(ctx):
    r = ctx.rep
    r.rule('names', 'no name appears twice in a table')
    r.rule('row', 'every row has the form of its table')
    r.rule('load', 'every row becomes the entry of its name')
    r.rule('code', 'scales are encoded and decoded alike')
    r.rule('constant', 'the note value constants and the constant tunings are well formed')
    r.rule('formula', 'dotting, inverting, tuning and note names follow their formulas')
    for name in TABLES:
        clause(ctx, 'row', rows, name)
        clause(ctx, 'load', loader, name)
    clause(ctx, 'load', parser)
    clause(ctx, 'code', encode)
    clause(ctx, 'code', decode)
    clause(ctx, 'constant', note_values)
    clause(ctx, 'constant', temperaments)
    clause(ctx, 'formula', dots)
    clause(ctx, 'formula', inversions)
    clause(ctx, 'formula', pitches)
    clause(ctx, 'formula', note_names)


# --- the data files --------------------------------------------------------
def number(s):
    try:
        return Fraction(s.strip())
    except (ValueError, ZeroDivisionError):
        return None


def scale_row(vs):
    if any(v <= 0 or v.denominator != 1 for v in vs):
        return 'has a step that is not a positive number of semitones'
    if sum(vs) != OCTAVE:
        return 'adds up to %s semitones' % sum(vs)


def chord_row(vs):
    if vs[0] != 0:
        return 'does not start at its root'
    return chord_rises(vs)


def chord_rises(vs):
    if any(v.denominator != 1 for v in vs):
        return 'contains a note that is not a whole number of semitones'
    if any(b <= a for a, b in zip(vs, vs[1:])):
        return 'does not rise'


def interval_row(vs):
    if len(vs) != 1:
        return 'has %d ratios' % len(vs)
    if vs[0] < 1:
        return 'is smaller than one'


def tuning_row(vs):
    if len(vs) != OCTAVE:
        return 'has %d values' % len(vs)
    if any(b <= a for a, b in zip(vs, vs[1:])):
        return 'does not rise'
    if vs[-1] - vs[0] >= 1200 or vs[0] < 0 or vs[-1] >= 1200:
        return 'leaves the octave'


FORM = {'scales.csv': scale_row, 'chords.csv': chord_row, 'intervals.csv': interval_row, 'tunings.csv': tuning_row}


def rows(ctx, name):
    path = os.path.join(ctx.prog.root, *DATA, name)
    v, n = V(ctx, 'row', name), V(ctx, 'names', name)
    if not os.path.exists(path):
        v.und('no such file')
        v.done('')
        return
    seen, bad = {}, 0
    lines = open(path, encoding='utf-8').read().splitlines()
    rel = 'klang/music/data/%s' % name
    for i, line in enumerate(lines, 1):
        key, *cells = line.split(',')
        where = '%s:%d' % (rel, i)
        final = key.title().strip() if name == 'tunings.csv' else key
        if not final:
            w = V(ctx, 'row', '%s: row %d' % (name, i))
            w.bad('the row has no name', where)
            w.done('')
        if final in seen:
            w = V(ctx, 'names', '%s: %s' % (name, final))
            w.bad('the name is also that of line %d, whose entry is lost' % seen[final], where)
            w.done('')
        seen.setdefault(final, i)
        vs = [number(c) for c in cells]
        if not vs or None in vs:
            why = 'has no values' if not vs else 'has a value that is not a number'
        elif name == 'chords.csv' and key in FROM_KEY:
            why = chord_rises(vs)
        else:
            why = FORM[name](vs)
        if why:
            bad += 1
            w = V(ctx, 'row', '%s: %s' % (name, key))
            w.bad('%s %s' % (key, why), where)
            w.done('')
    v.done('%d rows' % len(lines))
    n.done('%d names' % len(seen))


# --- from the files to the tables ------------------------------------------
def data_file(t):
    """The term reads a data file: its name."""
    if t[0] == 'call' and fname(t) == 'pkgutil.get_data' and len(t[2]) == 2 and all(is_const(a) and isinstance(a[2], str) for a in t[2]):
        return t[2][1][2].rpartition('/')[2]
    return None


def parsed(t):
    """Row table of a data file: (file, term) of a call of the parser in a term."""
    if not isinstance(t, tuple):
        return None
    if t[:1] == ('call',) and len(t) > 2 and isinstance(t[1], tuple) and t[1][:1] == ('func',) and t[1][1] == PARSE and t[2]:
        return data_file(t[2][0]), t
    for x in t:
        if isinstance(x, tuple):
            r = parsed(x)
            if r:
                return r
    return None


PARSE = 'klang.util.parse_music_data_from_csv'


def loader(ctx, name):
    """The function that reads the file and fills the table."""
    v = V(ctx, 'load', name)
    mod, table = TABLES[name]
    n = 0
    right = any(mentions(f.node, name) for f in ctx.prog.funcs.values() if f.mod.name == mod)
    for f in sorted(ctx.prog.funcs.values(), key=lambda f: f.key):
        if f.mod.name != mod or f.cls or f.parent or argnames(f) or not (mentions(f.node, name) or not right and mentions(f.node, '.csv')):
            continue
        I = ctx.interp(opaque=lambda g: g.key == PARSE)
        for p in ctx.run(I, f) or ():
            if p.raises or p.value[0] != 'cont':
                continue
            n += 1
            entries(v, I, p, name)
    if not n:
        v.und('no function that loads the file')
    v.done('%d paths' % n)


def argnames(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args]


def mentions(node, name):
    return any(isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.endswith(name) for x in ast.walk(node))


def entries(v, I, p, name):
    """Every element of the row table becomes an entry of the result."""
    stored = False
    for ev, paths, it in loops(p.events):
        r = parsed(it)
        if not r:
            continue
        file, rowtable = r
        if file is None:
            v.und('source of the rows')
            continue
        if file != name:
            v.bad('the table is filled from %s' % file, ev)
            continue
        row = ('idx', rowtable, ('elem', rowtable, ev.loopid))
        for q in paths:
            if q.raises:
                continue
            puts = [e for e in q.events if e.kind == 'compelt' and e.comp == p.value or e.kind == 'setitem' and e.base == p.value]
            if not puts:
                if any(e.kind == 'assume' for e in q.events):
                    v.bad('rows are left out', ev)
                else:
                    v.und('no entry')
                continue
            stored = True
            for e in puts:
                key = e.key if e.kind == 'setitem' else e.value[1][0] if e.value[0] == 'tuple' else None
                val = e.value if e.kind == 'setitem' else e.value[1][1] if e.value[0] == 'tuple' else None
                judge_key(v, key, rowtable, e)
                judge_entry(v, name, val, rowtable, e, q)
    if not stored:
        v.und('no loop over the rows')


def loops(events):
    out = []
    for e in events:
        if e.kind == 'loop' and e.exhausted and e.iter is not None:
            out.append((e, e.paths, e.iter))
    return out


def strip(t):
    """The name under a chain of letter case and blank handling."""
    while t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'extm' and t[1][2] in ('title', 'strip', 'lower', 'upper', 'capitalize') and not t[2]:
        t = t[1][1]
    return t


def judge_key(v, key, rowtable, e):
    if key is None:
        v.und('entry')
        return
    k = strip(key)
    if k[0] == 'elem' and k[1] == rowtable or k[0] == 'idx' and k[1][0] == 'elem' and is_const(k[2]) and k[2][2] == 0:
        return
    if is_const(k):
        v.bad('all rows are entered as %s' % show(k), e)
    else:
        v.und('name %s' % show(key)[:60])


def rowval(t, rowtable):
    """Terms with the row of the table replaced by a symbol."""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ('idx',) and t[1] == rowtable and t[2][0] == 'elem':
        return ('sym', 'row')
    if t[:1] == ('idx',) and t[1][0] == 'elem' and subt(t[1], rowtable) and is_const(t[2]) and t[2][2] == 1:
        return ('sym', 'row')
    return tuple(rowval(x, rowtable) for x in t)


def subt(t, x):
    return t == x or isinstance(t, tuple) and any(subt(y, x) for y in t)


def judge_entry(v, name, val, rowtable, e, q):
    if val is None:
        v.und('entry')
        return
    t = rowval(val, rowtable)
    row = ('sym', 'row')
    if name == 'chords.csv':
        if t == row or t[0] == 'call' and fname(t) in ('numpy.array', 'numpy.asarray', 'builtins.tuple', 'builtins.list') and t[2][:1] == (row,):
            return
        if slice_of(t, row):
            v.bad('a part of the row is left out of the chord', e)
            return
    elif name == 'intervals.csv':
        if t[0] == 'call' and fname(t) == 'fractions.Fraction' and len(t[2]) == 1:
            a = t[2][0]
            if a[0] == 'idx' and a[1] == row and is_const(a[2]):
                if a[2][2] not in (0, -1):
                    v.bad('the interval is not the value of the row', e)
                return
    elif name == 'scales.csv':
        if not subt(t, row):
            v.bad('the scale does not depend on the row', e) if is_const(t) else v.und(show(t)[:60])
        elif slice_of(t, row):
            v.bad('a part of the row is left out of the scale', e)
        return
    elif name == 'tunings.csv':
        if t[0] == 'obj':
            new = next((x for x in q.events if x.kind == 'new' and x.obj == t), None)
            if new and new.args and rowval(new.args[0], rowtable) == row:
                return
            if new and new.args and slice_of(rowval(new.args[0], rowtable), row):
                v.bad('a part of the row is left out of the tuning', e)
                return
    v.und('entry %s' % show(t)[:60])


def slice_of(t, row):
    if not isinstance(t, tuple):
        return False
    if t[:1] == ('idx',) and t[1] == row and t[2][0] == 'op' and t[2][1] == 'slice' and any(is_const(x) and x[2] not in (None, 0) for x in t[2][2][:2]):
        return True
    return any(slice_of(x, row) for x in t)


def parser(ctx):
    """Every line is an entry: its first cell the name, the others the values."""
    v = V(ctx, 'load', 'parse_music_data_from_csv')
    f = ctx.client('from klang.util import parse_music_data_from_csv\n\n\ndef client(s):\n    return parse_music_data_from_csv(s)\n')
    n = 0
    for p in ctx.run(ctx.interp(), f, args=[('sym', 's')]) or ():
        if p.raises or p.value[0] != 'cont':
            continue
        for e, paths, it in loops(p.events):
            if not (it[0] == 'call' and isinstance(it[1], tuple) and it[1][0] == 'extm' and it[1][2] in ('splitlines', 'split')):
                v.und('lines')
                continue
            line = ('elem', it, e.loopid)
            for q in paths:
                if q.raises:
                    continue
                n += 1
                puts = [x for x in q.events if x.kind == 'setitem' and x.base == p.value]
                if not puts:
                    short = [x for x in q.events if x.kind == 'assume' and x.key[0] in ('eq', 'lt') and counts(x, q)]
                    if short:
                        v.bad('lines with few or many values are left out', short[0])
                    else:
                        v.und('lines without an entry')
                    continue
                for x in puts:
                    cells = strip(x.key)
                    if not (cells[0] == 'idx' and is_const(cells[2]) and cells[1][0] == 'call' and cells[1][1][0] == 'extm' and cells[1][1][2] == 'split'):
                        v.und('name of a line')
                    elif cells[2][2] != 0:
                        v.bad('the name is not the first cell', x)
                    else:
                        values(v, q, x, cells[1])
    if not n:
        v.und('no loop over the lines')
    v.done('%d line paths' % n)


def counts(x, q):
    """The condition excludes lines by their number of values."""
    for t in x.key[1:]:
        if isinstance(t, tuple) and t[:2] == ('call', 'builtins.len') and any(is_const(o) for o in x.key[1:] if isinstance(o, tuple)):
            a = t[2][0]
            cells = 1 if a[:2] == ('call', 'rest') else 0 if a[0] == 'call' and isinstance(a[1], tuple) and a[1][2:] == ('split',) else None
            if cells is not None:
                r = Range(t, dict(q.facts))
                return any(r.holds(k + 1 - cells) for k in (1, 2, 3, 7, 12))
    return False


def values(v, q, x, cells):
    """All the cells but the first are values."""
    t = x.value
    for e, paths, it in loops(q.events):
        if not any(y.kind == 'compelt' and y.comp == t or y.kind == 'mut' and y.base == t for r in paths for y in r.events):
            continue
        if it[:2] == ('call', 'rest') and it[3]:
            v.bad('not all the cells after the name are values', e)
            return
        if it[:2] == ('call', 'rest') or it[0] == 'idx' and it[1] == cells and it[2] == ('op', 'slice', (C(1), C(None), C(None))):
            lost = [r for r in paths if not r.raises and not any(y.kind in ('compelt', 'mut') for y in r.events)]
            if lost and any(y.kind == 'assume' for r in lost for y in r.events):
                v.bad('values are left out', e)
            return
        if it[0] == 'idx' and it[1] == cells and it[2][0] == 'op' and it[2][1] == 'slice' and is_const(it[2][2][0]):
            v.bad('not all the cells after the name are values', e)
            return
    v.und('values of a line')


# --- scale codes ------------------------------------------------------------
SC = 'klang.music.scales'


def encode(ctx):
    """Code of a scale: one bit per pitch the steps reach, starting at the root."""
    v = V(ctx, 'code', 'scale_2_pitches')
    f = ctx.client('from klang.music.scales import scale_2_pitches\n\n\ndef client(s):\n    return scale_2_pitches(s)\n')
    n = 0
    S = ('sym', 's')
    for p in ctx.run(ctx.interp(), f, args=[S]) or ():
        if p.raises:
            v.und('raises')
            continue
        n += 1
        t = p.value
        mod = None
        if t[0] == 'op' and t[1] == '%':
            t, mod = t[2]
        elif t[0] == 'call' and fname(t) in ('numpy.mod', 'numpy.remainder'):
            t, mod = t[2][:2]
        if mod is None:
            v.bad('the last pitch, an octave, is not brought back to the root', p.events[-1] if p.events else None) if roll(t, S) else v.und(show(t)[:80])
            continue
        if not roll(t, S):
            v.und(show(t)[:80])
        elif roll(t, S) != 1:
            v.bad('the pitches are rotated by %s instead of starting with the root' % roll(t, S), p.events[-1])
        elif is_const(mod) and mod[2] != OCTAVE:
            v.bad('pitches are taken modulo %s' % show(mod), p.events[-1])
        elif not is_const(mod):
            v.und('modulus')
    v.done('%d paths' % n)
    if not n:
        v.und('no path')


def roll(t, S):
    """Shift of the rotation of the running sum of the steps, None if it is not one."""
    if t[0] == 'call' and fname(t) == 'numpy.roll':
        kw = dict(t[3] or ())
        sh = kw.get('shift', t[2][1] if len(t[2]) > 1 else None)
        a = t[2][0]
        if sh is not None and is_const(sh) and a[0] == 'call' and fname(a) == 'numpy.cumsum' and a[2][:1] == (S,):
            return sh[2]
    return None


def decode(ctx):
    """Scale of a code: pitches of the set bits in rising order, steps up to the octave; table in order of codes."""
    v = V(ctx, 'code', 'pitches_2_scale')
    f = ctx.client('from klang.music.scales import pitches_2_scale\n\n\ndef client(s):\n    return pitches_2_scale(s)\n')
    for p in ctx.run(ctx.interp(), f, args=[('sym', 's')]) or ():
        if p.raises:
            v.und('raises')
            continue
        diff_of(v, p.value, p.events[-1] if p.events else None, need=('sym', 's'))
    v.done('steps between the sorted pitches and the octave')
    v = V(ctx, 'code', 'all_possible_scales')
    n = 0
    for f in sorted(ctx.prog.funcs.values(), key=lambda f: f.key):
        if f.mod.name != SC or f.cls or f.parent or argnames(f) or f.name == 'main':
            continue
        if not any(isinstance(x, ast.Name) and x.id == 'range' for x in ast.walk(f.node)):
            continue
        ps = ctx.run(ctx.interp(), f) or ()
        for p in ps:
            if p.raises or p.value[0] != 'cont':
                continue
            for e, paths, it in loops(p.events):
                if not (it[0] == 'call' and fname(it) == 'builtins.range'):
                    continue
                if not any(x.kind in ('compelt', 'mut') and (x.kind == 'compelt' and x.comp or x.base) == p.value for q in paths for x in q.events):
                    continue
                n += 1
                table(v, e, it, paths, p)
    if not n:
        v.und('no such table')
    v.done('%d tables' % n)


def table(v, e, it, paths, p):
    args = list(it[2])
    if not all(is_const(a) for a in args):
        v.und('range')
        return
    r = range(*[a[2] for a in args])
    if r[:2] != range(0, 2) or len(r) < 2 ** OCTAVE:
        v.bad('the table is not in order of the codes or not complete: %r' % r, e)
    elem = ('elem', it, e.loopid)
    for q in paths:
        if q.raises:
            continue
        puts = [x for x in q.events if x.kind == 'compelt' and x.comp == p.value or x.kind == 'mut' and x.base == p.value and x.op == 'append']
        if not puts:
            v.bad('codes are left out, later scales move down', e) if any(x.kind == 'assume' for x in q.events) else v.und('no entry')
            continue
        for x in puts:
            t = x.value if x.kind == 'compelt' else x.args[0]
            bits(v, q, diff_of(v, t, x), elem, x)


def diff_of(v, t, ev, need=None):
    """Container or term whose sorted pitches become steps."""
    if not (t[0] == 'call' and fname(t) == 'numpy.diff'):
        v.und(show(t)[:60])
        return None
    kw = dict(t[3] or ())
    if set(kw) - {'append'} or len(t[2]) != 1:
        v.und('arguments of diff')
        return None
    if 'append' not in kw:
        v.bad('the step up to the octave is missing', ev)
        return None
    if is_const(kw['append']) and kw['append'][2] != OCTAVE:
        v.bad('the last step leads to %s instead of the octave' % show(kw['append']), ev)
        return None
    t = t[2][0]
    if t[0] == 'call' and fname(t) in ('numpy.sort', 'builtins.sorted'):
        t = t[2][0]
    elif need is not None:
        v.bad('the pitches are not sorted', ev) if t == need or t[0] in ('call', 'op') and fname(t) in ('numpy.mod', None) else v.und('order')
        return None
    mod = None
    if t[0] == 'call' and fname(t) in ('numpy.mod', 'numpy.remainder'):
        t, mod = t[2][:2]
    elif t[0] == 'op' and t[1] == '%':
        t, mod = t[2]
    if mod is not None and is_const(mod) and mod[2] != OCTAVE:
        v.bad('pitches are taken modulo %s' % show(mod), ev)
    if mod is None and need is not None:
        v.bad('pitches above an octave are not brought back', ev) if t == need else v.und('octave')
    while t[0] == 'call' and fname(t) in ('numpy.array', 'numpy.asarray') and t[2]:
        t = t[2][0]
    return t


def bits(v, q, cont, elem, ev):
    """The list takes exactly the pitches whose bit is set."""
    if cont is None or cont[0] != 'cont':
        v.und('pitches')
        return
    for e, paths, it in loops(q.events):
        for r in paths:
            if r.raises:
                continue
            pitch = ('elem', it, e.loopid)
            bit = None
            for x in r.events:
                if x.kind == 'assume' and x.key[0] in ('truthy', 'eq'):
                    b = bit_test(x.key, x.val, elem, pitch)
                    if b is not None:
                        bit = b
            put = [x for x in r.events if x.kind in ('mut', 'compelt') and (x.kind == 'compelt' and x.comp or x.kind == 'mut' and x.base) == cont]
            if not put and bit is None or put and put[0].kind == 'mut' and put[0].op != 'append':
                continue
            if bit is None:
                v.und('condition of a pitch')
                return
            if put and not bit:
                v.bad('a scale has the pitches its code does not have', put[0])
            elif bit and not put:
                v.bad('a scale lacks pitches of its code', e)
            elif put:
                t = put[0].value if put[0].kind == 'compelt' else put[0].args[0]
                if t != pitch:
                    v.und('pitch %s' % show(t))


def bit_test(key, val, elem, pitch):
    one = ('op', '<<', (C(1), pitch))
    shifted = ('op', '>>', (elem, pitch))
    tests = {('op', '&', (elem, one)), ('op', '&', (one, elem)), ('op', '&', (shifted, C(1))), ('op', '&', (C(1), shifted)), ('op', '%', (shifted, C(2)))}
    if key[0] == 'truthy' and key[1] in tests:
        return val
    if key[0] == 'eq':
        for a, b in ((key[1], key[2]), (key[2], key[1])):
            if b in tests and is_const(a):
                if a[2] == 0:
                    return not val
                if a[2] == 1 and b not in list(tests)[:0]:
                    return val if b[2][0] == shifted or b[2][1] == shifted else None
    return None


# --- constant tables ---------------------------------------------------------
def evaluate(t):
    """Number of a constant term."""
    if is_const(t):
        return t[2] if isinstance(t[2], (int, float, Fraction)) and not isinstance(t[2], bool) else None
    if t[0] == 'call' and fname(t) == 'fractions.Fraction' and not t[3]:
        a = [evaluate(x) for x in t[2]]
        if len(a) == 1 and is_const(t[2][0]) and isinstance(t[2][0][2], str):
            return number(t[2][0][2])
        return None if None in a or not a or len(a) > 1 and a[1] == 0 else Fraction(a[0]) / (Fraction(a[1]) if len(a) > 1 else 1)
    if t[0] == 'op':
        a = [evaluate(x) for x in t[2]]
        if None in a:
            return None
        try:
            return {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '**': lambda x, y: x ** y,
                    '/': lambda x, y: Fraction(x) / Fraction(y) if not isinstance(x, float) and not isinstance(y, float) else x / y,
                    '//': lambda x, y: x // y, '%': lambda x, y: x % y, 'u-': lambda x: -x}[t[1]](*a)
        except (KeyError, ZeroDivisionError, TypeError):
            return None
    return None


def module_values(ctx, modname, names=None):
    """Terms of the names a module assigns at its top level, evaluated in order."""
    m = ctx.prog.mods[modname]
    head, body, out = [], [], []
    for node in m.tree.body:
        if isinstance(node, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)):
            head.append(ast.unparse(node))
        elif isinstance(node, (ast.Assign, ast.AnnAssign)) and node.value is not None:
            ts = node.targets if isinstance(node, ast.Assign) else [node.target]
            ns = [x.id for t in ts for x in ([t] if isinstance(t, ast.Name) else getattr(t, 'elts', ())) if isinstance(x, ast.Name)]
            if ns and not any(x.startswith('__') for x in ns):
                body.append(ast.unparse(node))
                out += [(x, node) for x in ns]
    last = dict(out)
    keep = sorted(n for n in last if names is None or n in names)
    src = '%s\n\n\ndef client():\n    %s\n    return (%s,)\n' % ('\n'.join(head), '\n    '.join(b.replace('\n', '\n    ') for b in body), ', '.join(keep))
    f = ctx.client(src)
    I = ctx.interp()
    ps = [p for p in ctx.run(I, f) or () if not p.raises]
    if len(ps) != 1:
        return {}, None, None
    return {n: (t, '%s:%d' % (m.rel if hasattr(m, 'rel') else modname, last[n].lineno)) for n, t in zip(keep, ps[0].value[1])}, I, ps[0]


def note_values(ctx):
    v = V(ctx, 'constant', 'note values')
    vals, I, p = module_values(ctx, 'klang.music.note_values')
    n = 0
    for name, (t, where) in sorted(vals.items()):
        if not name.endswith('_NOTE'):
            continue
        base, f = name[:-5], Fraction(1)
        for pre, x in DOTS:
            if base.startswith(pre) and base[len(pre):] in PLAIN:
                base, f = base[len(pre):], x
                break
        if base not in PLAIN:
            continue
        got = evaluate(t)
        if got is None:
            v.und(name)
        elif got != PLAIN[base] * f:
            v.bad('%s is %s instead of %s' % (name, got, PLAIN[base] * f), where)
        else:
            n += 1
    if not vals:
        v.und('the module is not a list of constants')
    v.done('%d constants' % n)


def temperaments(ctx):
    """Tunings written down in the code."""
    v = V(ctx, 'constant', 'built in temperaments')
    n, seen = 0, set()
    m = ctx.prog.mods['klang.music.tunings']
    for node in ast.walk(m.tree):
        if not (isinstance(node, (ast.List, ast.Tuple)) and len(node.elts) >= 8 and id(node) not in seen):
            continue
        f = ctx.client('def client():\n    return %s\n' % ast.unparse(node))
        I = ctx.interp()
        ps = ctx.run(I, f) or ()
        if len(ps) != 1 or ps[0].raises:
            continue
        its = ps[0].value[1] if ps[0].value[0] == 'tuple' else I.contents(ps[0].value, ps[0].st)
        vs = [evaluate(x) for x in its or ()]
        if not vs or None in vs:
            continue
        n += 1
        where = 'klang/music/tunings.py:%d' % node.lineno
        if len(vs) != OCTAVE:
            v.bad('a tuning has %d values' % len(vs), where)
        elif any(b <= a for a, b in zip(vs, vs[1:])):
            i = next(i for i in range(11) if vs[i + 1] <= vs[i])
            v.bad('a tuning does not rise at its note %d' % (i + 1), where)
        elif vs[0] >= 1 and vs[-1] >= 2 * vs[0] and vs[-1] < 10:
            v.bad('a tuning leaves the octave', where)
        elif vs[-1] >= 1200:
            v.bad('a tuning leaves the octave', where)
    vals, I, p = module_values(ctx, 'klang.music.tunings', ('EQUAL_TEMPERAMENT',))
    if 'EQUAL_TEMPERAMENT' in vals:
        t, where = vals['EQUAL_TEMPERAMENT']
        new = next((e for e in p.events if e.kind == 'new' and e.obj == t), None)
        for i in range(12):
            x = formula(new.args[0], {}, i) if new and new.args else None
            if x is None:
                v.und('equal temperament')
                break
            if abs(x - 100 * i) > 1e-9:
                v.bad('the steps of the equal temperament are not equal: note %d at %s cent' % (i, x), where)
                break
        else:
            n += 1
    for e, steps in built(ctx):
        n += 1
        if steps[-1] < 1000 or steps[-1] >= 1200 or abs(steps[0]) > 100:
            v.bad('a tuning is built from other numbers than cents: it runs from %.4g to %.4g' % (steps[0], steps[-1]), e)
    if not n:
        v.und('no constant tuning')
    v.done('%d tunings' % n)


def built(ctx):
    """The tunings the module makes from numbers written down in the code, in cents."""
    I = ctx.interp(recursion=3)
    names = [k for k in ctx.prog.funcs if k.startswith('klang.music.tunings.') and '#' not in k and k.count('.') == 3]
    out = {}
    for k in sorted(names):
        f = ctx.prog.funcs[k]
        if f.node.args.args or f.node.args.kwonlyargs:
            continue
        ps = ctx.run(I, ctx.client('from klang.music.tunings import %s\n\n\ndef client():\n    return %s()\n' % (f.name, f.name)))
        for p in ps or ():
            for it in flat(p):
                if it.ev.kind == 'new' and it.ev.obj[1] == 'klang.music.tunings.Temperament' and it.ev.args:
                    got = {}

                    def numbers(t, p=p, got=got):
                        its = t[1] if t[0] == 'tuple' else I.contents(t, p.st) if t[0] == 'cont' else None
                        vs = [evaluate(x) for x in its or ()]
                        if len(vs) == OCTAVE and None not in vs:
                            got['cents'] = [float(x) for x in vs]
                        return len(vs) == OCTAVE and None not in vs
                    t = replace(it.ev.args[0], numbers, CENTS)
                    steps = [formula(t, got, i) for i in range(OCTAVE)] if got or not subterm(t, CENTS) else [None]
                    if None not in steps and all(isinstance(x, (int, float, Fraction)) for x in steps):
                        out[id(it.ev.node)] = it.ev, steps
    return list(out.values())


# --- formulas ------------------------------------------------------------------
def dots(ctx):
    from ..poly import equal
    v = V(ctx, 'formula', 'dot_note')
    want = [('dot_note', 0, 1), ('dot_note', 1, Fraction(3, 2)), ('dot_note', 2, Fraction(7, 4)), ('dot_note', 3, Fraction(15, 8)),
            ('dedot_note', 0, 1), ('dedot_note', 1, Fraction(2, 3)), ('dedot_note', 2, Fraction(4, 7)), ('dedot_note', 3, Fraction(8, 15)),
            ('dot_note', -1, Fraction(2, 3)), ('dot_note', -2, Fraction(4, 7)), ('dedot_note', -2, Fraction(7, 4)), ('dedot_note', -1, Fraction(3, 2))]
    src = 'from klang.music.note_values import dot_note, dedot_note\n\n\ndef client(note):\n    return (%s, dot_note(note), dedot_note(note))\n'
    f = ctx.client(src % ', '.join('%s(note, %d)' % w[:2] for w in want))
    ps = ctx.run(ctx.interp(recursion=3), f, args=[('sym', 'note')]) or ()
    for p in ps:
        if p.raises:
            v.und('raises')
            continue
        for (name, n, k), t in zip(want + [('dot_note', 'default', Fraction(3, 2)), ('dedot_note', 'default', Fraction(2, 3))], p.value[1]):
            e = ('op', '/', (('op', '*', (C(Fraction(k).numerator), ('sym', 'note'))), C(Fraction(k).denominator)))
            got = equal(t, e)
            if got is None or not got and not rational(t):
                v.und('%s(note, %s) = %s' % (name, n, show(t)[:60]))
            elif not got:
                v.bad('%s(note, %s) is %s instead of %s times the note' % (name, n, show(t)[:60], k), ctx.prog.func('klang.music.note_values.' + name).node and
                      'klang/music/note_values.py:%d' % ctx.prog.func('klang.music.note_values.' + name).node.lineno)
    if not ps:
        v.und('no path')
    v.done('%d cases' % (len(want) + 2))


def rational(t):
    if is_const(t):
        return not isinstance(t[2], str)
    return t == ('sym', 'note') or t[0] == 'op' and t[1] in ('+', '-', '*', '/', 'u-') and all(rational(x) for x in t[2])


def inversions(ctx):
    from ..poly import equal
    v = V(ctx, 'formula', 'invert_chord')
    A = [('sym', x) for x in 'abc']
    src = 'from klang.music.chords import invert_chord\n\n\ndef client(a, b, c):\n    return invert_chord([a, b, c], %d)\n'
    n = 0
    for k in (0, 1, 2, 3, -1, -2, -3):
        want = []
        for i in range(3):
            j = i + k
            want.append(('op', '+', (A[j % 3], C(OCTAVE * (j // 3)))))
        f = ctx.client(src % k)
        I = ctx.interp(unroll=8)
        for p in ctx.run(I, f, args=A) or ():
            if p.raises:
                v.und('raises')
                continue
            t = p.value
            while t[0] == 'call' and fname(t) in ('numpy.array', 'numpy.asarray', 'builtins.list', 'builtins.tuple') and t[2]:
                t = t[2][0]
            its = t[1] if t[0] == 'tuple' else I.contents(t, p.st) if t[0] == 'cont' else None
            if its is None:
                v.und('result %s' % show(t)[:60])
                continue
            n += 1
            its = [spelled(x, I, p.st) for x in its]
            same = len(its) == 3 and all(equal(a, b) for a, b in zip(its, want))
            if not same and len(its) != 3:
                v.bad('inversion %d of three notes has %d' % (k, len(its)), 'klang/music/chords.py')
            elif not same:
                for chord in ((0, 4, 7), (0, 3, 6), (0, 4, 14), (0, 7, 16), (0, 14, 26), (5, 9, 12)):
                    env = dict(zip('abc', chord))
                    here = reached(p.facts, env)
                    if here is False:
                        continue
                    got, right = [formula(x, env) for x in its], [formula(x, env) for x in want]
                    if None in got or here is None and got != right:
                        v.und('inversion')
                        break
                    if got != right:
                        v.bad('inversion %d of %s is %s instead of %s' % (k, chord, tuple(got), tuple(right)), 'klang/music/chords.py')
                        break
    if not n:
        v.und('no path')
    v.done('%d inversions' % n)


def spelled(t, I, st):
    """Lists whose contents are known written out."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'cont':
        its = I.contents(t, st)
        return t if its is None else ('tuple', tuple(spelled(x, I, st) for x in its))
    return tuple(spelled(x, I, st) for x in t)


def linear(t):
    return is_const(t) or t[0] == 'sym' or t[0] == 'op' and t[1] in ('+', '-', '*', 'u-') and all(linear(x) for x in t[2])


CENTS = ('sym', 'cents')
SAMPLES = ({'k': 440., 'cents': [0., 90.2, 192.2, 294.1, 390.2, 498., 588.3, 696.1, 792.2, 888.3, 996.1, 1092.2]},
           {'k': 432., 'cents': [3., 117., 203., 311., 407., 503., 613., 709., 811., 907., 1009., 1103.]})


PLAIN = {'builtins.max': max, 'builtins.min': min, 'builtins.abs': abs, 'builtins.int': int, 'builtins.round': round, 'numpy.maximum': max, 'numpy.minimum': min,
         'numpy.abs': abs, 'numpy.absolute': abs, 'numpy.floor': math.floor, 'math.floor': math.floor, 'numpy.ceil': math.ceil, 'math.ceil': math.ceil}
PLAIN['builtins.max'] = lambda *a: max(a)
PLAIN['builtins.min'] = lambda *a: min(a)


def reached(facts, env):
    """Do these inputs take this way? None: not known."""
    sure = True
    for k, val in facts.items():
        ts = [x for x in k[1:3] if isinstance(x, tuple)]
        if not any(subt(t, ('sym', n)) for t in ts for n in env):
            continue
        a = [formula(t, env) for t in ts]
        if k[0] in ('lt', 'eq') and NONE in ts:
            got = False
        elif None in a:
            got = None
        elif k[0] == 'lt' and len(a) == 2:
            got = a[0] < a[1]
        elif k[0] == 'eq' and len(a) == 2:
            got = a[0] == a[1]
        elif k[0] == 'truthy' and len(a) == 1:
            got = bool(a[0])
        else:
            got = None
        if got is None:
            sure = None
        elif got != val:
            return False
    return sure


def formula(t, env, i=None):
    """Value of a formula, i: element of the array formula."""
    if is_const(t):
        return t[2] if isinstance(t[2], (int, float)) and not isinstance(t[2], bool) else None
    if t == CENTS:
        return env['cents'][i] if i is not None else None
    if t[0] == 'sym':
        return env.get(t[1])
    if t[0] == 'call':
        f = fname(t)
        if f == 'numpy.arange' and len(t[2]) == 1 and i is not None:
            return i
        if f in ('numpy.asarray', 'numpy.array', 'builtins.float', 'numpy.log2', 'numpy.exp2') and t[2]:
            x = formula(t[2][0], env, i)
            if f == 'numpy.exp2':
                return None if x is None else 2. ** x
            if f == 'numpy.log2':
                return None if x is None or x <= 0 else math.log2(x)
            return x
        if f in ('numpy.power', 'builtins.pow') and len(t[2]) == 2:
            return formula(('op', '**', t[2]), env, i)
        if f == 'builtins.len' and t[2] == (CENTS,) and 'cents' in env:
            return len(env['cents'])
        if f in PLAIN and t[2] and not t[3]:
            a = [formula(x, env, i) for x in (t[2][0][1] if len(t[2]) == 1 and t[2][0][0] == 'tuple' else t[2])]
            if None in a:
                return None
            try:
                return PLAIN[f](*a)
            except (TypeError, ValueError, OverflowError):
                return None
        return None
    if t[0] == 'idx':
        if t[1][0] == 'call' and fname(t[1]) in ('numpy.divmod', 'builtins.divmod') and is_const(t[2]):
            a = [formula(x, env) for x in t[1][2]]
            return None if None in a or not a[1] else divmod(*a)[t[2][2]]
        j = formula(t[2], env)
        return formula(t[1], env, int(j)) if isinstance(j, int) and -12 <= j < 12 else None
    if t[0] == 'op':
        a = [formula(x, env, i) for x in t[2]]
        if None in a:
            return None
        try:
            return {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y, '**': lambda x, y: x ** y,
                    '//': lambda x, y: x // y, '%': lambda x, y: x % y, 'u-': lambda x: -x}[t[1]](*a)
        except (KeyError, ZeroDivisionError, TypeError, OverflowError):
            return None
    return None


def pitches(ctx):
    """Frequency of every pitch: reference pitch at 69, own ratio per pitch class, doubled every octave."""
    v = V(ctx, 'formula', 'Temperament')
    f = ctx.client('from klang.music.tunings import Temperament\n\n\ndef client(cents, k, pitch):\n    return Temperament(cents, k).pitch_2_frequency(pitch)\n')
    n = 0
    for p in ctx.run(ctx.interp(), f, args=[CENTS, ('sym', 'k'), ('sym', 'pitch')]) or ():
        if p.raises:
            continue
        n += 1
        for pitch in range(128):
            for s in SAMPLES:
                env = dict(s, pitch=pitch)
                here = reached(p.facts, env)
                if here is False:
                    continue
                got = formula(p.value, env)
                want = s['k'] * 2 ** ((s['cents'][pitch % 12] - s['cents'][9]) / 1200) * 2. ** (pitch // 12 - 5)
                if got is None:
                    v.und('frequency %s' % show(p.value)[:80])
                    break
                if abs(got - want) > 1e-9 * want and here is None:
                    v.und('tests before the frequency')
                    break
                if abs(got - want) > 1e-9 * want:
                    g = ctx.prog.func('klang.music.tunings.Temperament.pitch_2_frequency')
                    v.bad('pitch %d is tuned %.3f instead of %.3f Hz with a reference pitch of %.0f Hz' % (pitch, got, want, s['k']),
                          'klang/music/tunings.py:%d' % g.node.lineno)
                    break
            else:
                continue
            break
    if not n:
        v.und('no path')
    v.done('128 pitches of an arbitrary temperament')
    v = V(ctx, 'formula', 'ratio_2_cent')
    f = ctx.client('from klang.music.tunings import ratio_2_cent, cent_2_ratio\n\n\ndef client(x):\n    return ratio_2_cent(x), cent_2_ratio(x), '
                   'cent_2_ratio(ratio_2_cent(x))\n')
    for p in ctx.run(ctx.interp(), f, args=[('sym', 'x')]) or ():
        if p.raises:
            v.und('raises')
            continue
        a, b, c = p.value[1]
        for x in (1., 1.5, 2., 1.2):
            here = reached(p.facts, {'x': x})
            if here is False:
                continue
            for t, want, what in ((a, 1200 * math.log2(x), 'cents of the ratio'), (b, 2 ** (x / 1200), 'ratio of the cents'), (c, x, 'ratio of its own cents')):
                got = formula(t, {'x': x})
                if got is None:
                    v.und(what)
                elif abs(got - want) > 1e-9 * max(1, want) and here is None:
                    v.und(what)
                elif abs(got - want) > 1e-9 * max(1, want):
                    v.bad('%s %s is %s' % (what, x, got), 'klang/music/tunings.py')
    v.done('both directions')


LETTERS = {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}
SIGNS = {'': 0, '#': 1, '##': 2, 'b': -1, 'bb': -2}


def note_names(ctx):
    v, w, x = V(ctx, 'formula', 'note_name_2_pitch'), V(ctx, 'formula', 'accidentals'), V(ctx, 'formula', 'pitch_2_note_name')
    vals, I, p = module_values(ctx, 'klang.music.pitch', ('PITCH_NAMES', 'ACCIDENTAL_SHIFTS', 'SCIENTIFIC_PITCH_NOTATION_RE'))
    names = signs = pattern = None
    where = {n: t[1] for n, t in vals.items()}
    if 'PITCH_NAMES' in vals:
        t = vals['PITCH_NAMES'][0]
        names = t[1] if t[0] == 'tuple' else I.contents(t, p.st)
        names = [y[2] for y in names] if names and all(is_const(y) for y in names) else None
    if 'ACCIDENTAL_SHIFTS' in vals:
        d = I.dict_items(vals['ACCIDENTAL_SHIFTS'][0], p.st)
        if d and all(is_const(a) and is_const(b) for a, b in d):
            signs = {a[2]: b[2] for a, b in d}
    if 'SCIENTIFIC_PITCH_NOTATION_RE' in vals:
        t = vals['SCIENTIFIC_PITCH_NOTATION_RE'][0]
        if t[0] == 'call' and fname(t) == 're.compile' and len(t[2]) == 1 and is_const(t[2][0]):
            pattern = t[2][0][2]
    if names is None:
        v.und('names of the pitches')
    else:
        if len(names) != 12 or len(set(names)) != 12:
            v.bad('there are not twelve different pitch names', where['PITCH_NAMES'])
        for c, i in LETTERS.items():
            if c not in names or names.index(c) != i:
                v.bad('%s is not the pitch %d' % (c, i), where['PITCH_NAMES'])
        for i, c in enumerate(names):
            if len(c) == 2 and c[0] in LETTERS and c[1] in '#b' and LETTERS[c[0]] + SIGNS[c[1]] != i:
                v.bad('%s is not the pitch %d' % (c, i), where['PITCH_NAMES'])
    if signs is None:
        w.und('accidentals')
    else:
        for s, k in signs.items():
            if s in SIGNS and SIGNS[s] != k:
                w.bad('%r shifts by %s semitones' % (s, k), where['ACCIDENTAL_SHIFTS'])
    f = ctx.client('from klang.music.pitch import note_name_2_pitch\n\n\ndef client(name):\n    return note_name_2_pitch(name)\n')
    looked = False
    for q in ctx.run(ctx.interp(), f, args=[('sym', 'name')]) or ():
        if q.raises:
            continue
        judge_name(v, q)
        looked |= any(e.kind == 'getitem' and e.base[0] == 'cont' and e.base[1] == 'dict' and not handled(e) for e in q.events)
    if signs is not None and pattern is not None and looked:
        try:
            rx = re.compile(pattern)
            acc = [a + b + c for a in ('', '#', 'b') for b in ('', '#', 'b') for c in ('', '#', 'b')]
            for s in sorted(set(acc)):
                m = rx.match(('C%s4' % s).title())
                if m and len(m.groups()) == 3 and m.group(2) not in signs:
                    w.bad('the accidentals %r are accepted but unknown, the name is a key error instead of a value error' % m.group(2),
                          where['SCIENTIFIC_PITCH_NOTATION_RE'])
        except re.error:
            w.und('pattern')
    elif signs is not None:
        w.und('accepted accidentals')
    f = ctx.client('from klang.music.pitch import pitch_2_note_name\n\n\ndef client(p):\n    return pitch_2_note_name(p)\n')
    for q in ctx.run(ctx.interp(), f, args=[('sym', 'p')]) or ():
        if not q.raises:
            judge_number(x, q)
    v.done('letters and octaves')
    w.done('%d accidentals' % len(signs or ()))
    x.done('name and octave')


def handled(e):
    return False


def groups(t, out):
    """Terms of the groups of the match in a term."""
    if not isinstance(t, tuple):
        return
    if t[:1] == ('idx',) and is_const(t[2]) and t[1][0] == 'call' and isinstance(t[1][1], tuple) and t[1][1][0] == 'extm' and t[1][1][2] == 'groups':
        out[t[2][2]] = t
        return
    for x in t:
        groups(x, out)


def judge_name(v, q):
    """Pitch of a name: index of the letter, shift, octave plus one times twelve."""
    from ..poly import equal, subst
    g = {}
    groups(q.value, g)
    ev = q.events[-1] if q.events else None
    if set(g) != {0, 1, 2}:
        v.und('parts of the name')
        return

    def named(t):
        t = replace(t, lambda x: x[0] == 'call' and fname(x) == 'builtins.int' and x[2] == (g[2],), ('sym', 'octave'))
        t = replace(t, lambda x: x[0] == 'call' and isinstance(x[1], tuple) and x[1][0] == 'extm' and x[1][2] == 'index' and x[2] == (g[0],), ('sym', 'index'))
        return replace(t, lambda x: x[0] == 'idx' and x[2] == g[1], ('sym', 'shift'))
    t = named(q.value)
    want = ('op', '+', (('op', '+', (('sym', 'index'), ('sym', 'shift'))), ('op', '*', (('op', '+', (('sym', 'octave'), C(1))), C(12)))))
    if equal(t, want):
        return
    facts = {named(k): val for k, val in q.facts.items()}
    for i in range(12):
        for s in (0, 1, -1, 2, -2):
            for o in range(10):
                env = {'index': i, 'shift': s, 'octave': o}
                here = reached(facts, env)
                if here is False:
                    continue
                got = formula(t, env)
                if got is None or got != i + s + 12 * (o + 1) and here is None:
                    v.und('pitch %s' % show(t)[:80])
                    return
                if got != i + s + 12 * (o + 1):
                    v.bad('the pitch of a name is %s: letter %d with the shift %d in octave %d is %s' % (show(t)[:90], i, s, o, got), ev)
                    return


def replace(t, pred, by):
    if not isinstance(t, tuple) or not t:
        return t
    if isinstance(t[0], str) and pred(t):
        return by
    return tuple(replace(x, pred, by) for x in t)


def judge_number(v, q):
    from ..poly import equal
    found = {'octave': None, 'note': None}

    def dig(t):
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == 'call' and fname(t) == 'builtins.str' and len(t[2]) == 1:
            found['octave'] = t[2][0]
        if t[0] == 'idx' and t[1][0] in ('cont', 'glob') and not is_const(t[2]):
            found['note'] = t[2]
        for x in t:
            dig(x)
    dig(q.value)
    o, n = found['octave'], found['note']
    if o is None or n is None:
        v.und('name %s' % show(q.value)[:60])
        return
    ev = q.events[-1] if q.events else None
    for p in range(128):
        here = reached(q.facts, {'p': p})
        if here is False:
            continue
        a, b = formula(o, {'p': p}), formula(n, {'p': p})
        if a is None or b is None or here is None and (a != p // 12 - 1 or b != p % 12):
            v.und('name')
            return
        if a != p // 12 - 1 or b != p % 12:
            v.bad('pitch %d is named as note %s of octave %s' % (p, b, a), ev)
            return
