"""C08: one audio cycle: inject, tick the clock, run once, collect."""
from ..core import V, clause
from ..engine import C, NONE, TRUE, is_const, show
from ..walk import flat, method_call, partial, src_of, subterm

EXPLAIN = ('Order and count of effects per cycle: the stream callback handed to the sound card is followed with unknown captured state; on every path '
           'the blocks are run exactly once, after the recorded input was handed to the input block and after the shared clock was set to the play time, '
           'and before the output is collected. The play time is the captured variable the clock was set from; on every path that collected '
           'samples it must end up exactly one buffer duration later, a requested recording must have gained the returned chunk once, and the '
           'completion code must follow exactly from comparing the end of the cycle with the duration. Offline cycles must run the same callback. '
           'The callback that runs the blocks, and the loop without audio, must update each block of the computed order once. '
           'What is set on the shared clock is followed into every block that reads the time.')
ASSUME = ['the sound card calls the stream callback once per buffer', 'float rounding of the play time is not considered']
MINIMUM = 5
KG = 'klang.audio.klanggeber'


def check(ctx):
    r = ctx.rep
    r.rule('order', 'input is injected before the clock is set, the clock before the run, the run before collecting')
    r.rule('once', 'all blocks are run exactly once in a cycle')
    r.rule('clock', 'the clock is set to the play time, which starts at zero and advances by one buffer duration')
    r.rule('finish', 'completion is reported exactly when the end of the cycle reaches the duration')
    r.rule('record', 'a requested recording gains exactly the chunk that is played')
    r.rule('offline', 'offline rendering runs the same cycle, once per buffer duration, and writes what was recorded')
    r.rule('inject', 'every recorded channel reaches its output')
    r.rule('run', 'running the blocks updates every block of the computed order once')
    r.rule('buffer', 'the buffer duration is the buffer size divided by the sampling rate')
    clause(ctx, 'once', cycle)
    clause(ctx, 'offline', offline)
    clause(ctx, 'inject', inject)
    clause(ctx, 'run', runner)
    clause(ctx, 'run', mainloop)
    r.rule('read', 'what is set on the shared clock is what every block reads')
    clause(ctx, 'buffer', buffer)
    clause(ctx, 'read', shared)


ARGS = ('adc', 'dac', 'execute_all_blocks', 'duration', 'fadeout', 'filepath', 'offline')


def engine_paths(ctx, offline, filepath):
    f = ctx.prog.func(KG + '.run_audio_engine')
    adc, dac = ctx.obj(KG + '.Adc', 'adc'), ctx.obj(KG + '.Dac', 'dac')
    opq = lambda g: g.name in ('collect_samples', 'inject_samples', 'write_wave', 'validate_sound_card_channels')

    def may(fn, args, node, I, fr, st):
        if fn[0] in ('func', 'bound') and str(fn[1] if fn[0] == 'func' else fn[2]).endswith('collect_samples'):
            return [('exc', ('class', KG + '.ChannelMismatch'), ())]
        return None
    I = ctx.interp(opaque=opq, may_raise=may)
    params = {'adc': adc, 'dac': dac, 'offline': C(offline), 'filepath': C(filepath)}
    return I, ctx.run(I, f, params=params), adc, dac


def callbacks(ps):
    """[(function value, path)] of what is handed to the sound card."""
    out = []
    for p in ps or []:
        for e in p.events:
            if e.kind == 'call' and not e.inlined:
                for k, v in e.kwargs:
                    if k == 'stream_callback' and v[0] in ('func', 'bound'):
                        out.append((v, p))
    return out


def called(ev, *names):
    if ev.kind != 'call' or ev.inlined:
        return False
    fn = ev.fn
    n = fn[1] if fn[0] in ('func', 'sym') else fn[2] if fn[0] in ('bound', 'extm') else ''
    return isinstance(n, str) and n.rpartition('.')[2].partition('#')[0] in names


def clock_write(ev):
    return ev.kind == 'write' and ev.attr == 'currentTime' and ev.base[0] == 'class'


def forget(st, I, fnval):
    """Captured variables of the callback hold anything."""
    env = fnval[2] if fnval[0] == 'func' else None
    while env:
        d = st.envs.get(env, {})
        for n, v in list(d.items()):
            if n == '__parent__':
                continue
            if v[0] == 'cont':
                st.set_cont(v, None)
            elif v[0] == 'const' and v[1] == 'float':
                st.set_env(env, n, ('sym', 'captured:' + n))
        env = d.get('__parent__')


def cycle(ctx):
    rep = ctx.rep
    con = 'cycle'
    vs = {k: V(ctx, k, con) for k in ('order', 'once', 'clock', 'finish', 'record')}
    for filepath in ('', 'x.wav'):
        I, ps, adc, dac = engine_paths(ctx, False, filepath)
        cbs = callbacks(ps)
        if not cbs:
            for v in vs.values():
                v.und('no stream callback found')
            continue
        fnval, p0 = cbs[0]
        args = [('sym', 'in_data'), ('sym', 'frame_count'), ('sym', 'time_info'), ('sym', 'status')]
        # the first cycle
        first = I.run_value(fnval, args, st=p0.st)
        for p in first:
            for i in flat(p):
                if clock_write(i.ev) and is_const(i.ev.value) and i.ev.value[2] != 0:
                    vs['clock'].bad('the clock does not start at zero', i.ev)
        st = p0.st.fork()
        forget(st, I, fnval)
        qs = I.run_value(fnval, args, st=st)
        rep.paths += len(qs)
        seen = {'complete': False, 'continue': False}
        for p in qs:
            one(ctx, I, p, vs, adc, dac, filepath, seen)
        if seen.get('odd'):
            continue
        if not seen['complete']:
            vs['finish'].bad('completion is never reported', fnval_where(ctx, fnval))
        if not seen['continue']:
            vs['finish'].bad('every cycle ends the session', fnval_where(ctx, fnval))
    for v in vs.values():
        v.done()


def fnval_where(ctx, fnval):
    f = ctx.prog.funcs.get(fnval[1] if fnval[0] == 'func' else fnval[2])
    return f.where if f else ''


def one(ctx, I, p, vs, adc, dac, filepath, seen):
    its = list(flat(p))
    runs = [k for k, i in enumerate(its) if called(i.ev, 'execute_all_blocks') or i.ev.kind == 'call' and i.ev.fn == ('sym', 'execute_all_blocks')]
    clk = [k for k, i in enumerate(its) if clock_write(i.ev)]
    inj = [k for k, i in enumerate(its) if called(i.ev, 'inject_samples')]
    col = [k for k, i in enumerate(its) if called(i.ev, 'collect_samples')]
    where = its[0].ev if its else ''
    if p.raises and not runs:
        return
    if any(its[k].loops for k in runs + clk + inj + col):
        seen['odd'] = True
        for v in vs.values():
            v.und('inside a loop')
        return
    if len(runs) > 1:
        vs['once'].bad('the blocks are run %d times in one cycle' % len(runs), its[runs[1]].ev)
        return
    if not runs:
        vs['once'].bad('there is a cycle in which the blocks are not run', where)
        return
    run = runs[0]
    if not clk:
        vs['clock'].bad('the clock is not set in a cycle', its[run].ev)
        return
    if min(clk) > run:
        vs['order'].bad('the clock is set only after the blocks are run', its[clk[0]].ev)
    elif len(clk) > 1 and max(clk) > run:
        vs['clock'].und('the clock is set again after the run')
    indata = p.facts.get(('truthy', ('sym', 'in_data'), 0))
    if indata is None:
        indata = next((v for k, v in p.facts.items() if k[0] == 'truthy' and k[1] == ('sym', 'in_data')), None)
        if indata is None:
            n = next((v for k, v in p.facts.items() if k[0] == 'eq' and ('sym', 'in_data') in k and NONE in k), None)
            indata = None if n is None else not n
    if indata is True:
        if not inj:
            if not any(subterm(x, ('sym', 'in_data')) for i in its if i.ev.kind in ('write', 'setitem') for x in [i.ev.value]):
                vs['order'].bad('recorded input never reaches the input block', its[run].ev)
            else:
                vs['order'].und('input')
        else:
            if not any(subterm(a, ('sym', 'in_data')) for k in inj for a in its[k].ev.args):
                vs['order'].und('what is injected')
            if min(inj) > run:
                vs['order'].bad('recorded input is injected after the blocks are run', its[inj[0]].ev)
            elif clk and min(inj) > max(clk):
                vs['order'].bad('the clock is set before the recorded input is injected', its[inj[0]].ev)
            if len(inj) > 1:
                vs['order'].bad('recorded input is injected more than once', its[inj[1]].ev)
    elif indata is None:
        vs['order'].und('when input is injected')
    if not col:
        seen['odd'] = True
        if not p.raises:
            vs['order'].und('output not collected by collect_samples')
        return
    if min(col) < run:
        vs['order'].bad('output is collected before the blocks are run', its[col[0]].ev)
        return
    t = its[max(k for k in clk if k < run)].ev.value if min(clk) < run else its[clk[0]].ev.value
    if its[col[0]].ev.failed is not None:
        return
    got = its[col[0]].ev.result
    if p.facts.get(('eq', NONE, got)) or p.facts.get(('truthy', got, 0)) is False:
        return      # collecting always yields samples
    if p.raises:
        vs['order'].und('raises')
        return
    # advance
    interval = ctx.const('klang.audio.helpers.INTERVAL')
    moved = [i.ev for i in its if i.ev.kind in ('nlwrite', 'write', 'gwrite') and i.ev.value is not None and not clock_write(i.ev) and
             (getattr(i.ev, 'old', None) == t or subterm(i.ev.value, t) and i.ev.value[0] == 'op')]
    def plus(x, y):
        return ('op', '+', (x, y))
    nxt = [plus(t, interval), plus(interval, t)]
    if any(subterm(t, ('sym', a)) for a in ('in_data', 'frame_count', 'time_info', 'status')):
        vs['clock'].bad('the clock is set to %s instead of the play time' % show(t), its[clk[0]].ev)
    elif t[0] == 'sym' and t[1].startswith('captured:') or t[0] == 'fld':
        if not moved:
            vs['clock'].bad('the play time does not advance in a cycle that was played', where)
        elif len(moved) > 1:
            if sum(m.value in nxt for m in moved) > 1:
                vs['clock'].und('written more than once')
            elif moved[-1].value not in nxt:
                vs['clock'].bad('the play time does not advance by one buffer duration', moved[-1])
        elif moved[0].value not in nxt:
            if shaped(moved[0].value, t) or moved[0].value[0] == 'call' and moved[0].value[1] in ROUND:
                vs['clock'].bad('the play time advances by %s instead of one buffer duration' % show(moved[0].value), moved[0])
            else:
                vs['clock'].und('advance')
    elif t in nxt or any(subterm(t, x) for x in nxt):
        vs['clock'].und('play time')
    elif is_const(t):
        vs['clock'].und('play time is a constant')
    else:
        vs['clock'].und('play time')
    # result
    v = p.value
    if v[0] != 'tuple' or len(v[1]) != 2:
        seen['odd'] = True
        vs['finish'].und('result')
        vs['record'].und('result')
        return
    data, code = v[1]
    name = code[1].rpartition('.')[2] if code[0] == 'ext' else code[2] if code[0] == 'const' and isinstance(code[2], str) else None
    dur = ('sym', 'duration')
    rel = {}
    for k, val in p.facts.items():
        if k[0] == 'lt' and dur in k[1:]:
            other = k[2] if k[1] == dur else k[1]
            rel[(other, 'dur<x' if k[1] == dur else 'x<dur')] = val
    done = None
    odd = None
    for (x, kind), val in rel.items():
        if x in nxt and kind == 'x<dur':
            done = not val
        elif x in nxt and kind == 'dur<x':
            if val:
                done = True
            else:
                odd = 'ends one cycle too late when the end is exactly reached'
        elif any(x in (plus(y, interval), plus(interval, y)) for y in nxt):
            odd = odd or 'completion is judged by the end of the next cycle'
        elif x == t:
            odd = odd or 'completion is judged by the start of the cycle'
    if name == 'paComplete':
        seen['complete'] = True
    elif name == 'paContinue':
        seen['continue'] = True
    elif name == 'paAbort' or name is None:
        seen['odd'] = True
        vs['finish'].und('code %s' % show(code))
    if name in ('paComplete', 'paContinue'):
        if done is True and name != 'paComplete':
            vs['finish'].bad('goes on although the duration is reached', where)
        elif done is False and name != 'paContinue':
            vs['finish'].bad('ends before the duration is reached', where)
        elif done is None:
            if odd:
                vs['finish'].bad(odd, where)
            elif name == 'paComplete' or not rel:
                vs['finish'].und('condition')
            else:
                vs['finish'].und('condition')
    same = lambda x: x == got or x[0] == 'op' and x[1] == '*' and got in x[2]
    if not same(data):
        if subterm(data, got):
            vs['record'].und('chunk')
        else:
            vs['record'].bad('what is played is not what was collected', where)
    apps = []       # (event, recorded value | None)
    for i in its:
        e = i.ev
        if e.kind == 'mut' and e.op in ('append', 'insert', 'appendleft') and any(subterm(a, got) for a in e.args):
            apps.append((e, e.args[0] if e.op == 'append' else None))
        elif e.kind == 'mut' and e.op == 'extend' and e.args and not any(x.node is e.node for x, _ in apps) or e.kind == 'iop' and e.op == '+' and not any(x.node is e.node for x, _ in apps):
            x = e.args[0] if e.kind == 'mut' else e.value
            items = I.contents(x, p.st)
            if items is not None and any(subterm(a, got) for a in items):
                apps += [(e, a) for a in items]
    if filepath:
        if not apps:
            if any(subterm(x, got) for i in its if i.ev.kind in ('write', 'nlwrite', 'setitem', 'call') and not called(i.ev, 'collect_samples')
                   for x in [getattr(i.ev, 'value', None)] + list(getattr(i.ev, 'args', None) or ()) if isinstance(x, tuple) and x != data and not same(x)):
                vs['record'].und('recorded in another way')
            else:
                vs['record'].bad('a cycle is played but not recorded', where)
        elif len(apps) > 1:
            vs['record'].bad('a chunk is recorded %d times' % len(apps), apps[1][0])
        elif apps[0][1] is None:
            vs['record'].und('recorded by %s' % apps[0][0].op)
        else:
            e, x = apps[0]
            for i in its:
                if i.ev.base == e.base if i.ev.kind in ('setitem', 'mut') else False:
                    if i.ev.kind == 'setitem' and i.ev.key[0] == 'op' and partial(i.ev.value, p.st) or i.ev.kind == 'mut' and i.ev.op in (
                            'clear', 'pop', 'popleft', 'remove', 'delitem'):
                        vs['record'].bad('recorded chunks are dropped again', i.ev)
            y = copied(x)
            at = [k for k, i in enumerate(its) if i.ev is e][0]
            later = any(i.ev.kind == 'iop' and i.ev.base in (got, y) for i in its[at:])
            if y is not None and same(y):
                if later:
                    vs['record'].bad('the chunk is recorded before it is changed', e)
            elif not (x == data or same(x) and later):
                if same(x):
                    vs['record'].bad('the recorded chunk is not the one that is played', e)
                else:
                    vs['record'].und('recorded value')


def copied(x):
    """What x is a copy of, or None."""
    if x[0] == 'call' and x[1][0] == 'extm' and x[1][2] == 'copy' and not x[2]:
        return x[1][1]
    if x[0] == 'call' and x[1] in ('numpy.copy', 'numpy.array', 'copy.copy', 'copy.deepcopy') and x[2]:
        return x[2][0]
    return None


ROUND = ('builtins.round', 'builtins.int', 'math.floor', 'math.ceil', 'numpy.round', 'numpy.floor', 'numpy.ceil', 'numpy.rint')


def shaped(v, t):
    """t plus or times something constant."""
    return v == t or v[0] == 'op' and v[1] in ('+', '-', '*') and t in v[2] and all(x == t or is_const(x) for x in v[2])


def offline(ctx):
    v = V(ctx, 'offline', 'run_audio_engine(offline)')
    for filepath in ('', 'x.wav'):
        I, ps, adc, dac = engine_paths(ctx, True, filepath)
        if not ps:
            v.und('no path')
            continue
        for p in ps:
            if p.raises:
                continue
            its = list(flat(p))
            runs = [i for i in its if i.ev.kind == 'call' and i.ev.fn == ('sym', 'execute_all_blocks')]
            if not runs:
                v.und('no cycle found')
                continue
            if any(len(i.loops) != 1 for i in runs):
                v.und('cycles are not run in one loop')
                continue
            lv = runs[0].loops[0][0]
            for q in lv.paths:
                n = sum(1 for e in q.events if e.kind == 'call' and e.fn == ('sym', 'execute_all_blocks'))
                if n > 1:
                    v.bad('the blocks are run %d times in one cycle' % n, lv)
            for w in [i for i in its if called(i.ev, 'write_wave')]:
                if w.loops:
                    v.und('written in a loop')
                for a in w.ev.args:
                    if a[0] == 'call' and a[1] in ('numpy.concatenate', 'numpy.vstack') and a[2] and partial(a[2][0], p.st):
                        v.bad('a part of what was recorded is not written', w.ev)
                if not filepath:
                    v.bad('a file is written that was not asked for', w.ev)
            if filepath and not any(called(i.ev, 'write_wave') for i in its):
                v.bad('the recording is never written', lv)
    v.done()


def inject(ctx):
    v = V(ctx, 'inject', 'Adc.inject_samples')
    m = ctx.method(KG + '.Adc', 'inject_samples')
    if m is None:
        v.und()
        return v.done()
    I = ctx.interp()
    o = ctx.obj(KG + '.Adc', 'adc')
    smp = ('sym', 'samples')
    for p in ctx.run(I, m[0], args=[o, smp], cls=m[1]) or []:
        if p.raises:
            v.und('raises')
            continue
        sets = [i for i in flat(p) if i.ev.kind == 'write' and i.ev.attr == '_value' or i.ev.kind == 'call' and not i.ev.inlined and i.ev.fn[0] == 'extm' and i.ev.fn[2] == 'set_value']
        if not sets:
            v.bad('no output gets recorded samples', m[0].where)
            continue
        for i in sets:
            if len(i.loops) != 1:
                v.und('not in one loop')
                continue
            lv = i.loops[0][0]
            val = i.ev.value if i.ev.kind == 'write' else i.ev.args[0]
            if not subterm(val, smp):
                v.und('value')
            if lv.iter[0] == 'call' and lv.iter[1] == 'builtins.zip':
                sig = [x for x in lv.iter[2] if subterm(x, smp)]
                if len(sig) == 1 and src_of(sig[0], p.st) == smp:
                    v.bad('channels are taken from the rows (frames) of the recorded samples', i.ev)
                elif sum(backwards(x) for x in lv.iter[2]) % 2:
                    v.bad('the channels reach the outputs in reverse order', i.ev)
                elif any(partial(x, p.st) for x in lv.iter[2]):
                    v.bad('some channels are left out', i.ev)
            if any(not any(e.kind == 'write' and e.attr == '_value' or e.kind == 'call' and not e.inlined and e.fn[0] == 'extm' and e.fn[2] == 'set_value' for e in q.events) for q in lv.paths):
                q = [q for q in lv.paths if not any(e.kind == 'write' and e.attr == '_value' or e.kind == 'call' and not e.inlined and e.fn[0] == 'extm' and e.fn[2] == 'set_value' for e in q.events)][0]
                outs = [x for x in (lv.elem[1] if lv.elem is not None and lv.elem[0] == 'tuple' else (lv.elem,)) if x is not None and not subterm(x, smp)]
                if not q.raises and any(k[0] == 'truthy' and any(subterm(k[1], x) for x in outs) for k in q.facts):
                    v.bad('some outputs are left out', i.ev)
                else:
                    v.und('some iterations set nothing')
    v.done()


def backwards(t):
    if t[0] == 'call' and t[1] == 'builtins.reversed':
        return True
    return t[0] == 'idx' and t[2] == ('op', 'slice', (NONE, NONE, ('op', 'u-', (C(1),)))) or t[0] == 'idx' and t[2] == ('op', 'slice', (NONE, NONE, C(-1)))


def shared(ctx):
    v = V(ctx, 'read', 'ClockMixin')
    src = '''
from klang.block import Block
from klang.clock import ClockMixin


class Timed(ClockMixin, Block):
    pass


def client(first, second):
    block = Timed()
    ClockMixin.set_current_time(first)
    a = block.clock()
    ClockMixin.set_current_time(second)
    return a, block.clock(), ClockMixin.clock()
'''
    I = ctx.interp()
    m = ctx.method('klang.clock.ClockMixin', 'set_current_time')
    want = ('tuple', (('sym', 'first'), ('sym', 'second'), ('sym', 'second')))
    for p in ctx.run(I, ctx.client(src)) or ():
        where = m[0].where if m else ''
        if not p.normal:
            v.und('raises')
        elif p.value != want:
            ts = p.value[1] if p.value[0] == 'tuple' else ()
            if any(t != w and (is_const(t) or t[0] == 'call' and t[1] in ROUND + ('builtins.max', 'builtins.min') or t[0] == 'sym' or t[0] in ('glob', 'fld')) for t, w in zip(ts, want[1])):
                v.bad('after %s is set %s is read' % (', then '.join(show(t) for t in want[1][:2]), ', '.join(show(t) for t in ts)), where)
            else:
                v.und('what is read')
    v.done()


def upd(ev):
    if ev.kind == 'mut' and ev.op == 'update' and not ev.args:
        return ev.base
    m = method_call(ev, 'update') if ev.kind == 'call' and not ev.inlined else None
    return bool(m and not m[2]) and m[0]


def klang_paths(ctx):
    f = ctx.prog.func('klang.klang.run_klang')
    I = ctx.interp(opaque=lambda g: g.name in ('determine_execution_order', 'run_audio_engine', 'look_for_audio_blocks', 'validate_global_execution_order', 'sleep_until_next_cycle') or g.name == 'update' and g.cls is not None)
    return I, ctx.run(I, f, args=[('star', ('sym', 'blocks'))])


def updates_once(v, p, order, where):
    ups = [i for i in flat(p) if upd(i.ev)]
    if not ups:
        v.bad('the blocks are not updated', where)
        return
    loops = {i.loops[-1][0].loopid if i.loops else None for i in ups}
    if None in loops:
        v.und('update outside a loop')
        return
    if len(loops) > 1:
        ls = [i.loops[-1][0] for i in ups]
        if all(src_of(x.iter, p.st) == order for x in ls):
            v.bad('the blocks are updated by more than one loop', ls[1])
        elif any(b[0] == 'fld' and b[1][0] == 'elem' and src_of(b[1][1], p.st) == order for b in (src_of(x.iter, p.st) for x in ls)):
            v.bad('a block of the order is not run itself, but what is inside it', [x for x in ls if src_of(x.iter, p.st) != order][0])
        else:
            v.und('loops')
        return
    lv = ups[0].loops[-1][0]
    base = src_of(lv.iter, p.st)
    pa = partial(lv.iter, p.st)
    if pa:
        v.bad('only a part of the order is run', lv)
    elif lv.iter[0] == 'call' and lv.iter[1] == 'builtins.reversed':
        v.bad('the blocks are run in reverse order', lv)
    elif base == ('sym', 'blocks') or base == ('call', 'rest', (('sym', 'blocks'),), (), None):
        v.bad('only the starting blocks are run', lv)
        return
    elif base != order:
        v.und('what is run: %s' % show(base))
        return
    for q in lv.paths:
        n = sum(1 for i in flat(q) if upd(i.ev) == lv.elem)
        if n > 1:
            v.bad('a block is updated %d times' % n, lv)
        elif n == 0:
            if not any(k[0] in ('truthy', 'eq', 'lt', 'in', 'isinst', 'hasattr') and subterm(k, lv.elem) for k in q.facts) and q.facts:
                v.und('a block may be skipped')
            else:
                v.bad('a block may be skipped', lv)


def runner(ctx):
    v = V(ctx, 'run', 'execute_all_blocks')
    I, ps = klang_paths(ctx)
    found = False
    for p in ps or []:
        if p.raises:
            continue
        order = [e.result for e in p.events if called(e, 'determine_execution_order')]
        for e in p.events:
            if called(e, 'look_for_audio_blocks') and e.args and order and src_of(e.args[0], p.st) in (('sym', 'blocks'), ('call', 'rest', (('sym', 'blocks'),), (), None)):
                v.bad('audio blocks that are not given directly are not found', e)
            if called(e, 'run_audio_engine'):
                fns = [a for a in list(e.args) + [x for _, x in e.kwargs] if a[0] in ('func', 'bound', 'partial')]
                if len(fns) != 1 or len(order) != 1:
                    v.und('callback')
                    continue
                found = True
                for q in I.run_value(fns[0], st=p.st):
                    if q.raises:
                        v.und('raises')
                    else:
                        updates_once(v, q, order[0], fns[0][0] == 'func' and fnval_where(ctx, fns[0]))
    if not found:
        v.und('no call of the audio engine')
    v.done()


def mainloop(ctx):
    v = V(ctx, 'run', 'main loop without audio')
    I, ps = klang_paths(ctx)
    ends = list(I.endless)
    if not ends:
        v.und('no endless loop')
    for p in ends:
        order = [e.result for e in p.events if called(e, 'determine_execution_order')]
        lv = p.events[-1]
        if lv.kind != 'loop' or len(order) != 1:
            v.und('shape')
            continue
        for q in lv.paths:
            clk = [k for k, e in enumerate(q.events) if clock_write(e)]
            ups = [k for k, e in enumerate(q.events) if e.kind == 'loop' and any(upd(i.ev) for r in e.paths for i in flat(r))]
            if not clk:
                v.bad('the clock is not set', lv)
                continue
            updates_once(v, q, order[0], lv)
            if ups and min(clk) > min(ups):
                v.bad('the blocks are run before the clock is set', q.events[ups[0]])
    v.done()


def buffer(ctx):
    v = V(ctx, 'buffer', 'INTERVAL')
    try:
        i, b, s = (ctx.const(x) for x in ('klang.audio.helpers.INTERVAL', 'klang.config.BUFFER_SIZE', 'klang.config.SAMPLING_RATE'))
    except KeyError:
        v.und()
        return v.done()
    if not all(is_const(x) for x in (i, b, s)):
        v.und()
    elif abs(i[2] - b[2] / s[2]) > 1e-12:
        v.bad('is %g, not %d / %d s' % (i[2], b[2], s[2]), 'klang/audio/helpers.py')
    v.done()
