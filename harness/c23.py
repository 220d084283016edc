"""C23: a custom log handler replaces the default one of its kind."""
import io
import logging
import logging.handlers

BOUNDS = ('every integer level; sequences of up to 3 configurations, each with or without a level, a '
          'stream handler and a file handler of several classes; every combination of an initial default, custom or no '
          'stream handler, file handler and another handler, with any handler levels')
STUBS = 'logging._checkLevel accepts the symbolic level in symbolic runs'
OUTSIDE = 'loggers with more than one handler of a kind (documented assumption of the package)'


class OwnStream(logging.StreamHandler):
    pass


class OwnFile(logging.handlers.RotatingFileHandler):
    pass


def stream(i):
    return logging.StreamHandler(io.StringIO()) if i == 0 else OwnStream(io.StringIO())


def file(i):
    return logging.FileHandler('/dev/null', delay=True) if i == 0 else OwnFile('/dev/null', delay=True)


def same(a, b):
    return len(a) == len(b) and all(any(x is y for y in b) for x in a)


def configure(cx, calls, level):
    """calls: per call the options given, letters of 'lsf'"""
    from gerabaldi.helpers import configure_logger
    lg = logging.getLogger('gerabaldi')
    old = (list(lg.handlers), lg.level, lg.propagate, lg.disabled, logging._checkLevel, list(lg.filters))
    default = [h for h in old[0] if type(h) is not logging.StreamHandler and isinstance(h, logging.StreamHandler)]
    if cx.symbolic:
        logging._checkLevel = lambda x: x if isinstance(x, cx.C.Sym) else old[4](x)
    try:
        st = {'none': None, 'own': stream(1), 'plain': stream(0), 'default': (default or [stream(0)])[0]}[
            cx.choice('stream', ['default', 'plain', 'own', 'none'])]
        fi = {'none': None, 'plain': file(0), 'own': file(1)}[cx.choice('file', ['none', 'plain', 'own'])]
        other = logging.NullHandler() if cx.choice('other', [False, True]) else None
        order = [h for h in ((fi, other, st) if cx.choice('file first', [False, True]) else (st, fi, other)) if h is not None]
        lg.handlers = list(order)
        lv = cx.int('start', 0, 100)
        lg.level = lv
        for i, call in enumerate(calls):
            kw = {}
            if 'l' in call:
                kw['logging_level'] = cx.int(f'level{i}', 0, 1000) if level == 'int' else \
                    cx.choice(f'level{i}', [logging.NOTSET, logging.DEBUG, logging.WARNING, logging.CRITICAL])
                lv = kw['logging_level']
            if 's' in call:
                kw['stream_handler'] = st = stream(cx.choice(f's{i}', [0, 1]))
                st.level = cx.int(f'sl{i}', 0, 50)
            if 'f' in call:
                kw['file_handler'] = fi = file(cx.choice(f'f{i}', [0, 1]))
                fi.level = cx.int(f'fl{i}', 0, 50)
            hl = [(h, h.level) for h in (st, fi, other) if h is not None]
            configure_logger(**kw)
            cx.check(f'call {i}: exactly the handlers', same(lg.handlers, [h for h, _ in hl]))
            cx.eq(f'call {i}: level', lg.level, lv)
            for j, (h, v) in enumerate(hl):
                cx.eq(f'call {i}: level of handler {j}', h.level, v)
        cx.check('nothing else changes', lg.propagate == old[2] and lg.disabled == old[3] and lg.filters == old[5])
        if not cx.symbolic:
            emit(cx, lg, st, lv)
    finally:
        lg.handlers, lg.level, lg.propagate, lg.disabled, logging._checkLevel, lg.filters = old
        lg.manager._clear_cache()


def emit(cx, lg, st, lv):
    """the remaining stream handler gets the messages of at least the levels, once"""
    if st is None or not isinstance(getattr(st, 'stream', None), io.StringIO):
        return
    for n in (10, 20, 30, 40, 50):
        lg.manager._clear_cache()
        at = st.stream.tell()
        lg.log(n, 'message')
        got = st.stream.getvalue()[at:].count('message')
        eff = lg.getEffectiveLevel()
        cx.check(f'messages of level {n}', got == (1 if n >= eff and n >= st.level else 0))


HARNESS = {
    'configure': dict(fn=configure, opts=dict(witnesses=40), configs=lambda t: [
        dict(calls=c, level='int') for c in (('',), ('l',), ('s',), ('f',), ('sf',), ('lsf',), ('s', 's'), ('f', 'f'),
                                             ('sf', 'l', 'f'), ('l', 'sf', 's'), ('s', 'f', ''), ('f', 's', 'l'))]
        + [dict(calls=('ls',), level='name')]),
}
