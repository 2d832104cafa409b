"""Outcomes of calls: what the reference model expects, what the library did, and whether they agree."""
import pydantic as pd

from . import ref as R


def match_errors(expected, actual):
    """
    :param expected: [(loc, type or None, message or None, [acceptable lines] or None)]
    :param actual: [(loc, type, message, line)]
    :return: (expected errors that are missing, actual errors that are unexpected)
    """
    left = list(actual)
    missing = []
    for exp in sorted(expected, key=lambda e: (e[1] is None, e[2] is None, repr(e))):
        loc, typ, msg, lines = exp
        for i, (aloc, atyp, amsg, aline) in enumerate(left):
            if tuple(aloc) == tuple(loc) and typ in (None, atyp) and msg in (None, amsg) \
                    and (lines is None or aline in lines):
                del left[i]
                break
        else:
            missing.append(exp)
    return missing, left


def split_line(msg):
    """'[line 3]: text' -> (3, 'text')"""
    if msg.startswith('[line ') and ']: ' in msg:
        head, rest = msg.split(']: ', 1)
        return int(head[6:]), rest
    return None, msg


def errors_of(exc):
    out = []
    for e in exc.errors(include_url=False):
        line, msg = split_line(e['msg'])
        out.append((tuple(e['loc']), e['type'], msg, line))
    return out


def expect_decode(ref, name, node, eas=False, fails=()):
    """('ok', value) | ('err', [...]) | ('root',)"""
    try:
        return ('ok', ref.decode(name, node, eas, fails))
    except R.RootMismatch:
        return ('root',)
    except R.Errs as e:
        return ('err', e.errors)


def actual_decode(app, fn):
    """Runs fn() -> instance. ('ok', value) | ('err', [...]) | ('root',) | ('parse', text) | ('exc', exception)"""
    be = app.backend
    try:
        obj = fn()
    except pd.ValidationError as e:
        m = next((m for m in app.spec.values() if m.get('title', m['name']) == e.title), None)
        if m and app.ref.configured(m['name'], 'hide_input_in_errors') and 'input_value=' in str(e):
            return ('shown', str(e))  # the model hides what it has read
        return ('err', errors_of(e))
    except be.errors.ParsingError as e:
        return ('root',)
    except be.parse_errors as e:
        return ('parse', str(e))
    except BaseException as e:
        return ('exc', e)
    try:
        return ('ok', R.observe(app, obj))
    except R.Strange as e:
        return ('strange', str(e))


def differ(expected, actual, lines=True):
    """None if the outcomes agree, else what is wrong."""
    if expected[0] != actual[0]:
        detail = f': {actual[1]!r}' if len(actual) > 1 else ''
        want = f': {expected[1]!r}' if len(expected) > 1 else ''
        return f'expected {expected[0]}{want}, got {actual[0]}{detail}'
    if expected[0] == 'ok':
        if R.norm(expected[1]) != R.norm(actual[1]):
            return f'expected value {expected[1]!r}, got {actual[1]!r}'
    elif expected[0] == 'err':
        exp = expected[1]
        if not lines:
            exp = [(loc, typ, msg, None) for loc, typ, msg, _ in exp]
        missing, extra = match_errors(exp, actual[1])
        if missing or extra:
            return f'errors missing: {missing!r}, unexpected: {extra!r}'
    return None
