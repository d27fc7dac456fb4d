"""Descriptors: one abstract construction, rendered as a JSON-like descriptor for curvepy and
as a reference model.  An abstract construction (AST) is a JSON list, so histories stay JSON.

  ['num', v]  ['ref', id]  ['line', form, p, m]  ['dline', [[text, ts, y], [text, ts, y]]]
  ['pts', [[x, y]...]]  ['dpts', [[text, ts, y], [text, ts, y]], where]
  ['agg', op, style, [ast...]]  ['un', which, style, ast]  ['m', method, {params}, style, ast]
  ['atlog', base, ast]          (numbers inside are in log space)
styles: 'list', 'args', 'args2', 'chain', 'chain2'
"""
import math

from . import model as Mo

AGG = {'add': 'add', 'sub': 'subtract', 'mul': 'multiply', 'div': 'divide', 'pow': 'pow', 'min': 'min', 'max': 'max',
       'first': 'first', 'mine': 'min', 'maxe': 'max'}
UN = {'abs': 'abs', 'neg': 'additive_inverse', 'inv': 'multiplicative_inverse'}


def is_func(ast):
    if ast[0] == 'atlog':
        return is_func(ast[2])
    return ast[0] in ('line', 'dline', 'agg', 'un', 'm', 'const')


def render(ast, nodes):
    """the descriptor; curves of the world are passed through as they are"""
    k = ast[0]
    if k == 'num':
        return ast[1]
    if k == 'const':
        return {'$' + ast[2]: ast[1]}
    if k == 'ref':
        return nodes[ast[1]]
    if k == 'line':
        _, form, p, m = ast
        if form == 'points':
            return {'$line': {'points': [[p[0], p[1]], [p[0] + 2, p[1] + 2 * m]]}}
        if form == 'p12':
            return {'$line': {'p1': [p[0], p[1]], 'p2': [p[0] + 2, p[1] + 2 * m]}}
        if form == 'pm':
            return {'$line': {'p1': [p[0], p[1]], 'slope': m}}
        return {'$line': {'const': p[1] - p[0] * m, 'slope': m}}
    if k == 'dline':
        pts = ast[1]
        if ast[2] == 'outer':
            return {'@date': {'$line': {'points': [[t, y] for t, _, y in pts]}}}
        if ast[2] == 'ends':
            return {'$line': {'p%d' % (i + 1): [{'@date': p[0]}, p[2]] for i, p in enumerate(pts)}}
        return {'$line': {'points': [[{'@date': t}, y] for t, _, y in pts]}}
    if k == 'pts':
        return [[x, y] for x, y in ast[1]]
    if k == 'dpts':
        return {'@date': [[t, y] for t, _, y in ast[1]]} if ast[2] == 'outer' else [[{'@date': t}, y] for t, _, y in ast[1]]
    if k == 'agg':
        _, op, style, args = ast
        name = '$' + AGG[op]
        kw = {'ignore_empty': True} if op in ('mine', 'maxe') else {}
        d = chain(args[0], nodes) if style in ('chain', 'chain2') else None
        if d is not None and name not in d:
            rest = [render(a, nodes) for a in args[1:]]
            if style == 'chain2':
                # the operands as one list: what is chained becomes the first of them
                rest = dict({'@args': [rest]}, **kw)
            elif kw:
                rest = dict({'@args': rest}, **kw)
            elif len(rest) == 1 and not is_func(args[1]) and args[1][0] == 'num':
                rest = rest[0]
            d[name] = rest
            return d
        rest = [render(a, nodes) for a in args]
        if style in ('args2', 'chain2'):
            return {name: dict({'@args': [rest]}, **kw)}
        if kw or style == 'args':
            return {name: dict({'@args': rest}, **kw)}
        return {name: rest}
    if k == 'un':
        _, which, style, src = ast
        name = '$' + UN[which]
        return attach(name, [], {}, style, src, nodes)
    if k == 'm':
        _, meth, par, style, src = ast
        args, kw = method_args(meth, par, nodes)
        return attach('$' + meth, args, kw, style, src, nodes)
    if k == 'atlog':
        _, base, src = ast
        return {'@log' + ('' if base == 0 else str(base)): render(src, nodes)}
    raise KeyError(k)


def chain(ast, nodes):
    d = render(ast, nodes)
    return dict(d)


def attach(name, args, kw, style, src, nodes):
    d = chain(src, nodes) if style == 'chain' else {}
    if not d or name in d:
        d = {}
        args = [render(src, nodes)] + args
    if kw and args:
        d[name] = dict({'@args': args}, **kw)
    elif kw:
        d[name] = dict(kw)
    elif len(args) == 1 and style == 'bare' and not isinstance(args[0], (dict, list)):
        d[name] = args[0]
    else:
        d[name] = args
    return d


def method_args(meth, p, nodes):
    u = {} if p.get('u', True) else {'uniform': False}
    if p.get('init'):
        u['init'] = render(p['init'], nodes)
    if 'interp' in p:
        u['interpolation'] = p['interp']
    if meth in ('sma', 'ema', 'trailing_min', 'trailing_max') and 'p' in p:
        return [p['p']], dict(u, is_period=True)
    if meth in ('sma', 'smma'):
        return [p['n']], u
    if meth == 'ema':
        return [p['alpha']], u
    if meth in ('trailing_min', 'trailing_max'):
        return [p['n']], u
    if meth == 'subset':
        return [[p['a'], p['b']]], {}
    if meth == 'offset':
        return [p['d']], {}
    if meth == 'integral':
        return [], dict(u, const=p['c'])
    if meth == 'log':
        return [], {'base': p['base']}
    if meth == 'log2':
        return [], {}
    if meth == 'log10':
        return [], {}
    if meth == 'raised':
        return [], {'base': p['base']}
    if meth == 'extension':
        return [p.get('k', 'constant')], {'start': p['start'], 'end': p['end']}
    if meth == 'differential':
        return [], {'forward': p['fwd']}
    if meth == 'blend':
        return [render(p['to'], nodes), p['a'], p['b']], {}
    raise KeyError(meth)


def to_model(w, ast, base=None):
    """base: None, or the base of the log space the numbers are in"""
    lg = (lambda v: v) if base is None else (lambda v: math.log(v) / math.log(base))
    k = ast[0]
    if k == 'num' or k == 'const':
        return Mo.Const(w, lg(ast[1]))
    if k == 'ref':
        return w.models[ast[1]]
    if k == 'line':
        _, form, p, m = ast
        if base is None:
            return Mo.Line(w, p, m)
        # only the form with two points is used inside log spaces: x and y are logs
        a, b = (lg(p[0]), lg(p[1])), (lg(p[0] + 2), lg(p[1] + 2 * m))
        return Mo.Line(w, a, (b[1] - a[1]) / (b[0] - a[0]))
    if k == 'dline':
        (_, t0, y0), (_, t1, y1) = ast[1]
        y0, y1 = lg(y0), lg(y1)
        return Mo.Line(w, (t0, y0), (y1 - y0) / (t1 - t0))
    if k == 'pts':
        return Mo.Pts(w, ast[1])
    if k == 'dpts':
        return Mo.Pts(w, [(t, y) for _, t, y in ast[1]])
    if k == 'agg':
        return Mo.Agg(w, ast[1], [to_model(w, a, base) for a in ast[3]])
    if k == 'un':
        return Mo.NegAbs(w, to_model(w, ast[3], base), ast[1])
    if k == 'm':
        _, meth, p, _, src = ast
        s = to_model(w, src, base)
        if meth == 'sma':
            return Mo.Sma(w, s, n=p.get('n'), period=p.get('p'))
        if meth == 'smma':
            return Mo.Ema(w, s, alpha=1 / p['n'], init=Mo.Sma(w, s, n=p['n']))
        if meth == 'ema':
            return Mo.Ema(w, s, alpha=p.get('alpha'), period=p.get('p'), init=to_model(w, p['init'], base) if p.get('init') else None)
        if meth in ('trailing_min', 'trailing_max'):
            return Mo.Trail(w, s, meth[9:], n=p.get('n'), period=p.get('p'), interp=p.get('interp') or 0)
        if meth == 'offset':
            return Mo.Off(w, s, p['d'])
        if meth == 'subset':
            return Mo.Piece(w, [s], [[p['a'], p['b'], False, False]])
        if meth == 'integral':
            return Mo.Integ(w, s, p['c'], 0)
        if meth in ('log', 'log2', 'log10'):
            return Mo.Agg(w, 'log', [s, Mo.Const(w, p['base'])])
        if meth == 'raised':
            return Mo.Agg(w, 'pow', [Mo.Const(w, p['base']), s])
        if meth == 'extension':
            return Mo.Ext(w, s, p.get('k', 'constant'), p['start'], p['end'])
        if meth == 'differential':
            return Mo.Diff(w, s, p['fwd'])
        if meth == 'blend':
            return Mo.Blend(w, s, to_model(w, p['to'], base), p['a'], p['b'])
        raise KeyError(meth)
    if k == 'atlog':
        b = ast[1] or math.e
        return Mo.Agg(w, 'pow', [Mo.Const(w, b), to_model(w, ast[2], b)])
    raise KeyError(k)


def refs(ast):
    if isinstance(ast, dict):
        ast = list(ast.values())
    if not isinstance(ast, list):
        return set()
    if len(ast) == 2 and ast[0] == 'ref':
        return {ast[1]}
    out = set()
    for a in ast:
        out |= refs(a)
    return out


def xs_of(ast):
    if isinstance(ast, dict):
        ast = list(ast.values())
    if not isinstance(ast, list):
        return []
    if ast and ast[0] == 'pts':
        return [p[0] for p in ast[1]]
    if ast and ast[0] in ('dline', 'dpts'):
        return [p[1] for p in ast[1]]
    out = []
    for a in ast:
        out += xs_of(a)
    return out


def freeze(d, nodes):
    """a comparable copy of a descriptor"""
    if isinstance(d, dict):
        return [('d', k, freeze(v, nodes)) for k, v in d.items()]
    if isinstance(d, (list, tuple)):
        return [type(d).__name__] + [freeze(v, nodes) for v in d]
    if d is None or isinstance(d, (int, float, str, bool)):
        return (type(d).__name__, d)
    return id(d)


# descriptors which must be refused, whatever came before
BAD = [
    {'$nosuchfunction': [1, 2]},
    {'@log': {'$add': [1, -2]}},
    {'@log2': {'$add': [4, {'$nosuch': []}]}},
    {'@date': {'$line': {'points': [['not a date', 1], ['2020-01-02', 2]]}}},
    {'$line': {'points': [[{'@date': '2020-13-41 99:00'}, 1], [{'@date': '2020-01-02'}, 2]]}},
    {'$constant': 1, 'oops': 2},
    {'@log10': {'$line': {'points': [[1, 10], [2, 0]]}}},
    {'$add': {'@args': [1, {'@log': -5}]}},
    {'$constant': 3, '$nosuch': [1]},
    {'@log2': {'$sma': {'@args': [{'$constant': 4}]}}},
]
