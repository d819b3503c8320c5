"""Random programs.  Code is built as nested python lists and written with random layout."""

def layout(t, rng, wild=True):
    """text of a code tree; wild: line breaks and comments between the parts"""
    if isinstance(t, str): return t
    out = '('
    for i, e in enumerate(t):
        if i:
            k = rng.random() if wild else 1
            out += '\n' if k < .07 else '  ' if k < .1 else ' ; c\n' if k < .115 else '\n  ' if k < .16 else ' '
        out += layout(e, rng, wild)
    return out + ')'

def plain(t):
    return t if isinstance(t, str) else '(' + ' '.join(plain(e) for e in t) + ')'

INTS = ['0', '1', '2', '3', '5', '-1', '-4', '7', '12', '100']
DBLS = ['0.5', '1.0', '-2.25', '3.0', '0.0', '10.5']
STRS = ['""', '"a"', '"abc"', '"12"', '"x y"', '"B"', '"-3"', '"2.5"']
SYMS = ["'a", "'b", "(quote c)"]
MISC = ['nil', '(list)', '(make-dict)', '#t', '#f', '(lambda (x) x)', '+', '(do)', "'(1 2)", '(quote (a (b)))']
KEYS = ['1', '2', '1.0', '0.5', '"a"', '"b"', "'a", '#t', 'nil', '"1"']

class Gen:
    def __init__(self, rng, dirty=.03, effects=.1, funs=True, dicts=True, errors=.02, loops=True, macros=False, places=False):
        self.r = rng; self.dirty = dirty; self.effects = effects; self.funs = funs; self.dicts = dicts
        self.errors = errors; self.loops = loops; self.macros = macros; self.places = places
        self.vars = {'int': [], 'str': [], 'list': [], 'bool': [], 'dict': [], 'fn': []}
        self.fns = []          # (name, parameter types, result type)
        self.n = 0
        self.infn = 0
    def ch(self, *xs): return self.r.choice(xs)
    def p(self, x): return self.r.random() < x
    def new(self, pre):
        self.n += 1
        return pre + str(self.n) if self.p(.7) else self.ch('a', 'b', 'x', 'y', 'z')
    def snapshot(self): return {k: list(v) for k, v in self.vars.items()}
    def any(self, d): return self.e(self.ch('int', 'int', 'str', 'list', 'bool', 'misc'), d)
    def e(self, t, d):
        """expression of type t (most of the time)"""
        if self.p(self.dirty): t = self.ch('int', 'str', 'list', 'bool', 'misc', 'fn')
        if self.p(self.errors): return self.wrong(d)
        x = getattr(self, t)(d)
        if self.p(self.effects): x = ['do', ['println', '"%d"' % self.r.randint(0, 99)], x] if isinstance(x, list) else ['t', str(self.r.randint(0, 99)), x]
        return x
    def wrong(self, d):
        return self.ch('undefd', ['undefd', '1'], ['nth', '9', self.list(0)], ['/', '1', '0'], ['+', '1', 'nil'], ['first', '5'], ['if', '3', '4', '5'], ['setf', 'nowhere', '1'],
                       ['len', '3', '4'], ['1', '2'], ['first', ['list']], ['str'], ['<', "'a", "'b"], ['"f"', '1'], ['return', '1'], ['int', 'nil'], ['do', '1'])
    def var(self, t):
        return self.r.choice(self.vars[t]) if self.vars[t] else None
    def call(self, t, d):
        fs = [f for f in self.fns if f[2] == t]
        if not fs: return None
        f = self.r.choice(fs)
        a = [self.e(x, d - 1) for x in f[1]]
        if self.p(.06): a = a[:-1] if a and self.p(.5) else a + [self.any(0)]
        return [f[0]] + a
    def common(self, t, d):
        k = self.r.random()
        if k < .3: return self.call(t, d)
        if k < .5: return ['if', self.e('bool', d - 1), self.e(t, d - 1), self.e(t, d - 1)]
        if k < .62: return self.block(t, d)
        if k < .7 and self.funs:
            v = self.new('p'); s = self.snapshot(); u = self.ch('int', 'str', 'list')
            self.vars[u].append(v); b = self.body(t, d - 1); self.vars = s
            return [['lambda', [v], b], self.e(u, d - 1)] if self.p(.0) else ['apply', ['lambda', [v], b], ['list', self.e(u, d - 1)]]
        if k < .76: return ['first', ['list', self.e(t, d - 1)]]
        if k < .82: return ['eval', ['quote', self.e(t, d - 1)]]
        if k < .86 and self.dicts and self.vars['dict']: return ['dict-get', self.var('dict'), self.ch(*KEYS)]
        if k < .9: return ['rval', self.e(t, d - 1)]
        return None
    def pick(self, t, d, opts, lits):
        if d <= 0 or self.p(.2):
            v = self.var(t)
            return v if v and self.p(.65) else self.r.choice(lits)
        if self.p(.3):
            c = self.common(t, d)
            if c: return c
        return self.r.choice(opts)()
    def int(self, d):
        e = self.e
        return self.pick('int', d, [
            lambda: [self.ch('+', '-', '*', 'add', 'sub'), e('int', d - 1), e('int', d - 1)], lambda: ['+', e('int', d - 1), e('int', d - 1), e('int', d - 1)],
            lambda: ['len', e(self.ch('list', 'str'), d - 1)], lambda: ['%', e('int', d - 1), self.ch('3', '7', '2')], lambda: ['/', e('int', d - 1), self.ch('2', '3', '5')],
            lambda: ['reduce', ['lambda', ['x', 'acc'], ['+', 'acc', ['len', ['str', 'x']]]], e('list', d - 1), '0'],
            lambda: ['int', e('str', 0)] if self.p(.3) else ['-', e('int', d - 1)], lambda: ['search', e('str', 0), e('str', d - 1)],
            lambda: ['argscount'] if self.infn else e('int', d - 1)], INTS)
    def str(self, d):
        e = self.e
        return self.pick('str', d, [
            lambda: ['+', e('str', d - 1), self.any(d - 1)], lambda: ['str', self.any(d - 1)], lambda: ['format', '"{0}|{1,4}"', self.any(d - 1), self.any(d - 1)],
            lambda: ['slice', e('str', d - 1), self.ch('0', '1'), self.ch('-1', '1', '2')], lambda: [self.ch('upper-case', 'trim', 'reverse', 'first'), e('str', d - 1)],
            lambda: ['typestr', self.any(d - 1)], lambda: ['replace', e('str', d - 1), '"a"', '"bb"'], lambda: ['print', self.any(d - 1)]], STRS)
    def bool(self, d):
        e = self.e
        return self.pick('bool', d, [
            lambda: [self.ch('<', '>', '<=', '>=', '==', '!='), e('int', d - 1), e('int', d - 1)], lambda: [self.ch('==', '!='), self.any(d - 1), self.any(d - 1)],
            lambda: [self.ch('and', 'or')] + [e('bool', d - 1) for _ in range(self.r.randint(1, 3))], lambda: ['not', e('bool', d - 1)],
            lambda: ['<', e('str', d - 1), e('str', d - 1)]], ['#t', '#f', 'true', 'false'])
    def list(self, d):
        e = self.e
        fn1 = lambda: ['lambda', ['x'], self.ch(['list', 'x'], ['str', 'x'], ['t', '7', 'x'], ['do', ['println', 'x'], 'x'])]
        return self.pick('list', d, [
            lambda: ['list'] + [self.any(d - 1) for _ in range(self.r.randint(0, 3))], lambda: ['cons', self.any(d - 1), e('list', d - 1)],
            lambda: ['append', e('list', d - 1), e('list', d - 1)], lambda: [self.ch('rest', 'reverse', 'cdr'), e('list', d - 1)],
            lambda: ['map', fn1(), e('list', d - 1)], lambda: ['+', e('list', d - 1), e('list', d - 1)],
            lambda: ['quasiquote', ['1', ['_unquote', self.any(d - 1)], ['_unquotesplicing', e('list', d - 1)]]],
            lambda: ['push', self.any(d - 1), self.var('list') or ['list', '1']],
            lambda: ['args'] if self.infn else e('list', d - 1), lambda: ['dict-keys', self.var('dict') or '(make-dict)']],
            ['(list)', '(list 1 2 3)', "'(1 a)", 'nil', '(list "a" (list 2))'])
    def dict(self, d): return self.var('dict') or '(make-dict)'
    def fn(self, d): return self.var('fn') or self.ch('+', 'list', '(lambda (x) x)', 'str')
    def misc(self, d): return self.r.choice(MISC + DBLS + SYMS)
    def body(self, t, d):
        return self.block(t, d) if self.p(.6) else self.wrapped(t, d)
    def wrapped(self, t, d):
        x = self.e(t, d)
        return x if isinstance(x, list) else ['do', ['+', x, '0']] if False else ['if', '#t', x, x]
    def block(self, t, d):
        s = self.snapshot()
        out = ['do'] + [x for _ in range(self.r.randint(0, 3)) for x in [self.stmt(d - 1)] if isinstance(x, list)]
        last = self.e(t, d - 1)
        if isinstance(last, list): out.append(last)
        else: out.append(['+', last, self.ch('0', '""')] if t in ('int', 'str') else ['rval', last] if self.p(.5) else ['first', ['list', last]])
        if self.infn and self.p(.15): out.insert(self.r.randint(1, len(out)), ['return', self.e(t, d - 1)])
        if self.infn == 0 or True: pass
        self.vars = s
        return out
    def define(self, d):
        t = self.ch('int', 'str', 'list', 'bool', 'dict') if self.dicts else self.ch('int', 'str', 'list', 'bool')
        v = self.new('v')
        x = ['def' if self.p(.9) else 'gdef', v, self.e(t, d)]
        for k in self.vars: self.vars[k] = [y for y in self.vars[k] if y != v]
        self.vars[t].append(v)
        return x
    def defun(self, d):
        name = self.new('f')
        s = self.snapshot(); fns = list(self.fns)
        ps = [('p%d' % self.r.randint(1, 5), self.ch('int', 'int', 'str', 'list')) for _ in range(self.r.randint(0, 3))]
        ps = list(dict(ps).items())
        for n, t in ps:
            for k in self.vars: self.vars[k] = [y for y in self.vars[k] if y != n]
            self.vars[t].append(n)
        t = self.ch('int', 'str', 'list', 'bool')
        self.infn += 1
        b = self.body(t, d)
        self.infn -= 1
        self.vars = s; self.fns = fns
        for k in self.vars: self.vars[k] = [y for y in self.vars[k] if y != name]
        self.fns = [f for f in self.fns if f[0] != name] + [(name, [x[1] for x in ps], t)]
        if self.p(.8): return [self.ch('defn', 'defn', 'gdefn'), name, [x[0] for x in ps], b]
        return [self.ch('def', 'gdef'), name, ['lambda', [x[0] for x in ps], b]]
    def stmt(self, d):
        k = self.r.random()
        if k < .25: return self.define(d)
        if k < .38: return ['println'] + [self.any(d) for _ in range(self.r.randint(1, 2))]
        if k < .5:
            t = self.ch('int', 'str', 'list'); v = self.var(t)
            if v: return ['setf', v, self.e(t, d)]
        if k < .6 and self.vars['list']:
            l = self.var('list')
            return self.ch(['push', self.any(d - 1), l] + ([self.ch('0', '1', '2')] if self.p(.3) else []), ['pop', l], ['setf', ['first', l], self.any(d - 1)], ['setf', ['nth', '1', l], self.any(d - 1)],
                           ['setf', ['last', l], self.any(d - 1)])
        if k < .7 and self.vars['dict']:
            v = self.var('dict')
            return self.ch(['dict-set', v, self.ch(*KEYS), self.any(d - 1)], ['dict-remove', v, self.ch(*KEYS)], ['println', v], ['dict-clear', v])
        if k < .8 and self.loops:
            self.n += 1
            c = 'c%d' % self.n
            s = self.snapshot()
            body = ['do', ['setf', c, ['+', c, '1']]] + [x for _ in range(self.r.randint(0, 2)) for x in [self.stmt(d - 1)] if isinstance(x, list)]
            self.vars = s
            if self.infn and self.p(.2): body.append(['if', ['>', c, '1'], ['return', self.any(0)], ['do']])
            return ['do', ['def', c, '0'], ['while', ['<', c, self.ch('0', '1', '2', '3')], body]]
        if k < .87 and self.funs and d > 0: return self.defun(d - 1)
        if k < .94: return ['if', self.e('bool', d), self.block('int', d) if d > 0 else ['do'], ['do'] if self.p(.5) else ['println', '"else"']]
        x = self.any(d)
        return x if isinstance(x, list) else ['println', x]
    def program(self, n, d):
        out = [['defn', 't', ['n', 'v'], ['do', ['println', 'n'], ['rval', 'v']]]] if self.effects else []
        for _ in range(n):
            x = self.stmt(d)
            out.append(x if isinstance(x, list) else ['println', x])
        last = self.any(d)
        out.append(last if isinstance(last, list) else ['rval', last])
        return out

def program(rng, n=4, d=2, wild=True, **o):
    g = Gen(rng, **o)
    return '\n'.join(layout(x, rng, wild) for x in g.program(n, d))

def session(rng, inputs=4, n=2, d=2, wild=False, **o):
    g = Gen(rng, **o)
    out = []
    for i in range(inputs):
        p = g.program(n, d)
        if i: p = p[1:] if g.effects else p
        out.append('\n'.join(layout(x, rng, wild) for x in p))
    return out

def pack(exprs, k=20):
    """independent expressions as sessions of k inputs each"""
    return [exprs[i:i + k] for i in range(0, len(exprs), k)]
