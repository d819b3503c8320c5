"""Source texts for the tokenizer (C01) and the parser (C02)."""
import itertools

CFG = 'SPECIFICATION Spec\nINVARIANT Laws\nVIEW View\n'

def suite(name, mode, cases):
    """cases: [code, offset]"""
    def record(c, o):
        d = dict(code=c[0], off=c[1], mode=mode, crash='', toks=[], tree=0, exc='', msg='', line='', start='', stop='', module='', stack='')
        d.update(o)
        return d
    return dict(name=name, module='LexTrace', cfg=CFG, batch=True, cases=cases, record=record,
                drive=lambda c: [('mode', mode), ('code', c[0]), ('off', str(c[1]))])

CHARS = ['a', ' ', '\n', '(', ')', '"', "'", ',', '@', ';', '\\', '1', 'n']
NUMCHARS = ['1', '0', '-', '+', '.', 'e', 'x', ' ']
WORDS = ['a', 'foo', 'nil', 'NIL', 'Nil', 'nIl', 'true', '#t', 'false', '#f', '#tt', 'True', '12', '-7', '+3', '007', '1.5', '-0.25', '.5', '5.', '1e3',
         '2147483647', '2147483648', '-2147483648', '-2147483649', '99999999999', '3.14', '0x1f', '0x', '1.2.3', '--1', '1-', 'inf', 'nan', 'infinity', '-inf',
         '1e', '1e+', '1e999', '1f', '&rest', '@', 'a@b', 'a.b', '<=', '-', '+', '.', 'foo-bar?', '1_', '#', '##', '*a*', '\xe4\xf6']
STRS = ['""', '"a"', '"a b"', '"(x)"', '"; no comment"', '"it\'s"', '"a\\nb"', '"\\t\\r\\\\"', '"say \\"hi\\""', '"a\nb"', '"`,@"', '"\\q"', '"unclosed', '"nil"', '"1"', '"\xfc"']
COMMENTS = ['; c\n', ';\n', ';; "q" (\n', '; last', ';\\q\n', ';\'\n']
MARKS = ["'", '`', ',', ',@', '(', ')', "`@", "'@"]
SPACES = [' ', '\n', '\t', '  ', '\n\n', '\r\n', '']

def random_text(rng, n):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .4: out.append(rng.choice(WORDS))
        elif k < .52: out.append(rng.choice(STRS))
        elif k < .6: out.append(rng.choice(COMMENTS))
        elif k < .85: out.append(rng.choice(MARKS))
        else: out.append(''.join(rng.choice(CHARS) for _ in range(rng.randint(1, 4))))
        out.append(rng.choice(SPACES) if rng.random() < .6 else '')
    return ''.join(out)

def number_text(rng):
    d = lambda k: ''.join(rng.choice('0123456789') for _ in range(k))
    sg = rng.choice(['', '', '-', '+'])
    k = rng.random()
    if k < .3: return sg + d(rng.randint(1, 11))
    if k < .6: return sg + d(rng.randint(0, 5)) + '.' + d(rng.randint(0, 6))
    if k < .7: return sg + rng.choice(['2147483647', '2147483648', '2147483649', '2147483646', '4294967296', '02147483647', '2147483700', '3000000000'])
    if k < .8: return sg + d(rng.randint(1, 3)) + rng.choice(['e', 'E']) + rng.choice(['', '+', '-']) + d(rng.randint(0, 1))
    if k < .9: return sg + rng.choice(['0x', '0X', 'inf', 'nan', 'i', '.', '0.', 'x']) + d(rng.randint(0, 2))
    s = list(sg + d(3) + '.' + d(2)); s.insert(rng.randint(0, len(s)), rng.choice('abe.-+_ "'))
    return ''.join(s)

def c01(tier, rng):
    deep = tier == 'thorough'
    n = 5 if deep else 4
    texts = [''.join(p) for k in range(n + 1) for p in itertools.product(CHARS, repeat=k)]
    nums = [''.join(p) for k in range((6 if deep else 4) + 1) for p in itertools.product(NUMCHARS, repeat=k)]
    rnd = [random_text(rng, rng.randint(1, 14)) for _ in range(60000 if deep else 3000)]
    numbers = [' '.join(number_text(rng) for _ in range(3)) for _ in range(40000 if deep else 3000)]
    off = lambda t: [t, rng.choice([0, 0, 4, 1])]
    return [suite('short-texts', 'tok', [[t, 0] for t in texts]),
            suite('number-texts', 'tok', [[t, 0] for t in nums]),
            suite('words', 'tok', [[w + s, 0] for w in WORDS + STRS + COMMENTS + MARKS for s in ['', ' ', '(', '"', "'", ';', '\n', 'a', '\\']]),
            suite('random-texts', 'tok', [off(t) for t in rnd]),
            suite('random-numbers', 'tok', [off(t) for t in numbers])]

TOKENS = ['(', ')', "'", '`', ',', ',@', 'a', '"s"', '; c\n', '7']

def c02(tier, rng):
    deep = tier == 'thorough'
    small = [' '.join(p) for k in range((6 if deep else 4) + 1) for p in itertools.product(['(', ')', "'", ',@', 'a', ';\n'], repeat=k)]
    all_ = [' '.join(p) for k in range((5 if deep else 4) + 1) for p in itertools.product(TOKENS, repeat=k)]
    def tree(depth):
        k = rng.random()
        if depth == 0 or k < .3: return number_text(rng).replace('"', '') if rng.random() < .06 else rng.choice(WORDS[:20] + WORDS + STRS[:9])
        if k < .45: return rng.choice(["'", '`', ',', ',@']) + rng.choice(['', ' ']) + tree(depth - 1)
        if k < .5: return rng.choice(COMMENTS[:3]) + tree(depth - 1)
        return '(' + rng.choice(['', ' ', '\n']) + ' '.join(tree(depth - 1) for _ in range(rng.randint(0, 4))) + rng.choice(['', ' ; e\n']) + ')'
    def broken(t):
        t = list(t)
        for _ in range(rng.randint(1, 2)):
            p = rng.randint(0, len(t))
            if rng.random() < .5 and p < len(t): del t[p]
            else: t.insert(p, rng.choice('()\'`,;" '))
        return ''.join(t)
    rnd = []
    for _ in range(30000 if deep else 2500):
        t = '(' + ' '.join(tree(4) for _ in range(rng.randint(0, 4))) + ')'
        if rng.random() < .2: t = rng.choice(["'", '`']) + t
        if rng.random() < .5: t = broken(t)
        if rng.random() < .3: t += rng.choice([' ; end', '\n; end\n', ' x', ')', ' ()', "'"])
        rnd.append(t)
    decorated = ['(do ' + t + '\n)' for t in rnd]
    return [suite('short-token-sequences', 'parse', [[t, 0] for t in all_]),
            suite('bracket-sequences', 'parse', [[t, 0] for t in small]),
            suite('random-programs', 'parse', [[t, 0] for t in rnd]),
            suite('decorated-programs', 'parse', [[t, 4] for t in decorated])]

TABLE = dict(C01=c01, C02=c02)
