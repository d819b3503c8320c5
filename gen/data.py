"""Values and operations on them: arithmetic, comparison, lists, dictionaries, strings, places (C07-C11, C23)."""
import itertools
from . import prog
from .prog import Gen, layout, pack, program
from .ev import suite

INTS = ['0', '1', '-1', '2', '7', '-3', '100', '2147483647', '-2147483647', '1000000']
DBLS = ['0.5', '1.0', '-2.25', '3.0', '0.0', '100.25', '1.1']
STRS = ['""', '"a"', '"abc"', '"12"', '"-3"', '"2.5"', '" x "', '"A b"', '"#t"', '"NIL"']
OTHERS = ['#t', '#f', 'nil', "'a", "'abc", "'(a)", '(list)', '(list 1)', '(list 1 2 3)', '\'(1 (2 a) "x")', '(list "1" 2.0 nil)', 'd1', 'd2', '(lambda (x) x)', '+', 'fun', '(do)', '(list (list))', "''a", '(make-dict)']
POOL = INTS + DBLS + STRS + OTHERS
SMALL = ['0', '1', '-2', '7', '0.5', '2.0', '-2.25', '""', '"ab"', '"12"', '#t', '#f', 'nil', "'a", '(list)', '(list 1 2)', 'd1', 'fun', '(do)']
SETUP = '(def d1 (make-dict))(dict-set d1 "k" 1)(def d2 (make-dict))(defn fun (x) x)(def l1 (list 1 2 3))(def n1 nil)(def s1 "text")(def i1 5)'
ARITH = ['+', '-', '*', '/', '%']
BITS = ['<<', '>>', '|', '&', '^']

WIDE = ['0.1', '0.2', '0.3', '0.7', '1e-8', '9.99999e-9', '1.00001e-8', '1e20', '-1e20', '1e300', '-1e-300', '3.3333333333333', '123456789.125', '-0.0', 'inf', '-inf', '0.000001', '0.0000005', '0.0000015', '2.5', '-7.7', '1e15', '1e16',
        '123456789012345678', '0x1.8p3', '0x1p-30', '4503599627370497.5', '9007199254740993', '2147483647', '-2147483647', '16777217', '5', '0', '1e307', '2147483648.0', '-2147483649.0', '1e-5', '99999999.9999999', '0.9999995', '0.9999994999']
def afloat(rng):
    k = rng.random()
    if k < .2: return rng.choice(WIDE)
    if k < .5: return '%s%d.%s' % (rng.choice(['', '', '-']), rng.choice([0, 0, rng.randint(0, 9), rng.randint(0, 10 ** 6), rng.randint(0, 10 ** 12)]), ''.join(rng.choice('0123456789') for _ in range(rng.choice([1, 1, 2, 3, 7, 12]))))
    if k < .6: return '%s%d.%d%se%d' % (rng.choice(['', '-']), rng.randint(0, 9), rng.randint(0, 99), rng.choice(['', '5', '49999999']), rng.choice([rng.randint(-12, 12), rng.randint(-40, 40), rng.randint(-200, 200)]))
    if k < .8: return repr(rng.choice([1, 2, 3, 10, 100, 7]) / rng.choice([3, 7, 10, 8, 9, 100, 11]) * rng.choice([1, -1, 1000]))
    return str(rng.choice([1, -1]) * rng.choice([rng.randint(0, 10), rng.randint(0, 1000), rng.randint(0, 2147483647)]))
def with_setup(exprs, k=24, setup=SETUP):
    return [dict(codes=[setup] + x, indep=True) for x in pack(exprs, k)]

def c07(tier, rng):
    deep = tier == 'thorough'
    pairs = ['(%s %s %s)' % (o, a, b) for o in ARITH for a in POOL for b in POOL]
    bits = ['(%s %s %s)' % (o, a, b) for o in BITS for a in SMALL for b in SMALL] + ['(~ %s)' % a for a in POOL] + ['(- %s)' % a for a in POOL]
    num = ['0', '1', '-1', '2', '3', '-3', '5', '6', '7', '-8', '12', '31', '255', '-256', '65535', '1073741823', '-1073741824', '2147483647']
    bits += ['(%s %s %s)' % (o, a, b) for o in BITS for a in num for b in num] + ['(~ %s)' % a for a in num]
    ints = ['(%s %s %s)' % (o, a, b) for o in ARITH for a in num for b in num]
    dbl = ['0.5', '-0.5', '1.0', '-1.0', '2.5', '-3.75', '4.0', '16.0', '0.25', '1', '-2', '3', '8']
    floats = ['(%s %s %s)' % (o, a, b) for o in ARITH for a in dbl for b in dbl]
    wide = ['(list (%s %s %s) (%s %s %s))' % (o, a, b, o, b, a) for o in ARITH for a, b in [(afloat(rng) if rng.random() < .7 else rng.choice(WIDE), afloat(rng)) for _ in range(2500 if deep else 160)] if (a, o) not in (('0', '/'), ('0', '%')) and (b, o) not in (('0', '/'), ('0', '%'))]
    wide += ['(list %s (- %s) (float "%s") (+ 0 %s) (* 1 %s) (str %s) (+ "x" %s))' % ((a,) * 7) for a in WIDE + [afloat(rng) for _ in range(1500 if deep else 100)]]
    wide += ['(do (def s %s) (def i 0) (while (< i %d) (do (setf s (%s s %s)) (setf i (+ i 1)))) (list s i))' % (afloat(rng), rng.randint(2, 12), rng.choice('+-*/'), afloat(rng)) for _ in range(600 if deep else 40)]
    rows = []
    for o in ARITH + ['add', 'sub', 'mul', 'div', 'mod', 'string']:
        rows += ['(%s)' % o] + ['(%s %s)' % (o, a) for a in POOL] + ['(%s %s)' % (o, ' '.join(c)) for c in itertools.product(['1', '7', '2.5', '"x"', 'nil', '(list 1)', '0'], repeat=3)]
        rows += ['(%s %s)' % (o, ' '.join(rng.choice(SMALL if rng.random() < .3 else num[:12] + dbl) for _ in range(rng.randint(3, 6)))) for _ in range(300 if deep else 60)]
    def ex(d):
        if d == 0 or rng.random() < .15: return rng.choice(num[:13] + dbl + ['i1'] + (SMALL if rng.random() < .06 else []))
        return '(%s %s)' % (rng.choice(ARITH + ARITH + BITS + ['add', 'mod', '-']), ' '.join(ex(d - 1) for _ in range(rng.choice([1, 2, 2, 2, 3]))))
    deepex = [ex(rng.randint(2, 4)) for _ in range(30000 if deep else 3000)]
    # operands stay as they are
    keep = ['(def a %s)(def b %s)(def c (%s a b))(setf c (%s c b a))(list a b c)' % (a, b, o, o) for o in ['+', '-', '*'] for a in ['(list 1 2)', '5', '2.5', '"s"', 'l1'] for b in ['(list 3)', '2', '0.5', '"t"', 'l1']]
    keep += ['(def a (list 1 2))(def b (+ a a))(push 9 b)(setf (first b) 7)(list a b)', '(def a (list 1))(def b (+ a (list)))(push 5 b)(push 6 a)(list a b)', '(def a (list 1))(def b (+ a))(push 5 b)(list a b)', "(def a '(1 (2)))(def b (+ a a))(push 8 (nth 1 b))(list a b)"]
    math = []
    mvals = ['0', '1', '2', '-1', '0.5', '-0.5', '1.5', '2.5', '-1.5', '-2.5', '2.25', '3', '4', '100', '-2.75', '0.25', '0.75', '"2"', '"x"', 'nil', '#t', '(list)', "'a"]
    for f in ['Abs', 'Floor', 'Ceiling', 'Round', 'Truncate', 'Sqrt', 'Sin', 'Cos', 'Tan', 'Asin', 'Acos', 'Atan', 'Sinh', 'Cosh', 'Tanh', 'Exp', 'Log', 'Log10']:
        math += ['(Math-%s %s)' % (f, v) for v in mvals] + ['(Math-%s)' % f, '(Math-%s 1 2)' % f]
    math += ['(Math-%s %s)' % (f, v) for f in ['Abs', 'Floor', 'Ceiling', 'Round', 'Truncate', 'Sqrt'] for v in WIDE + ['0.49999999999999994', '-0.49999999999999994', '4503599627370495.5', '2', '3', '1e-20', '-0.7', '-0.2'] + [afloat(rng) for _ in range(400 if deep else 30)]]
    math += ['(Math-Pow %s %s)' % (a, b) for a in mvals for b in ['0', '1', '2', '3', '-1', '2.0', '"2"', 'nil']] + ['(Math-Pi)', '(+ 0 (Math-Pi))', '(Math-Pi 1)', '(< 3 (Math-Pi))']
    def mf():                       # arguments of every size, most of them where the functions are not flat
        k = rng.random()
        if k < .35: return '%s%d.%s' % (rng.choice(['', '-']), rng.choice([0, 0, 0, 1, 2, 3, rng.randint(0, 60)]), ''.join(rng.choice('0123456789') for _ in range(rng.choice([1, 2, 3, 7]))))
        if k < .5: return str(rng.randint(-12, 12))
        if k < .6: return '%se%d' % (rng.choice(['1', '-1', '2.5', '-7.3', '9.99']), rng.randint(-9, 6))
        if k < .65: return rng.choice(['(Math-Pi)', '(/ (Math-Pi) 2)', '(- (/ (Math-Pi) 4))', '(* 2 (Math-Pi))', '(/ (Math-Pi) 6)'])
        return afloat(rng) if k < .9 else rng.choice(WIDE)
    trans = ['Sin', 'Cos', 'Tan', 'Asin', 'Acos', 'Atan', 'Sinh', 'Cosh', 'Tanh', 'Exp', 'Log', 'Log10']
    math += ['(Math-%s %s)' % (f, mf()) for f in trans for _ in range(300 if deep else 25)]
    math += ['(Math-Pow %s %s)' % (mf(), rng.choice([mf(), mf(), str(rng.randint(-9, 20)), '0.5', '2', '-1', '0', '%d.0' % rng.randint(-5, 9)])) for _ in range(2500 if deep else 160)]
    math += ['(do (def v (Math-%s %s)) %s)' % (rng.choice(trans), mf(), u) for u in ['(< v 2)', '(int v)', '(list v v)', '(str v)', '(+ "x" v)', '(== v v)', '(+ v 1)', '(* v 0)', '(- v)', '(make-dict v 1)', '(if (> v 0) 1 2)', '(Math-Round v)', '(Math-Abs v)', '(type v)', '(float (str v))', '(len (str v))', '(setf v (+ v 1))', '(format "{0}" v)'] for _ in range(40 if deep else 4)]
    math += ['(int (Math-Floor %s))' % v for v in mvals[:17]] + ['(int (Math-Round %s))' % v for v in mvals[:17]]
    return [suite('all-pairs', with_setup(pairs)), suite('bit-operations', with_setup(bits)), suite('integers', with_setup(ints)), suite('floats', with_setup(floats)), suite('floats of every size', with_setup(wide)), suite('argument-lists', with_setup(rows)),
            suite('nested', with_setup(deepex)), suite('operands-unchanged', [[SETUP, k, k.replace('def a', 'setf a', 1)] for k in keep]), suite('mathematical-functions', with_setup(math))]

CMP = ['<', '>', '<=', '>=', '==', '!=']
def c08(tier, rng):
    deep = tier == 'thorough'
    pairs = ['(list %s)' % ' '.join('(%s %s %s)' % (o, a, b) for o in ['==', '!=', '=', 'equal']) for a in POOL for b in POOL]
    order = ['(%s %s %s)' % (o, a, b) for o in CMP[:4] for a in SMALL + INTS[3:7] + STRS[1:5] for b in SMALL + INTS[3:7] + STRS[1:5]]
    nums = ['0', '1', '-1', '2', '10', '9', '0.5', '1.0', '-1.0', '-0.5', '9.75', '2.0', '1.1', '1.2', '100000', '-100000']
    numcmp = ['(list %s)' % ' '.join('(%s %s %s)' % (o, a, b) for o in CMP) for a in nums for b in nums]
    strs = ['""', '"a"', '"b"', '"ab"', '"B"', '"aa"', '"a "', '" a"', '"1"', '"10"', '"9"', '"-"', '"a\\"b"', '"Z"', '"_"', '"~"']
    strcmp = ['(list %s)' % ' '.join('(%s %s %s)' % (o, a, b) for o in CMP) for a in strs for b in strs]
    strany = ['(list %s)' % ' '.join('(%s %s %s)' % (o, a, b) for o in ['==', '!=']) for a in ['"1"', '"NIL"', '"#t"', '"(1 2)"', '"a"', '"0.500000"', '""', '"(a)"', '"<undefined>"'] for b in SMALL + ['1', "'a", '0.5', '(list 1 2)', "'(a)"]]
    def val(d):
        if d == 0 or rng.random() < .5: return rng.choice(['1', '2', '1.0', '"1"', '"a"', "a", 'nil', '#t', '#f', '2.5', '()'])
        return '(' + ' '.join(val(d - 1) for _ in range(rng.randint(0, 3))) + ')'
    def tweak(v):
        k = rng.random()
        if k < .35: return v
        if k < .5: return v.replace('1', '1.0', 1)
        if k < .6: return v.replace('1', '2', 1)
        if k < .7: return v.replace('a', '"a"', 1)
        if k < .8: return v.replace('nil', '()', 1)
        return val(2)
    nested = []
    for _ in range(20000 if deep else 2500):
        a = val(rng.randint(1, 3)); b = tweak(a)
        nested.append('(list (== \'%s \'%s) (== \'%s \'%s) (!= \'%s \'%s))' % (a, b, b, a, a, b))
    near = []                       # floats that differ a little, in == only up to the tolerance
    for _ in range(6000 if deep else 330):
        a = rng.choice(['1', '0', '-1', '2.5', '100', '1e8', '123456.75', '1e-8', '0.1', '1e-9', '1e15', '3000000000.0', afloat(rng), afloat(rng)])
        b = '(+ %s %s)' % (a, rng.choice(['1e-7', '1.0001e-8', '1e-8', '9.9999e-9', '1e-9', '-9.9e-9', '-1.01e-8', '1e-12', '0.5', '-0.001', '0.0', '-0.0', '5e-16', '1', '1e-3'])) if rng.random() < .6 else afloat(rng)
        near.append('(list %s %s)' % (' '.join('(%s %s %s)' % (o, a, b) for o in CMP), ' '.join('(%s %s %s)' % (o, b, a) for o in CMP)))
    near += ['(list %s)' % ' '.join('(%s %s %s)' % (o, a, b) for o in CMP) for a in WIDE for b in (WIDE if deep else rng.sample(WIDE, 4) + [a])]
    longer = []                     # lists that differ in one place or in their length
    for n in range(0, 9):
        for _ in range(120 if deep else 12):
            vs = [val(rng.choice([0, 0, 0, 1])) for _ in range(n)]
            for i in range(n + 1):
                w = vs[:i] + ([val(0)] if i < n or rng.random() < .5 else []) + vs[i + 1:] if rng.random() < .7 else vs[:i]
                longer.append("(list (== '(%s) '(%s)) (== '(%s) '(%s)) (!= '(%s) '(%s)) (equal (list %s) (list %s)))" % (tuple(map(' '.join, (vs, w, w, vs, vs, w))) + tuple(' '.join("'" + x for x in y) for y in (vs, w))))
    conn = []
    bs = ['#t', '#f', 'true', 'false', 'nil', '1', '0', '(list)', '"x"', '"true"', "'a", '(== 1 1)', '(do)']
    for o in ['and', 'or', '&&', '||']:
        conn += ['(%s %s)' % (o, ' '.join(c)) for n in range(4 if deep else 3) for c in itertools.product(bs, repeat=n)] + ['(%s %s)' % (o, ' '.join(rng.choice(bs[:4]) for _ in range(rng.randint(3, 6)))) for _ in range(60)]
    conn += ['(%s %s)' % (o, a) for o in ['not', '!'] for a in POOL] + ['(not (%s %s %s))' % (o, a, b) for o in ['and', 'or'] for a in bs for b in bs]
    ident = []
    for v in ['(list 1 2)', '(make-dict)', '(lambda (x) x)', '"s"', '1', '1.1', 'nil', "'a", '(do)', '+', '(list 1.1)', "'(a (b))", '#t']:
        ident.append('(def v %s)(def w v)(list (== v v) (== v w) (== w v) (!= v w) (== (list v) (list w)) (== v (first (list v))))' % v)
        ident.append('(def v %s)(defn same (x y) (== x y))(same v v)' % v)
    sort = []                       # the comparisons agree with each other on lists of values
    for _ in range(3000 if deep else 400):
        vs = [rng.choice(nums + ['3', '4', '-7', '2.25'] if rng.random() < .97 else STRS[1:5]) for _ in range(5)]
        sort.append('(map (lambda (x) (map (lambda (y) (+ (if (< x y) 1 0) (if (== x y) 10 0) (if (> x y) 100 0) (if (<= x y) 1000 0) (if (>= x y) 10000 0) (if (!= x y) 100000 0))) (list %s))) (list %s))' % (' '.join(vs), ' '.join(vs)))
    return [suite('equality-of-all-pairs', with_setup(pairs, 12)), suite('order-of-all-pairs', with_setup(order)), suite('numbers', with_setup(numcmp, 8)), suite('texts', with_setup(strcmp, 8)), suite('texts-and-values', with_setup(strany, 12)),
            suite('nested-lists', with_setup(nested, 12)), suite('floats close together', with_setup(near, 8)), suite('lists that differ in one place', with_setup(longer, 12)), suite('connectives', with_setup(conn)), suite('identity', [[x] for x in ident]), suite('order-laws', with_setup(sort, 4))]

LISTS = ['(list)', 'nil', '(list 1)', '(list 1 2)', '(list 1 2 3)', "'(a b c)", "'((1) (2 (3)))", '(list (list) nil)', '(list "a" 2.5 #t)', "'()", '(list (list 1 2) (list 3))']
def c09(tier, rng):
    deep = tier == 'thorough'
    one = []
    for l in LISTS + ['5', '"abc"', '""', '#t', 'd1', "'a", 'fun', '2.5', '(do)', '(quote (quote a))']:
        one += ['(%s %s)' % (f, l) for f in ['first', 'car', 'last', 'rest', 'cdr', 'reverse', 'len', 'list', 'append', 'pop', 'typestr', 'rval', 'cons', 'str', 'push', 'nth']]
        one += ['(nth %s %s)' % (i, l) for i in ['-1', '0', '1', '2', '3', '4', '1.0', '"1"', 'nil', '2147483647', '-2147483647']]
        one += ['(pop %s %s)' % (l, i) for i in ['-1', '0', '1', '2', '3', '1.0', '"1"', 'nil', 'd1']] + ['(push 9 %s %s)' % (l, i) for i in ['-1', '0', '1', '2', '3', '1.5', '"1"', 'nil']]
        one += ['(cons %s %s)' % (x, l) for x in ['0', '(list 9)', 'nil', "'q"]] + ['(append %s %s)' % (l, m) for m in LISTS[:7] + ['5', '"x"']] + ['(search %s %s)' % (x, l) for x in ['1', '"a"', "'b", '(list 1)', 'nil', '3', '""']]
        one += ['(search %s %s %s)' % (x, l, p) for x in ['1', '2', '"b"'] for p in ['0', '1', '2']] + ['(map (lambda (x) (list x x)) %s)' % l, '(reduce (lambda (x a) (cons x a)) %s (list))' % l, '(len (map (lambda (x) (if (== x 1) x)) %s))' % l, '(map (lambda (x) (if (== x (last %s)) (do) nil)) %s)' % (l, l), '(reduce (lambda (x a) (if (== x 2) nil (list x a))) %s 0)' % l, '(append (list 1) %s (list 2))' % l, '(+ %s (list 1))' % l, '(first (rest %s))' % l,
                '(list (first %s) (last %s) (len (rest %s)))' % (l, l, l), '(reverse (reverse %s))' % l, '(len (append %s %s))' % (l, l)]
    one += ['(cons)', '(cons 1)', '(cons 1 2)', '(cons 1 2 3)', '(cons 1 (list 2) 3)', '(append)', '(append 1)', '(append (list 1) 2 3)', '(list)', '(first)', '(nth 0)', '(first (list 1) 2)', '(nth (list 1) 0)', '(list (list (list)))']
    inside = '(def l (list 1 2 3))'
    hist = []
    for _ in range(15000 if deep else 1500):
        names = ['a', 'b', 'c']
        cmds = ['(def a (list %s))' % ' '.join(str(rng.randint(0, 9)) for _ in range(rng.randint(0, 4))), '(def b a)', "(def c (list %s))" % rng.choice(['', 'a', '1 2', 'a b', '(list 7)', '"x" 2.5'])]
        if rng.random() < .3: cmds.append('(defn m (l v) %s)' % rng.choice(['(push v l)', '(do (push v l 1) (pop l))', '(setf l (cons v l))', '(do (pop l) (len l))', '(push l l1)', '(setf (first l) v)']))
        for _ in range(rng.randint(3, 9)):
            n = rng.choice(names); o = rng.choice(names); v = rng.choice(['0', '8', '"s"', 'nil', '(list 5 6)', "'z", '(first %s)' % o, '(len %s)' % o, '(pop %s)' % o, '(rest %s)' % o, '2.5'])
            i = rng.choice(['0', '0', '1', '2', '-1', '3', '(len %s)' % n, '(- (len %s) 1)' % n])
            cmds.append(rng.choice(['(push %s %s)' % (v, n), '(push %s %s %s)' % (v, n, i), '(pop %s)' % n, '(pop %s %s)' % (n, i), '(println %s %s %s)' % (n, '(len %s)' % o, '(reverse %s)' % n), '(setf %s (append %s %s))' % (n, o, n), '(def %s %s)' % (n, o),
                                    '(setf %s (cons %s %s))' % (n, v, o), '(setf %s (rest %s))' % (n, o), '(setf %s (reverse %s))' % (n, o), '(setf (nth %s %s) %s)' % (i, n, v), '(nth %s %s)' % (i, n), '(def %s (list %s %s))' % (n, o, v) if rng.random() < .2 else '(first %s)' % n,
                                    '(setf %s (map (lambda (x) x) %s))' % (n, o), '(m %s %s)' % (n, v), '(println (push %s %s))' % (v, n), '(def %s (+ %s %s))' % (n, o, n), '(setf %s (list))' % n, '(search %s %s)' % (v, n), '(push %s (first %s))' % (v, n), '(def %s (push %s %s))' % (o, v, n)]))
        cmds.append('(list a b c)')
        hist.append(cmds if rng.random() < .5 else ['\n'.join(cmds)])
    pure = []
    for l in ["'(1 (2) 3)", '(list 1 (list 2) 3)', 'l1', '(list "a" "b")']:
        for f in ['(rest %s)', '(reverse %s)', '(cons 0 %s)', '(append %s %s)', '(map (lambda (x) x) %s)', '(slice "abc" 0 (len %s))', '(+ %s %s)', '(list (first %s) (last %s))', '(append %s)', '(args-of %s)', '(rval %s)', '(if #t %s 1)', '(eval (list (quote list) %s))', '`(,@%s)', '`(1 ,%s)', '(apply list %s)']:
            g = f.replace('%s', 'v')
            pure.append(['(defn args-of (l) (args))(def l1 (list 4 5))(def v %s)(def r %s)' % (l, g), '(list v r)', '(push 77 r)', '(list v r)', '(push 88 v)', '(list v r)', '(setf (first r) 66)', '(list v r)', '(pop v)', '(list v r)', '(setf (last r) 55)', '(list v r)'])
    rnd = [program(rng, n=rng.randint(3, 8), d=rng.randint(2, 3), effects=.0, errors=.005, dirty=.02, dicts=False) for _ in range(6000 if deep else 500)]
    return [suite('single-operations', with_setup(one, 20)), suite('histories', hist), suite('results-are-new-lists', pure), suite('random-programs', rnd)]

DKEYS = ['1', '2', '1.0', '0.5', '-1', '"a"', '"b"', '"1"', '""', "'a", "'b", '#t', '#f', 'nil', '"NIL"', '"#t"', '(+ 1 1)', '(+ "a" "")', '10', '9', '"10"', '"9"', "'A", '"A"', '(do)']
BADKEYS = ['(list 1)', 'd', '(lambda (x) x)', '+', "'(a)", '1.1', '()', '(list)']
def c10(tier, rng):
    deep = tier == 'thorough'
    hist = []
    for _ in range(16000 if deep else 1600):
        ks = [rng.choice(DKEYS) for _ in range(rng.randint(2, 5))]
        cmds = ['(def d (make-dict))(def e %s)(def f d)' % rng.choice(['(make-dict)', 'd'])]
        if rng.random() < .3: cmds.append('(defn put (x k v) (dict-set x k v))')
        for _ in range(rng.randint(4, 12)):
            n = rng.choice(['d', 'e', 'f']); k = rng.choice(ks if rng.random() < .93 else DKEYS + BADKEYS)
            v = rng.choice(['1', '"v"', '(list 1 2)', 'nil', "'s", '2.5', '(dict-get %s %s)' % (n, rng.choice(ks)), '(len %s)' % n, '(make-dict)', '(lambda (x) x)'])
            cmds.append(rng.choice(['(dict-set %s %s %s)' % (n, k, v)] * 5 + ['(dict-get %s %s)' % (n, k)] * 2 + ['(dict-remove %s %s)' % (n, k)] * 2 + ['(dict-keys %s)' % n, '(dict-contains-key %s %s)' % (n, k), '(dict-contains-value %s %s)' % (n, v), '(len %s)' % n, '(println %s)' % n,
                                    '(dict-clear %s)' % n, '(def %s %s)' % (n, rng.choice('def')), '(== %s %s)' % (n, rng.choice('def')), '(put %s %s %s)' % (n, k, v), '(map (lambda (k) (dict-get %s k)) (dict-keys %s))' % (n, n), '(push %s (dict-get %s %s))' % (v, n, k), '(str %s)' % n]))
        cmds.append('(list d e f (len d) (dict-keys e))')
        hist.append(cmds if rng.random() < .6 else ['\n'.join(cmds)])
    pairs = []
    for a in DKEYS + BADKEYS:
        for b in DKEYS:
            pairs.append('(def d (make-dict))(def r (list (dict-set d %s "A") (dict-set d %s "B")))(println d (len d) (dict-keys d) r)(println (dict-get d %s) (dict-contains-key d %s))(println (dict-remove d %s) d (len d) (dict-contains-key d %s) (dict-get d %s))' % (b, a, b, a, a, a, b))
    many = []
    for _ in range(2000 if deep else 200):
        ks = DKEYS[:]; rng.shuffle(ks); ks = ks[:rng.randint(3, 14)]
        many.append(['(def d (make-dict))' + ''.join('(dict-set d %s %d)' % (k, i) for i, k in enumerate(ks)), 'd', '(dict-keys d)', '(len d)', '(map (lambda (k) (dict-get d k)) (dict-keys d))'] + ['(dict-remove d %s)' % k for k in ks[:4]] + ['d', '(dict-clear d)', 'd', '(len d)', '(dict-keys d)'])
    wrong = []
    for v in ['5', 'nil', '"d"', '(list)', "'d", '2.5', '#t', '(lambda (x) x)', '+', '(do)', "'(1 2)", '(list (list "a" 1))']:
        wrong += ['(dict-set %s 1 2)' % v, '(dict-get %s 1)' % v, '(dict-remove %s 1)' % v, '(dict-keys %s)' % v, '(dict-clear %s)' % v, '(dict-contains-key %s 1)' % v, '(dict-contains-value %s 1)' % v, '(len %s)' % v]
    for k in DKEYS + BADKEYS:
        wrong += ['(dict-set d1 %s 2)' % k, '(dict-get d1 %s)' % k, '(dict-remove d1 %s)' % k, '(dict-contains-key d1 %s)' % k, '(dict-contains-value d1 %s)' % k, 'd1', '(dict-set d2 "k" %s)' % k, '(dict-contains-value d2 %s)' % k, 'd2']
    wrong += ['(first d1)', '(append d1 d2)', '(+ d1 d2)', '(+ "x" d1)', '(< d1 d2)', '(== d1 d2)', '(== d1 d1)', '(push 1 d1)', '(if d1 1 2)', '(map str d1)', '(d1)', '(typestr d1)', '(type d1)', '(str d1)', '(make-dict 1)', '(nth 0 d1)', '(setf (first d1) 1)', '(dict-set d1 "x" d2)', '(dict-set d2 "x" (list 1))', 'd1']
    values = ['(def d (make-dict))(dict-set d 1 %s)(println d)(def l (dict-get d 1))(println (dict-contains-value d %s) l)(list d)' % (v, v) for v in POOL if v not in ('d1', 'd2', 'fun')]
    return [suite('histories', hist), suite('pairs-of-keys', pack(pairs, 5), indep=True), suite('many-keys', many), suite('wrong-uses', with_setup(wrong)), suite('values', [[v] for v in values])]

def c11(tier, rng):
    deep = tier == 'thorough'
    texts = [''.join(p) for n in range(5 if deep else 4) for p in itertools.product('ab ', repeat=n)]
    q = lambda t: '"' + t.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t').replace('\r', '\\r') + '"'
    pos = ['-2', '-1', '0', '1', '2', '3', '4', '5', '100']
    sl = ['(slice %s %s %s)' % (q(t), p, n) for t in ['', 'a', 'ab', 'abc', 'hello world'] for p in pos + ['11', '10', '12'] for n in pos]
    sl += ['(slice %s %s %s)' % (a, b, c) for a in ['5', 'nil', "'abc", '(list 1 2)', '"abc"', '2.5'] for b in ['0', '1', '1.5', '"1"', 'nil', '(list)'] for c in ['1', '-1', '2.0', '"2"', 'nil']]
    se = ['(search %s %s)' % (q(a), q(b)) for a in texts if len(a) < 4 for b in texts[:40] + ['abab', 'aabb', 'ab ab', 'ba aab']]
    se += ['(search %s %s %s)' % (q(a), q(b), p) for a in ['', 'a', 'b', 'ab', 'ba'] for b in ['', 'a', 'abab', 'baab', 'aaa'] for p in pos]
    se += ['(search %s %s %s %s)' % (q(a), q(b), p, n) for a in ['', 'a', 'b', 'ab'] for b in ['', 'a', 'abab', 'baab', 'xxab'] for p in ['-1', '0', '1', '2', '3', '4', '5'] for n in ['-1', '0', '1', '2', '3', '4', '9']]
    se += ['(search %s %s)' % (a, b) for a in ['1', "'a", '2.5', 'nil', '(list 1)', '#t'] for b in ['"1"', '"a 2.5"', '(list 1 2.5 #t)', "'(a b)", '5', 'nil', 'd1', "'a"]]
    rep = ['(replace %s %s %s)' % (q(a), q(b), q(c)) for a in texts[:45] + ['abab', 'aaaa', 'abcabc', ' a b '] for b in ['', 'a', 'ab', 'aa', 'x', ' '] for c in ['', 'a', 'xy', 'aa', 'b']]
    rep += ['(replace %s)' % ' '.join(c) for c in itertools.product(['"abc"', '123', "'abc", 'nil', '(list 1 2)'], ['"b"', '2', 'nil'], ['"x"', '7', '""'])]
    uni = []
    strs = texts[:40] + ['Hello World', 'ABC xyz', '  lead', 'trail  ', '\t\n x \r', 'a\nb', '  ', 'mIxEd 123!?', 'A', 'z', 'a"b', 'back\\slash', '[x]', '{0}', '\xe4\xd6', '@[`{']
    for t in strs:
        uni += ['(%s %s)' % (f, q(t)) for f in ['trim', 'upper-case', 'lower-case', 'len', 'reverse', 'first', 'last', 'rest', 'str', 'sym', 'typestr', 'string', 'int', 'float', 'parse-integer', 'parse-float', 'car', 'cdr']]
        uni += ['(nth %s %s)' % (i, q(t)) for i in ['-1', '0', '1', '2', '100']] + ['(list %s)' % q(t), '(println %s "|")' % q(t), '(print (list %s))' % q(t), '(+ %s %s)' % (q(t), q(t)), '(== %s %s)' % (q(t), q(t))]
    for v in POOL: uni += ['(%s %s)' % (f, v) for f in ['trim', 'upper-case', 'lower-case', 'len', 'reverse', 'str', 'sym', 'string', 'typestr', 'type', 'int', 'float', 'parse-integer', 'parse-float']]
    nums = ['0', '1', '-1', '+5', '12', '007', '-0', '2147483647', '2147483648', '-2147483648', '99999999999', '1.5', '-2.25', '.5', '5.', '1e2', '1e', '0x10', ' 7', '7 ', ' 7 ', '7a', 'a7', '', '-', '+', '--1', '1 2', '1.2.3', 'inf', 'nan', '1,5', '0.1', '3.14159', '1e10', '1.0', '00.50', 'NIL', '#t', '1e5', '12345678', '-7.75', '1e-2', '0.000001', '123456.5']
    conv = ['(%s %s)' % (f, q(t)) for t in nums for f in ['int', 'float', 'parse-integer', 'parse-float']] + ['(+ 1 %s)' % q(t) for t in nums] + ['(* 1 %s)' % q(t) for t in nums] + ['(- 1.0 %s)' % q(t) for t in nums] + ['(< 1 %s)' % q(t) for t in nums] + ['(slice "abc" %s 1)' % q(t) for t in nums[:12]]
    conv += ['(%s %s)' % (f, v) for f in ['int', 'float'] for v in ['1.5', '-1.5', '2.75', '-2.75', '0.25', '-0.25', '7', '-7', '100000', '0.0', '3.0', '1.1', '7.9', '#t', '#f']]
    conv += ['(str (int %s))' % v for v in ['"12"', '2.5', '#t', '"x"']] + ['(int (str %s))' % v for v in ['12', '-5', '2.5', '"7"']] + ['(float (str %s))' % v for v in ['12', '-5.25', '2.5', '0.5']] + ['(== (float (str %s)) %s)' % (v, v) for v in ['2.5', '-0.25', '3', '100.75']] + ['(== (int (str %s)) %s)' % (v, v) for v in ['2', '-25', '0', '2147483647']]
    conv += ['(+ "" %s)' % v for v in POOL] + ['(+ %s "")' % v for v in POOL] + ['(string %s %s)' % (a, b) for a in SMALL for b in ['"x"', '""', '1']] + ['(evalstr (str %s))' % v for v in ['12', '-7', '"(list 1 2)"', '2.5', '#t', '#f', '"nil"', '"\'abc"', "'i1", "'(+ 1 2)", '"\\"q\\""']]
    fm = []
    holes = ['{0}', '{1}', '{2}', '{0,5}', '{0,-5}', '{1,3}', '{0,0}', '{0,1}', '{3}', '{4}', '{5}', '{', '}', '{}', '{a}', '{0', '{0,', '{0,x}', '{0,5', '{0,+3}', '{0, 4}', '{0:x}', '{{0}}', '{00}', '{-1}', '{0,-}', '{0,2}{1,2}', '{1}{0}']
    for h in holes:
        for a in ['', '1', '"ab" 2.5', 'nil (list 1 "s") #t', '1 2 3 4', '1 2 3 4 5', '1 2 3 4 5 6']:
            fm += ['(format "%s" %s)' % (h, a), '(format "a%sb" %s)' % (h, a)]
    fm += ['(format %s)' % ' '.join(['"' + ''.join(rng.choice(holes[:9] + ['x', ' ', '-', '%', '\\n', '{', '}'] if rng.random() < .9 else holes) for _ in range(rng.randint(1, 5))) + '"'] + [rng.choice(SMALL[:17]) for _ in range(rng.randint(0, 5))]) for _ in range(4000 if deep else 500)]
    fm += ['(format)', '(format 5)', '(format nil 1)', '(format (list 1 "{0}") 2)', "(format '{0} 7)", '(println (format "{0,8}|{1,-8}|" "r" "l"))']
    types = []
    for v in POOL: types.append('(list (typestr %s) (type %s))' % (v, v))
    def sx(d):
        if d == 0: return rng.choice(STRS + ['"hello"', '"a-b-c"', 's1', '"  pad "', '"MiX"'])
        return rng.choice([lambda: '(+ %s %s)' % (sx(d - 1), rng.choice([sx(d - 1), '1', '2.5', 'nil', '#t', "'s"])), lambda: '(slice %s %s %s)' % (sx(d - 1), rng.choice('0123'), rng.choice(['-1', '1', '2', '0'])), lambda: '(replace %s %s %s)' % (sx(d - 1), rng.choice(['"a"', '"-"', '" "', '"l"']), rng.choice(['""', '"zz"', sx(0)])),
                           lambda: '(%s %s)' % (rng.choice(['trim', 'upper-case', 'lower-case', 'reverse', 'str', 'string']), sx(d - 1)), lambda: '(format "{0}:{1,6}:{0,-4}" %s %s)' % (sx(d - 1), sx(d - 1)), lambda: '(str (len %s))' % sx(d - 1), lambda: '(str (search %s %s))' % (sx(0), sx(d - 1)), lambda: '(first %s)' % sx(d - 1), lambda: '(rest (+ "x" %s))' % sx(d - 1),
                           lambda: '(typestr %s)' % sx(d - 1), lambda: '(str (list %s (list %s)))' % (sx(d - 1), sx(0))])()
    nest = [sx(rng.randint(2, 4)) for _ in range(12000 if deep else 1500)]
    return [suite('slice', with_setup(sl, 30)), suite('search', with_setup(se, 30)), suite('replace', with_setup(rep, 30)), suite('single-operand', with_setup(uni, 30)), suite('conversions', with_setup(conv, 30)), suite('format', with_setup(fm, 25)), suite('types', with_setup(types)), suite('nested', with_setup(nest, 15))]

def c23(tier, rng):
    deep = tier == 'thorough'
    setup = "(def a (list 1 2 3))(def b a)(def c (list a (list 4 5) 6))(def n nil)(def e (list))(def s \"str\")(def d (make-dict))(def q '(1 (2 3)))(defn id (x) x)(defn fst (l) (first l))(defn nt (i l) (nth i l))(defn pick (l) (if (need-l-value) (nth 1 l) \"read\"))(defn deep (l) (first (last l)))(defn blk (l) (do (println \"in\") (first l)))"
    places = ['(first a)', '(last a)', '(nth 0 a)', '(nth 2 a)', '(nth 3 a)', '(nth -1 a)', '(first b)', '(first (first c))', '(last (nth 1 c))', '(first e)', '(last e)', '(nth 0 e)', '(first n)', '(nth 0 n)', '(last n)', '(first s)', '(nth 1 s)', '(last s)', '(first 5)', '(first d)', '(car a)', '(cdr a)', '(rest a)', 'a', 'b', 'zz', 'n', '5', '"a"', '"zz"', "'a", 'nil', '(list 1)',
              '(id a)', '(fst a)', '(nt 1 a)', '(nt 9 a)', '(pick a)', '(deep c)', '(blk a)', '(fst (nth 1 c))', '(nth 1 (nth 1 c))', '(nth (first a) a)', '(first (list 7 8))', '(rval (first a))', '(if #t (first a) (last a))', '(if #f (first a) (last a))', '(do (first a))', '(do (println "p") (last a))', '(first q)', '(first (nth 1 q))', '(last (last q))', "(first '(1 2))", '(eval \'(first a))', '(len a)', '(+ 1 2)', '(undefd)',
              '((lambda (l) (first l)) a)', '(apply first (list a))', '(reverse a)', '(nth "1" a)', '(nth 1.0 a)', '(nth nil a)', '(first)', '(first a b)', '(append a b)', '(need-l-value)', '(rval a)', 'first', '+', '(nth (do (println "idx") (rval 1)) a)', '(nth (first (list 1)) a)', '(nth (rval (first (list 1))) a)', '(first (rval c))', '(nth 1 (rval (first c)))', '(and (first a))', '(while #f (first a))', '(map first (list a))', '(return (first a))']
    vals = ['9', '"v"', 'nil', '(list 7)', "'sym", '(+ 1 2)', '(first a)', 'a', '(do (println "val") (rval 8))', '(undefd)', '(pop b)', '(push 0 a)', '(lambda (x) x)', '(setf (last b) 44)', 'd', '(make-dict)', '(first c)']
    look = ['(list a b c n e s q)']
    cases = [[setup, '(setf %s %s)' % (p, v)] + look + ['(setf %s %s)' % (p, '10')] + look + ['(need-l-value)', p] for p in places for v in (vals if deep else rng.sample(vals, 6))]
    infn = [[setup, '(defn w (l v) (do (setf %s v) (println l) (list a b)))' % p.replace(' a)', ' l)'), '(w a 9)', '(w (list 5 6 7) 3)', '(w c 1)'] + look for p in places]
    odd = [[setup, x] + look for x in ['(setf)', '(setf a)', '(setf a 1 2)', '(setf (first a))', '(setf (first a) 1 2)', '(setf (first a) (setf (last a) 5))', '(setf (nth (setf (first a) 1) a) 7)', '(setf a (setf b 5))', '(println (setf (first a) 3))', '(list (setf a 4) a)', '(def z (setf (last c) 2))', '(map (lambda (x) (setf (first x) 0)) (list a (nth 1 c)))', '(setf (first a) (first b))', '(setf (first c) c)', '(setf (first c) 1)', '(setf b (list 1))', '(do (setf a (list 8 9)) (setf (first a) 1) (list a b))',
                                     "(setf 'a 5)", "(setf (quote a) 5)", '(setf "a" 5)', '(setf (sym "a") 6)', '(setf (str "a") 6)', '(setf (+ "a" "") 6)', '(def x1 1)(setf (sym "x1") 2)(println x1)', '(defn f () (setf newvar 1))(f)', '(defn f (a) (setf a 5))(f 1)', '(defn f (a) (setf (first a) 5))(f (list 1))', '(defn g (l) (nth 0 l))(setf (g a) 1)(println (g a))', '(defn g (l) (if (need-l-value) (first l) "not needed"))(println (g a))(setf (g a) 1)(println (g a) a)',
                                     '(define-macro-eval sf (x v) (setf x v))(sf (first a) 5)', '(define-macro-eval sf (x v) (setf x v))(sf a 5)', '(defn ff (l) (fst l))(setf (ff a) 12)', '(defn ff (l) (fst (rest l)))(setf (ff a) 12)', '(defn ff (l) (do (def k l) (first k)))(setf (ff a) 12)', '(defn ff (l) (do (setf (first l) 77) (last l)))(setf (ff a) 12)', '(setf (first (list a)) 5)', '(setf (first (first (list a))) 5)', '(try)', '(setf (first a) (undefd))(println "no")',
                                     '(setf (nth 7 a) 1)', '(setf (nth 7 a) (println "evaluated"))', '(setf (undefd) (println "evaluated"))', '(setf undefd (println "evaluated"))']]
    hist = []
    for _ in range(10000 if deep else 1000):
        cmds = [setup]
        for _ in range(rng.randint(3, 8)):
            l = rng.choice(['a', 'b', 'c', '(first c)', '(nth 1 c)', 'q', '(nth 1 q)', '(last c)', 'e', '(id a)'])
            p = rng.choice(['(first %s)', '(last %s)', '(nth 0 %s)', '(nth 1 %s)', '(nth 2 %s)', '(fst %s)', '(nt 1 %s)', '(nth (len e) %s)', '(pick %s)', '(blk %s)', '(deep %s)']) % l
            cmds.append(rng.choice(['(setf %s %s)' % (p, rng.choice(vals[:9]))] * 4 + ['(println %s)' % p, '(setf %s (cons 0 %s))' % (rng.choice('abe'), rng.choice('abe')), '(push %s %s)' % (rng.choice(['1', '(list 3 4)']), rng.choice('abce')), '(def b %s)' % l, '(pop %s)' % rng.choice('abc')]))
        hist.append(cmds + look)
    return [suite('places-and-values', cases), suite('places-in-functions', infn), suite('unusual-assignments', odd), suite('histories', hist)]

TABLE = dict(C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C23=c23)
