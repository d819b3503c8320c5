"""Evaluation order, names, calls, control flow (C03-C06), quoting, macros (C12, C13), errors (C15), sessions (C19, C22)."""
import itertools
from . import prog
from .prog import Gen, layout, plain, pack, program, session
from .ev import suite

T = "(defn t (n v) (do (println n) (rval v)))\n"
# arguments that make sense for every built-in function
GOOD = {
 'type': ['1'], 'typestr': ['"a"'], 'parse-integer': ['"12"'], 'parse-float': ['"1.5"'], 'int': ['"7"'], 'float': ['"7"'], 'trim': ['" a "'], 'lower-case': ['"aB"'], 'upper-case': ['"aB"'],
 'not': ['#t'], '!': ['#f'], 'len': ['(list 1 2)'], 'first': ['(list 1 2)'], 'car': ['(list 1 2)'], 'last': ['(list 1 2)'], 'rest': ['(list 1 2)'], 'cdr': ['(list 1 2)'], 'reverse': ['(list 1 2)'],
 'rval': ['(+ 1 2)'], 'sym': ['"a"'], 'str': ['(list 1 "a")'], 'eval': ["'(+ 1 2)"], 'evalstr': ['"(+ 1 2)"'], 'delvar': ['"zz"'], 'trace': ['#f'], 'sleep': ['0'],
 'map': ['(lambda (x) (t x x))', '(list 7 8)'], 'nth': ['1', '(list 1 2)'], 'apply': ['+', '(list 1 2)'], 'dict-get': ['(make-dict)', '1'], 'dict-remove': ['(make-dict)', '1'],
 'dict-contains-key': ['(make-dict)', '1'], 'dict-contains-value': ['(make-dict)', '1'], 'dict-set': ['(make-dict)', '1', '2'], 'dict-keys': ['(make-dict)'], 'dict-clear': ['(make-dict)'],
 '<': ['1', '2'], '>': ['1', '2'], '<=': ['1', '2'], '>=': ['1', '2'], '==': ['1', '2'], '!=': ['1', '2'], '=': ['1', '2'], 'equal': ['1', '2'],
 '+': ['1', '2', '3'], '-': ['1', '2', '3'], '*': ['1', '2', '3'], '/': ['12', '2', '3'], '%': ['17', '7', '2'], 'add': ['1', '2'], 'sub': ['1', '2'], 'mul': ['1', '2'], 'div': ['8', '2'], 'mod': ['8', '3'],
 '<<': ['1', '2'], '>>': ['9', '1'], '|': ['1', '2'], '&': ['3', '2'], '^': ['3', '1'], '~': ['3'],
 'slice': ['"abcd"', '1', '2'], 'replace': ['"abca"', '"a"', '"x"'], 'search': ['"b"', '"abc"', '0', '3'], 'reduce': ['(lambda (x a) (t x (+ x a)))', '(list 7 8)', '5'],
 'format': ['"{0}-{1}"', '1', '2'], 'push': ['1', '(list 1 2)', '0'], 'pop': ['(list 1 2)', '1'], 'list': ['1', '2', '3'], 'cons': ['1', '(list 2)'], 'append': ['(list 1)', '(list 2)', '(list 3)'],
 'print': ['"p"', '1'], 'println': ['"p"', '1'], 'string': ['"a"', '1'], 'nop': ['1', '2'], 'arg': ['0'], 'fuel': [], 'version': [], 'copyright': [], 'make-dict': [], 'gettrace': [],
 'Math-Abs': ['-2.5'], 'Math-Pow': ['2', '3'], 'Math-Floor': ['2.5'], 'Math-Ceiling': ['2.5'], 'Math-Round': ['2.5'], 'Math-Truncate': ['2.5'], 'Math-Sqrt': ['4'], 'Math-Sin': ['0'], 'Math-Cos': ['0'],
 'Math-Exp': ['0'], 'Math-Log': ['1'], 'Math-Pi': [], 'File-Exists': ['"nofile"'], 'File-ReadAllText': ['"nofile"'], 'args': [], 'argscount': [], 'readline': [], 'flush': [], 'need-l-value': [],
 'quote': ['(a b)'], 'quasiquote': ['(a (_unquote 1))'], 'if': ['#t', '(t 8 1)', '(t 9 2)'], 'while': ['#f', '(do)'], 'do': ['(t 8 1)', '(t 9 2)'], 'begin': ['(t 8 1)'], 'and': ['#t', '(t 8 #f)', '(t 9 #t)'],
 'or': ['#f', '(t 8 #t)', '(t 9 #t)'], '&&': ['#t', '(t 8 #f)'], '||': ['#f', '(t 8 #t)'], 'def': ['w1', '(t 8 1)'], 'gdef': ['w2', '(t 8 1)'], 'setf': ['w0', '(t 8 1)'],
 'defn': ['w3', '(x)', '(t 8 x)'], 'gdefn': ['w4', '(x)', '(t 8 x)'], 'fn': ['(x)', '(t 8 x)'], 'lambda': ['(x)', '(t 8 x)'], 'return': ['(t 8 1)'], 'import': [], 'vars': [], '_unquote': ['1'],
 '_unquotesplicing': ['(list 1)'], 'define-macro': ['mm', '(a)', '(t 8 a)'], 'define-macro-eval': ['mm', '(a)', '(t 8 a)'], 'break': [],
}
VALUES = ['0', '1', '-2', '2.5', '""', '"abc"', '"12"', '#t', '#f', 'nil', "'a", '(list)', '(list 1 2)', '(make-dict)', '(lambda (x) x)', '+', "'(1 (a) \"s\")", '(do)']

def mark(a, i):
    return '(t %d %s)' % (i, a)

def c03(tier, rng):
    deep = tier == 'thorough'
    order = []
    for f, a in sorted(GOOD.items()):
        body = ['(%s %s)' % (f, ' '.join(a))]
        for n in range(len(a) + 1):                     # marked arguments, one of them failing
            xs = [mark(x, i + 1) for i, x in enumerate(a)]
            if n < len(a): xs[n] = rng.choice(['(t %d (undefd))' % (n + 1), '(undefd (t 5 1))', '(/ (t %d 1) (t 0 0))' % (n + 1), '(first (do (println "in") (list)))'])
            body.append('(%s %s)' % (f, ' '.join(xs)))
        for n in range(len(a)):                         # only one argument nested
            xs = [mark(x, i + 1) if i == n else x for i, x in enumerate(a)]
            body.append('(%s %s)' % (f, ' '.join(xs)))
        if len(a) > 1: body.append('(%s %s)' % (f, ' '.join(mark(x, i + 1) for i, x in enumerate(reversed(a)))))
        wrap = [T + '(def w0 5)'] + body
        order.append(wrap)
        order.append([T + '(def w0 5)\n(defn in (p q) %s)\n(println (in 1 2))(println (in (t 3 4) (t 5 6)))' % body[min(len(a), len(body) - 1)]])
    heads = ['f', '(lambda (x y z) (do (println x y z) 1))', 'g', '"f"', "'f", '(list f)', '3', 'nil', '((t 9 f))', '(t 9 f)', 'undefd']
    calls = [[T + '(defn f (x y z) (do (println x "," y "," z) (list x y z)))\n(defn g (x) (do (println (args)) (argscount)))'] +
             ['(%s %s)' % (h, ' '.join(mark(str(i), i) if m & (1 << i) else str(i) for i in range(n))) for m in range(1 << n)] for h in heads for n in range(4)]
    cond = []
    vals = ['#t', '#f', 'true', '1', 'nil', '(list)', '"x"', '(t 1 #t)', '(t 2 #f)', '(undefd)']
    for op in ['and', 'or', '&&', '||']:
        for n in range(4):
            for c in itertools.product(['(t 1 #t)', '(t 2 #f)', '1', '#t', '(undefd)'] if n > 2 else vals, repeat=n):
                cond.append('(%s %s)' % (op, ' '.join(c)))
    for c in vals:
        for a in ['(t 3 1)', 'c', '(undefd)', '(do)', "'q"]:
            cond += ['(if %s %s)' % (c, a), '(if %s %s (t 4 2))' % (c, a), '(if %s (t 4 2) %s)' % (c, a)]
        cond += ['(if %s)' % c, '(if %s 1 2 3)' % c, '(while %s (do (println "once") (setf lim (+ lim 1)) (if (> lim 3) (undefd) (do))))' % c, '(not %s)' % c]
    packed = [[T + '(def lim 0)'] + x for x in pack(cond, 25)]
    rnd = [program(rng, n=rng.randint(1, 5), d=rng.randint(1, 4), effects=.35, errors=rng.choice([0, .02])) for _ in range(12000 if deep else 1300)]
    return [suite('argument-order', order, indep=True), suite('calls', calls, indep=True), suite('conditions', packed, indep=True), suite('random-programs', rnd)]

class Scopes:
    """random programs about names: few names, many scopes"""
    def __init__(self, rng): self.r = rng; self.k = 0
    def name(self): return self.r.choice(['a', 'b', 'c', 'f', 'g'])
    def val(self): self.k += 1; return str(self.k)
    def fun(self, d): return ['lambda', [self.name() for _ in range(self.r.randint(0, 2))], self.block(d - 1)]
    def callee(self): return self.r.choice(['f', 'g', 'f', 'g', 'a', 'h'])
    def args(self): return [self.r.choice([self.val(), self.name(), "'" + self.name()]) for _ in range(self.r.randint(0, 3))]
    def stmt(self, d):
        k = self.r.random(); n = self.name()
        if k < .14: return [self.r.choice(['def', 'def', 'gdef']), n, self.val()]
        if k < .24: return ['setf', n, self.val()]
        if k < .27: return ['delvar', "'" + n]
        if k < .45: return ['println', '"%s="' % n, n]
        if k < .5: return ['println', '(vars)'] if self.r.random() < .3 else ['setf', n, ['+', n, '1']]
        if k < .72 and d > 0: return [self.r.choice(['defn', 'gdefn']), self.r.choice(['f', 'g', 'h', n]), [self.name() for _ in range(self.r.randint(0, 2))], self.block(d - 1)]
        if k < .82 and d > 0: return [self.r.choice(['def', 'gdef', 'setf']), self.r.choice(['f', 'g', 'h']), self.fun(d)]
        if k < .97: return [self.callee()] + self.args()
        return self.r.choice([['def', 'list', self.val()], ['setf', 'list', '+'], ['println', ['list', '1', '2']], ['delvar', "'list"], ['defn', '+', ['x'], ['println', '"plus"', 'x']]])
    def block(self, d):
        b = ['do'] + [self.stmt(d) for _ in range(self.r.randint(1, 3))]
        k = self.r.random()
        if k < .2 and d > 0: b.append(self.fun(d))
        elif k < .6: b.append(['list'] + [self.r.choice(['a', 'b', 'c']) for _ in range(2)])
        return b
    def program(self):
        out = [['def', n, self.val()] for n in 'abc' if self.r.random() < .6]
        out += [['defn', 'f', ['a'], self.block(2)], ['defn', 'g', ['b'], self.block(2)]] if self.r.random() < .8 else []
        return out + [self.stmt(3) for _ in range(self.r.randint(3, 8))] + [['list', 'a', 'b', 'c']]

def c04(tier, rng):
    deep = tier == 'thorough'
    levels = []
    ops = ['x', '(setf x 9)', '(def x 9)', '(gdef x 9)', "(delvar 'x)", '(do (def x 8) (setf x 9))', "(do (delvar 'x) (setf x 9))", '(do (setf x 9) (def x 7))']
    for g, p, l1, l2, cl in itertools.product([0, 1], [0, 1], [0, 1], [0, 1], [0, 1]):
        for op in ops:
            levels.append(
                ('(def x "g")\n' if g else '') +
                '(defn mk (%s) (do %s (lambda (q) (do %s (println "in" x) %s (println "after" x) x))))\n' % ('x' if p else 'p', '(def x "l1")' if l1 else '(nop)', '(def x "l2")' if l2 else '(nop)', op) +
                '(def c1 (mk "p1"))(def c2 (mk "p2"))\n(defn call (f) (do %s (println (f 1)) (println "caller" x) (f 2)))\n(call c1)(println x)(call c1)(call c2)(println x)(vars)' % ('(def x "cl")' if cl else '(nop)'))
    sess = [['\n'.join(s.split('\n')[:-1]), s.split('\n')[-1]] + ['(println x)', '(c1 5)', '(c2 6)', 'x'] for s in levels]
    counters = []
    for setop in ['(setf n (+ n 1))', '(def n (+ n 1))', '(gdef n (+ n 1))']:
        for ini in ['', '(def n 100)\n', '(gdef n 100)\n']:
            counters.append(ini + '(defn mk (n) (list (lambda () (do %s n)) (lambda () n) (lambda (v) (setf n v))))\n(def a (mk 1))(def b (mk 10))\n' % setop +
                            '(def inc (first a))(def get (nth 1 a))(def put (nth 2 a))(def inc2 (first b))(def get2 (nth 1 b))\n(println (inc) (inc) (get))(println (inc2) (get2) (get))(put 50)(println (get) (inc) (get2))\n(println n)')
    shadow = []
    for n in ['list', '+', 'println', 'if', 'do', 't1', 'args', 'first']:
        for d in ['(def %s 5)', '(defn %s (x) (println "mine" x))', '(gdef %s (lambda (x) (println "mine" x)))', '(setf %s 7)', "(delvar '%s)", '(defn o (%s) (println %s))(o 3)', '(def %s %s)']:
            shadow.append([d.replace('%s', n), n, '(%s 1)' % n, '(list 1 (+ 1 1))', "(delvar '%s)" % n, '(%s 1 2)' % n, '(defn inner () (%s 1 2))' % n, '(inner)', '(println "ok")', '(vars)'])
    # functions in functions, up to eight of them: a variable of every level is read and assigned in the innermost one
    nest = []
    for d in range(1, 9):
        for glob in (0, 1):
            for late in (0, 1):
                vs = ['v%d' % i for i in range(d)] + ['g', 'same']
                body = '(do (println %s) %s (list %s))' % (' '.join(vs), ' '.join('(setf %s (list %s %d))' % (v, v, i) for i, v in enumerate(vs)), ' '.join(vs))
                for i in range(d - 1, 0, -1):
                    call = '(f%d %d)' % (i, i) if not late else 'f%d' % i
                    body = '(do %s (defn f%d (v%d) %s) (def r %s) (println "out" %s same) r)' % ('(def same %d)' % i if i % 3 == 1 else '(nop)', i, i, body, call, ' '.join(vs[:i]))
                nest.append(['(def g 1)(def same 0)' + ('(def v%d "global")' % (d // 2) if glob else ''), '(defn f0 (v0) %s)' % body] +
                            (['(def h (f0 0))'] + ['(def h (h %d))' % i for i in range(1, d)] if late else []) + ['h' if late else '(f0 0)', '(list g same)', '(f0 7)', '(vars)'])
    rnd = ['\n'.join(layout(x, rng) for x in Scopes(rng).program()) for _ in range(25000 if deep else 2200)]
    sessions = [['\n'.join(layout(x, rng) for x in p) for s in [Scopes(rng)] for p in [s.program(), [s.stmt(3) for _ in range(3)], [s.stmt(2) for _ in range(3)], [['list', 'a', 'b', 'c']]]] for _ in range(8000 if deep else 700)]
    mods = []
    for _ in range(3000 if deep else 250):
        s = Scopes(rng)
        m = '\n'.join(layout(s.stmt(2), rng) for _ in range(4))
        mods.append(dict(codes=['(import "m.fuel")\n' + '\n'.join(layout(x, rng) for x in s.program()), '(import "m.fuel")', '\n'.join(layout(s.stmt(2), rng) for _ in range(3))], files={'m.fuel': m}))
    return [suite('binding-places', levels), suite('binding-places-in-sessions', sess), suite('closures', counters), suite('names-of-builtins', shadow), suite('functions-in-functions', nest),
            suite('random-scopes', rnd), suite('random-sessions', sessions), suite('random-modules', mods)]

def c05(tier, rng):
    deep = tier == 'thorough'
    bind = []
    show = '(do (println "all" (args) (argscount)) (if (> (argscount) 0) (println "arg0" (arg 0)) (do)) (if (> (argscount) 2) (println "arg2" (arg 2)) (do)) %s (list %s))'
    pnames = ['p', 'q', 'r', 's']
    vals = ['1', '"b"', 'nil', '(list 4)', '#t', '2.5']
    for n in range(5):
        for k in range(7):
            more = '(println "more" _additionalArgs (len _additionalArgs))' if k > n else ''
            f = '(defn f (%s) %s)' % (' '.join(pnames[:n]), show % (more, ' '.join(pnames[:n])))
            a = ' '.join(vals[:k])
            bind.append([f, '(f %s)' % a, '(apply f (list %s))' % a, '(apply f \'(%s))' % a, '((lambda (g) (g %s)) f)' % a, '(def h f)(h %s)' % a, '(eval (list f %s))' % a, '(defn o (x y) (do (println "o" (args)) (f %s)))(o 7)' % a, '(arg 0)', '(args)', '(argscount)'])
            bind.append([f.replace('(do ', '(do (def z 1) ', 1)] + ['(f %s)' % ' '.join(rng.choice(VALUES) for _ in range(k)) for _ in range(6)] + ['_additionalArgs', '(arg %d)' % k])
    for i in ['-1', '0', '1', '2', '3', '1.0', '"1"', 'nil', '99999']:
        bind.append(['(defn f (x) (arg %s))' % i, '(f)', '(f 1)', '(f 1 2)', '(f 1 2 3)', '(f (list 1) (make-dict) nil)', '(map f (list 1 2))', '(arg %s)' % i])
    dup = ['(defn f (x x) (list x (args)))(f 1 2)', '(defn f (x y x) (list x y))(f 1 2 3)', '(defn f (&rest r) (list r))(f 1 2)', '(defn f ("s") (list s))(f 1)', '(defn f (1 2) (list 1 2))(f 5 6)', '(defn f ((a b)) (println "in"))(f 1)',
           '(defn f a (list a))(f 1)', '(defn f nil 1)(f)', '(def f (lambda nil 3))(f 1)', '(def f (lambda 5 3))(f 1)', '(def f (lambda "x" 3))(f 1)', "(def f (lambda '(x) (list x)))(f 1)", '(defn f () 5)(f)', '(defn f (x) x)(f 5)',
           '(defn f (x) (setf x 3))(def y 1)(f y)(println y)', '(defn f (l) (push 9 l))(def y (list 1))(f y)(println y)', '(defn f (n) (if (< n 1) 0 (+ n (f (- n 1)))))(f 12)', '(defn e (n) (if (== n 0) #t (o (- n 1))))(defn o (n) (if (== n 0) #f (e (- n 1))))(list (e 7) (o 7))',
           '(defn f (n) (do (def l (list n)) (if (> n 0) (f (- n 1)) (do)) (println l n) (list n l)))(f 3)', '(defn f (f) (f 2))(f (lambda (x) (* x x)))', '(defn f (x) (lambda (y) (list x y (args))))(apply (f 1) (list 2 3))', '(defn f)', '(defn f (x))', '(lambda)', '(lambda (x))', '(lambda (x) 1 2)', '(defn f (x) 1 2)']
    higher = []
    fns = ['(lambda (x) (list x (args)))', '(lambda () "none")', '(lambda (x y) (list y x))', '(lambda (x y z) (list x y z (argscount)))', '+', 'list', 'str', 'first', 'if', 'quote', 'and', 'user', 'nil', '3', '"user"', "'user", '(quote user)', 'undefd', '(do user)', '-', 'not', 'typestr', 'println', 'def', 'return', '(lambda (x) (return (+ x 1)))',
           'nop', '(lambda (x) (do))', '(lambda (x) nil)', '(lambda (x a) (if (== x 1) x))', '(lambda (x a) (if (== x 3) (list x a)))', '(lambda (x a) (if (== x 2) nil (list x a)))', '(lambda (x a) (do (if (== x 2) (return nil)) (return x)))']
    lists = ['(list)', '(list 1)', '(list 1 2 3)', "'(a b)", "'((1 2) (3))", 'nil', '5', '"abc"', '(list (list) nil #f)', "(list '(+ 1 2) 'user)", '(make-dict)', 'l1', '(quote l1)', "'(1 (+ 1 2))"]
    for f in fns:
        for l in lists:
            higher += ['(map %s %s)' % (f, l), '(apply %s %s)' % (f, l), '(reduce %s %s 0)' % (f, l), '(reduce %s %s (list))' % (f, l)]
    higher += ['(map (lambda (x) (do (setf l1 (append l1 (list x))) (len l1))) l1)', '(map (lambda (x) (push x l1)) l1)', '(map (lambda (x) (pop l1)) l1)', '(reduce (lambda (x a) (do (push a l1) (+ x a))) l1 0)', '(map)', '(map +)', '(map + l1 l1)', '(reduce + l1)', '(apply +)', '(apply + l1 l1)']
    hs = [['(def l1 (list 1 2 3))(defn user (x y) (do (println "u" x y) (list x y)))'] + x for x in pack(higher, 18)]
    counts = []
    pool = {'0': ['0', '1', '2', '3', '4', '5', '6', '7']}
    from .builtins import NAMES
    for f in NAMES:
        if f in ('sleep', 'help', 'doc', 'searchdoc', 'htmldoc', 'tickcount', 'date-time', 'platform', 'while'): continue
        for vs in (['1', '2', '1', '2', '1', '2', '1', '2'], ['(list 1)', '1', '"a"', '(list)', '1', '1', '1', '1'], ['"a"', '"b"', '0', '1', '2', '3', '4', '5'], ["'x", "'(a)", "'(b)", '1', '1', '1', '1', '1']):
            counts.append(['(%s %s)' % (f, ' '.join(vs[:k])) for k in range(9)] + ['(println "alive" (+ 1 2))'])
    rnd = [program(rng, n=rng.randint(2, 5), d=rng.randint(2, 4), effects=.05, errors=.005, dirty=.02) for _ in range(10000 if deep else 900)]
    calls = []
    for _ in range(8000 if deep else 800):
        n = rng.randint(0, 4); ps = pnames[:n]
        body = rng.choice(['(list %s (args))', '(do (println %s "-" (argscount)) (list %s))', '(if (> (argscount) %d) (list "more" _additionalArgs) (list %%s))' % n, '(do (def p 7) (list %s (args)))', '(map (lambda (p) (list p %s (args))) (list 1 2))',
                           '(apply g (args))', '(do (def r1 (g %s)) (list r1 %s (args)))', '(do (setf p 5) (list %s (args)))']).replace('%s', ' '.join(ps))
        f = '(defn f (%s) %s)' % (' '.join(ps), body)
        g = '(defn g (q p) (list "g" p q (args)))'
        cs = ['(f %s)' % ' '.join(rng.choice(VALUES + ['(f 1)', '(g 1 2 3)', '(f 1 2 3 4 5)'] if rng.random() < .9 else ['undefd']) for _ in range(rng.randint(0, 6))) for _ in range(4)]
        calls.append([g + '(def p 1)(def q 2)\n' + f] + cs)
    return [suite('binding', bind), suite('unusual-definitions', pack(dup, 1)), suite('map-reduce-apply', hs, indep=True), suite('argument-counts', counts, indep=True), suite('random-calls', calls), suite('random-programs', rnd)]

class Flow:
    """random control flow: nested blocks, loops, conditions and returns in functions"""
    def __init__(self, rng): self.r = rng; self.k = 0; self.infn = 0
    def mark(self): self.k += 1; return str(self.k)
    def cond(self):
        return self.r.choice(['#t', '#f', '(> i 1)', '(== i 0)', '(< i 2)', '(not (== i 1))', '(and (> i 0) (< i 3))', '(or (== i 0) (== i 2))', '(t %s #t)' % self.mark(), '(t %s #f)' % self.mark()])
    def stmt(self, d):
        k = self.r.random()
        if d <= 0 or k < .2: return ['println', '"%s"' % self.mark(), 'i']
        if k < .4: return ['if', self.cond(), self.stmt(d - 1)] + ([self.stmt(d - 1)] if self.r.random() < .6 else [])
        if k < .52: return self.loop(d)
        if k < .68: return ['do'] + [self.stmt(d - 1) for _ in range(self.r.randint(0, 3))]
        if k < .82: return ['return', self.r.choice([self.mark(), 'i', '(list i %s)' % self.mark(), '(f%d i)' % self.r.randint(1, 2), 'nil', '(do (println "ret") 5)'])]
        if k < .92: return ['println', ['f%d' % self.r.randint(1, 2), self.r.choice(['i', '0', '1', '2'])]]
        if k < .95: return [self.r.choice(['and', 'or']), ['do', self.stmt(d - 1), '(rval #t)'], self.cond() if self.r.random() < .5 else '#f']
        return ['map', ['lambda', ['i'], self.stmt(d - 1)], "'(0 1 2)"]
    def loop(self, d):
        self.k += 1
        c = 'c%d' % self.k
        return ['do', ['def', c, '0'], ['while', ['<', c, self.r.choice(['0', '1', '2', '3'])], ['do', ['setf', c, ['+', c, '1']], ['println', '"%s"' % c, c]] + [self.stmt(d - 1) for _ in range(self.r.randint(0, 2))]]]
    def fn(self, name, d):
        b = ['do'] + [self.stmt(d) for _ in range(self.r.randint(1, 4))]
        if name == 'f2': b = [b[0]] + [self.no_f(x) for x in b[1:]]
        return ['defn', name, ['i'], b if self.r.random() < .9 else b[1]]
    def no_f(self, t):       # f2 calls nobody, f1 only f2
        if isinstance(t, str): return t.replace('(f1 i)', 'i').replace('(f2 i)', 'i')
        if t and t[0] in ('f1', 'f2'): return ['+', '1', t[1]]
        return [self.no_f(x) for x in t]
    def only_f2(self, t):
        if isinstance(t, str): return t.replace('(f1 i)', '(f2 i)')
        if t and t[0] == 'f1': return ['f2'] + t[1:]
        return [self.only_f2(x) for x in t]
    def program(self):
        return [['defn', 't', ['n', 'v'], ['do', ['println', 'n'], ['rval', 'v']]], ['def', 'i', '1'], self.fn('f2', 2), self.only_f2(self.fn('f1', 3))] + \
               [['println', [self.r.choice(['f1', 'f2']), self.r.choice(['0', '1', '2'])]] for _ in range(2)] + [self.stmt(2) for _ in range(self.r.randint(1, 3))] + [['f1', '2']]

def c06(tier, rng):
    deep = tier == 'thorough'
    # all small control flow programs in a function
    atoms = ['(println 1)', '(return 2)', '(do)', '(g)']
    def nest(level):
        if level == 0: return list(atoms)
        sub = nest(level - 1)
        out = list(sub)
        few = sub if level == 1 else sub[::(5 if deep else 23)]
        for a in few:
            out += ['(if #t %s %s)' % (a, b) for b in atoms[:2]] + ['(if #f %s)' % a, '(if #f (println 8) %s)' % a, '(do %s (println 3))' % a, '(do (println 4) %s)' % a, '(do %s)' % a,
                    '(while (< i 3) (do (setf i (+ i 1)) %s (println i)))' % a, '(while (do (println "c" i) (< i 2)) (do (setf i (+ i 1)) %s))' % a, '(do (def z %s) (println "z" z))' % a, '(println "v" %s)' % a, '(+ 1 (do (println 5) %s))' % a,
                    '(and (do %s (rval #t)) (do (println 6) (rval #t)))' % a, '(eval \'%s)' % a, '(while (do %s (setf i (+ i 1)) (< i 3)) (println "b"))' % a, '(if (do %s (rval #t)) (println 7) (println 8))' % a,
                    '(map (lambda (x) (do %s (println x))) (list 1 2))' % a, '(apply (lambda () (do %s (println 9))) (list))' % a]
        return out
    small = nest(2)
    def wrap(s): return '(def i 0)(defn g () (do (println "g") (return 7) (println "no")))\n(defn f (i) (do (println "start") %s (println "end") 99))\n(println "r" (f 0))\n(defn h (i) %s)(println (h 0))' % (s, s)
    fns = [[wrap(s), s, '(println "again" (f 1))'] for s in small]
    loops = []
    for c in ['(< i 0)', '(< i 1)', '(< i 3)', '(and (< i 5) (!= i 2))', '(- 4 i)', '(- 4.0 i)', '#f', 'nil', '(list)', '"s"', "'a", '(> 3 i)', '(do (println "c" i) (< i 2))', '0', '0.0', '(make-dict)', '(lambda (x) x)']:
        for b in ['(do (println i) (setf i (+ i 1)))', '(do (setf i (+ i 1)) (if (== i 2) (return i)) (println "b"))', '(do (setf i (+ i 2)) (return (list i)))', '(setf i (+ i 1))', '(do (setf i (+ i 1)) (println "b") (list i))', '(do (setf i (+ i 2)))']:
            loops += ['(def i 0)(while %s %s)' % (c, b), '(def i 0)(defn f (k) (do (while %s %s) (println "done" i) i))(f 1)' % (c, b), '(def i 0)(def r (while %s %s))(println r i)' % (c, b)]
    blocks = ['(do)', '(do 1)', '(do (do))', '(do (+ 1 2) (+ 3 4))', '(do (+ 1 2) 3)', '(do a)', '(do nil)', '(do (println 1) "x")', '(do ())', '(do (list) (list 1))', '(begin (println 1) (println 2))', '(begin)', '(do (do (do (println 1))))', "(do '(1 2))",
              '(return 1)', '(return)', '(return 1 2)', '(do (return 3) (println "x"))', '(println (return 4))', '(defn f () (return (return 5)))(f)', '(defn f () (+ 1 (return 5)))(f)', '(defn f () (list (return 1) (println "arg") (return 2)))(f)', '(defn f () (do (if (return 1) (println "t") (println "e")) (println "after")))(f)']
    conn = []
    vals = ['(t 1 #t)', '(t 2 #f)', '#t', '#f', '1', '0', 'nil', '(list)', '"s"', '(return 4)', '(do (println "e") (> 2 1))', '(do (println "d") (< 2 1))']
    for o in ['and', 'or', '&&', '||']:
        for c in itertools.chain(itertools.product(vals, repeat=2), itertools.product(['(t 1 #t)', '(t 2 #f)', '(t 3 #t)', '#f'], repeat=3)):
            x = '(%s %s)' % (o, ' '.join(c))
            if 'return' in x: conn.append('(defn f%d () (do (if %s (println "yes") (println "no")) (println "end") (+ 4 4)))(println (f%d))' % (len(conn), x, len(conn)))
            else: conn.append(rng.choice(['(println %s)', '(if %s (println "yes") (println "no"))', '(not %s)', '(do (def n 0)(while (and (< n 2) %s) (setf n (+ n 1))) (println n))']) % x)
    conns = [['(defn t (n v) (do (println n) (rval v)))'] + x for x in pack(conn, 12)]
    rnd = ['\n'.join(layout(x, rng) for x in Flow(rng).program()) for _ in range(20000 if deep else 2000)]
    return [suite('control-flow-nestings', fns), suite('loops', pack(loops, 6), indep=True), suite('blocks', pack(blocks, 4), indep=True), suite('connectives', conns, indep=True), suite('random-control-flow', rnd)]

TABLE = dict(C03=c03, C04=c04, C05=c05, C06=c06)
