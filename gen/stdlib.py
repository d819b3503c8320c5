"""The standard library (C21): sessions that import it and call its definitions."""
import itertools
from .prog import Gen, layout, plain
from .ev import suite

FILES = {'Library/fuellib.fuel': '<library>'}
def case(codes, **o): return dict(dict(lib21=True, files=FILES, codes=['(import fuellib)'] + codes), **o)
def packed(codes, setup, n=40, indep=True):
    return [case([setup] + codes[i:i + n], indep=indep) for i in range(0, len(codes), n)]

SETUP = '(def l (list 3 1 2)) (def e (list)) (def d (make-dict)) (dict-set d "k" 1) (dict-set d 2 "v") (defn f (x) (do (println "f" x) (list x x))) (def s "hello") (def i 77) (def max 88) (def result 99)'
SEQS = ['l', 'e', 's', '"abc"', '""', '"a"', '(list 1)', '(list 1 2)', "'(a b c)", '(list "x" 2.5 nil #t)', '(list (list 1 2) (list 3) (list))', '(list nil nil)', "(quote (1 (2 3)))", '(map f (list 1 2))', '(append l l)', '(list 0 1 2 3 4 5 6 7 8 9 10 11 12)', '(rest l)', '"aXbXc"', '(list f + (lambda (x) x))', '(list d d)', '(list 1.0 1 "1" (quote 1))']
KEYS = ['1', '2', '3', '0', '99', '-1', '"a"', '"b"', '"c"', '"abc"', '""', "'a", "'b", '2.5', 'nil', '#t', '#f', '"X"', '"h"', '"o"', '(list 1 2)', '(list)', '1.0', '(first l)', '(+ 1 1)', '"1"', 'd', 'f', '(quote (2 3))', '12']
ANY = SEQS + KEYS + ['d', '(make-dict)', '(lambda (x) x)', '5', '2147483647']

FNS = ['println', 'f', 'list', '(lambda (x) (println "x" x))', '(lambda (x) (setf i (+ i 1)))', '(lambda (x) (do (push x acc) (println acc)))', '(lambda (x) (return x))', '(lambda (x) (do (return x) (println "no")))', '(lambda (x) (foreach l (lambda (y) (println x y))))', '(lambda (x) (dotimes (k 2) (println x k)))',
       '(lambda (x) (push 9 l))', '(lambda (x) (pop l))', '(lambda (x) (setf (nth 0 l) x))', '(lambda (x) (undefd x))', '(lambda (x) (if (== x 1) (undefd x) (println x)))', '(lambda () (println "none"))', '(lambda (x y) (println x y))', '(lambda (x) (do (def __i 50) (println __i)))', '(lambda (x) (setf x 5))', '(lambda (x) (println max i result))', '(lambda (x) (def max 0))', '(lambda (x) (gdef gg x))', 'str', '+', 'typestr', 'len', 'first',
       '(lambda (x) (length (list x l)))', '(lambda (x) (println (args)))', '(lambda (x) (setf l x))', '(lambda (x) (println (second (list x x))))', '(lambda (x) (println (vars)))', '(lambda (x) (append l l))', '(do (println "once") f)', '(defn named (x) (println "named" x))', '(lambda (x) (delvar (quote x)))']

def dotimes(r, d=0, infn=False):
    v = r.choice(['c', 'i', 'k', 'n', 'x'])
    n = r.choice(['0', '1', '2', '3', '3', '2.5', '(len l)', '(+ 1 1)', '-1', 'lim', '(do (println "count") 2)', '(len s)', '(- (len l) 1)', '(tick)', 'nil', '"a"', '1.0'] if r.random() < .9 else ['undefd', '(undefd)', '(list)', '#t', '0.5', '(first l)'])
    b = [r.choice(['(println %s)' % v, '(println "b" (+ %s 1))' % v, '(push %s l)' % v, '(setf lim 1)', '(setf %s (+ %s 1))' % (v, v), '(def %s (* %s 2))' % (v, v), '(setf tot (+ tot %s))' % v, '(println (nth %s l))' % v, '(def in%s %s)' % (v, v), '(pop l)', '(setf (nth 0 l) %s)' % v,
                   '(if (== %s 1) (println "one") (println "other"))' % v, '(println (vars))', '(setf %s "t")' % v, '(gdef %s 9)' % v, '(undefd %s)' % v, '(if (== %s 2) (undefd) (do))' % v, '(tick)', '(setq tot %s)' % v, '(push (lambda () %s) fns)' % v,
                   '(println %s tot lim)' % v, '(foreach (list %s 5) (lambda (q) (println q)))' % v, '(println (find %s l))' % v, '(eval (list println %s))' % v] if r.random() < .85 else ['%s' % v, '5', '(list %s %s)' % (v, v), '(return %s)' % v, '(do)', 'nil', '(quote %s)' % v, '(setf %s (- %s 1))(setf %s (+ %s 2))' % (v, v, v, v)]) for _ in range(r.randint(1, 3))]
    if infn and r.random() < .4: b.append('(if (== %s %d) (return (list "ret" %s)) (println "on" %s))' % (v, r.randint(0, 2), v, v))
    if d and r.random() < .5: b.insert(r.randint(0, len(b)), dotimes(r, d - 1, infn))
    b = [x for x in b if x[0] == '('] if len(b) > 1 else b
    body = b[0] if len(b) == 1 and r.random() < .8 else r.choice(['(do %s)', '(do\n  %s)']) % ' '.join(x for x in b if x[0] == '(')
    return r.choice(['(dotimes (%s %s) %s)', '(dotimes (%s %s)\n  %s)', '(dotimes (%s %s) %s)']) % (v, n, body)
DSETUP = '(def l (list 3 1 2)) (def lim 3) (def tot 0) (def s "ab") (def ticks 0) (def fns (list)) (defn tick () (do (setf ticks (+ ticks 1)) (println "tick" ticks) (if (> ticks 5) 0 2)))'

PLACES = ['x', 'y', '(first l)', '(nth 1 l)', '(last l)', '(car l)', '(nth (do (println "at") 0) l)', '(first (nth 0 ll))', 'nowhere', '(nth 9 l)', '(get1 l)', '(rval x)', '5', '"x"', '(nth 1 (do (println "list") l))', 'g', '(nth x l)', '(second l)', '(sym "x")', 'l', "'x", 'value', 'symbol', '(first (list 1))', '(dict-get d 1)', 'value']
VALUES = ['5', '"t"', '(+ x 1)', 'x', 'l', '(list 1 2)', '(do (println "value") 7)', 'nil', '#t', "'s", '(undefd)', 'undefd', '(setq y 3)', '(lambda (q) q)', '(f 4)', '(quote (1 2))', 'value', 'symbol', '(setf y 8)', '(first l)']
QSETUP = '(def x 1) (def y 2) (def l (list 4 5 6)) (def ll (list (list 1 2) (list 3))) (gdef g 3) (def d (make-dict)) (dict-set d 1 2) (def value 31) (def symbol 32) (defn f (a) (do (println "f" a) (* a 2))) (defn get1 (q) (nth 1 q))'

NAMES = ['point', 'p', 'a-b', 'rec', 'Data', 'x', 'node', 'q1']
FIELDS = ['x', 'y', 'z', 'name', 'data', 'value', 'a', 'b', 'c', 'list', 'i', '__i', 'first', 'counterinfo', 'statements', 'type', 'point', 'l', 'nth', 'key']
def struct(r):
    n = r.choice(NAMES); fs = r.sample(FIELDS, r.randint(0, 4))
    return n, fs
def uses(r, n, fs, k):
    vals = ['1', '"s"', '2.5', 'nil', '(list 1 2)', '#t', 'l', '(+ 1 2)', "'q", '(do (println "arg") 6)', '(make-%s %s)' % (n, ' '.join('0' for _ in fs))]
    mk = lambda e=0: '(make-%s%s)' % (n, ''.join(' ' + r.choice(vals) for _ in range(max(0, len(fs) + e))))
    out = ['(def o %s)' % mk(), '(println o)']
    for _ in range(k):
        f = r.choice(fs) if fs else 'x'
        out.append(r.choice(['(get-%s-%s o)' % (n, f), '(println (get-%s-%s o))' % (n, f), '(setf (get-%s-%s o) %s)' % (n, f, r.choice(vals)), '(setq (get-%s-%s o) %s)' % (n, f, r.choice(vals)), 'o', '(is-%s-p o)' % n, '(is-%s-p %s)' % (n, r.choice(['5', '"a"', 'nil', '(list 1)', '(list "#%s")' % n, "'#%s" % n, "(list '#%s)" % n, '(list)', 'l', 'd', '#t', '2.5', 'println', mk()])),
                             mk(r.choice([0, 0, 0, -1, 1])), '(def o2 %s)' % mk(), '(== o %s)' % mk(), '(get-%s-%s (list 1 2 3 4 5 6))' % (n, f), '(get-%s-%s (list 1))' % (n, f), '(get-%s-nosuch o)' % n, '(map get-%s-%s (list o o))' % (n, f), '(map (lambda (q) (is-%s-p q)) (list o 1 l nil))' % n,
                             '(def l2 (list o o))(setf (get-%s-%s (first l2)) %s)(println o l2)' % (n, f, r.choice(vals)), '(foreach (list o) (lambda (q) (println (get-%s-%s q))))' % (n, f), '(first o)', '(len o)', '(setf (get-%s-%s o) (+ (get-%s-%s o) 1))' % (n, f, n, f), '(find %s (list 1 2))' % r.choice(vals), 'make-%s' % n, '(vars)', '(setf (nth 1 o) 77)']))
    return out

class LibGen(Gen):
    """programs that use the library anywhere"""
    def list(self, d):
        if d > 0 and self.p(.1): return ['arg-list-expression', self.ch('0', '1', '2')]
        return Gen.list(self, d)
    def int(self, d):
        if d > 0 and self.p(.2): return self.ch(lambda: ['find', self.any(d - 1), self.list(d - 1)], lambda: ['length', self.list(d - 1)], lambda: ['strlen', self.str(d - 1)], lambda: ['find', '"a"', self.str(d - 1)], lambda: ['second', ['list', '0', self.int(d - 1)]])()
        return Gen.int(self, d)
    def stmt(self, d):
        k = self.r.random()
        if k < .15: return ['foreach', self.e('list', d - 1), ['lambda', ['q'], self.ch(['println', 'q'], ['list', 'q'], ['do', ['println', '"q"'], ['str', 'q']])]]
        if k < .3:
            self.n += 1
            c = 'c%d' % self.n
            s = self.snapshot(); self.vars['int'].append(c)
            b = self.stmt(d - 1); self.vars = s
            return ['dotimes', [c, self.ch('0', '1', '2', '3')], b if isinstance(b, list) else ['println', c]]
        if k < .4:
            t = self.ch('int', 'str', 'list'); v = self.var(t)
            if v: return ['setq', v, self.e(t, d)]
        return Gen.stmt(self, d)

def c21(tier, rng):
    deep = tier == 'thorough'
    calls = ['(second %s)' % x for x in ANY] + ['(length %s)' % x for x in ANY] + ['(strlen %s)' % x for x in ANY] + ['(dict-len %s)' % x for x in ANY] + ['(isNET)', '(isCpp)', '(isHaxe)', '(second)', '(length)', '(find 1)', '(strlen s s)', '(second l l)', '(isNET 1)', '(isCpp)', '(list (isNET) (isCpp) (isHaxe))', '(dict-len)', '(second (println "x"))', '(length (do (println "arg") l))']
    calls += ['(find %s %s)' % (k, q) for k in KEYS for q in SEQS] + ['(find %s (list %s %s %s))' % (k, a, b, k) for k, a, b in [tuple(rng.choice(KEYS) for _ in range(3)) for _ in range(2000 if deep else 150)]]
    calls += ['(find (do (println "key") %s) (do (println "list") %s))' % (rng.choice(KEYS), q) for q in SEQS]
    calls += ['(%s %s)' % (n, a) for n in ['arg-list-expression'] for a in ['0', '1', '2', '3', '5', '12', '(len l)', '-1', '"a"', '(do (println "n") 2)']]
    calls += ['(arg-list-with-obj-expression %s %s)' % (o, n) for o in ['1', "'obj", '"o"', 'l', 'nil', '(list)', 'f'] for n in ['0', '1', '2', '4']]
    calls += ['(create-call-expression %s %s %s %s)' % x for x in itertools.product(["'call", '"call"', 'f', '1'], ["'m", '"m"', '"Sys.M"'], ['()', 'nil', "'obj", '"x"', '1', '(list)'], ['0', '1', '3'])]
    calls += ['(create-native-method-expression %s %s %s %s %s %s)' % x for x in itertools.product(['"pre-"', '""'], ['"Cls"', "'Cls"], ['"nm"', '"other-name"'], ['"Net"', "'Net"], ['#t', '#f'], ['0', '1', '4'])]
    calls += ["(eval (create-native-method-expression \"pre-\" \"Cls\" \"nm\" \"Net\" #%s 2))" % b for b in 'tf']
    calls += ['(apply %s (list %s))' % x for x in [('second', 'l'), ('length', 's'), ('find', '1 l'), ('arg-list-expression', '2'), ('foreach', 'l println')]] + ['(map %s (list %s))' % x for x in [('second', '"ab" l'), ('length', '"ab" l ""'), ('strlen', '"ab" "" "x"')]] + ['(reduce (lambda (x acc) (+ acc (length x))) (list "a" l) 0)']
    calls += [n for n in ['second', 'find', 'foreach', 'isCpp', 'create-call-expression']] + ['(str %s)' % n for n in ['second', 'find', 'arg-list-expression']] + ['(type second)', '(typestr find)', '(def old second)', '(old l)', '(do (defn second (x) "mine") (second l))', '(foreach 5 f)', '(foreach d f)', '(foreach nil f)', '(foreach l)', '(foreach f l)', '(foreach)', '(foreach l 5)', '(do (def find 3) (second (list find find)))']
    fe = ['(do (def acc (list)) (foreach %s %s))' % (q, f) for q in SEQS for f in FNS]
    fe = [x for p in fe for x in (p, '(println l i max result)')] if deep else [x for p in rng.sample(fe, 500) for x in (p, '(println l i max result)')]
    fes = [case([SETUP + '(def acc (list))'] + [rng.choice(['(foreach %s %s)', '(def r (foreach %s %s))', '(println (foreach %s %s))', '(defn g (x) (do (foreach %s %s) (println "end" x)))(g 4)', '(defn g (x) (foreach %s %s))(println (g 4))', '(foreach (list 1 2) (lambda (o) (foreach %s %s)))']) % (rng.choice(SEQS), rng.choice(FNS)) for _ in range(rng.randint(1, 4))] + ['(println l i max result acc)', '(vars)']) for _ in range(3000 if deep else 200)]
    dt = [case([DSETUP] + [rng.choice(['%s', '%s', '(println %s)', '(def r %s)', '(do %s (println "done"))', '(list %s 1)', '(if %s 1 2)']) % dotimes(rng, 2) if rng.random() < .6 else '(defn g (x) %s)(println "g" (g 3))(g 4)' % dotimes(rng, 2, True) if rng.random() < .7 else '(defn g (x) (do %s (println "after") (list x)))(g 3)' % dotimes(rng, 2, True) for _ in range(rng.randint(1, 4))] + ['(println l tot lim ticks)', '(vars)', '(map (lambda (q) (q)) fns)'], limit=3) for _ in range(6000 if deep else 500)]
    dt += [case([DSETUP, x]) for x in ['(dotimes)', '(dotimes (i 3))', '(dotimes i 3)', '(dotimes (i) 3)', '(dotimes (5 3) (println 1))', '(dotimes ("c" 2) (println c))', '(dotimes (list 3) (println "x"))', '(dotimes (c 2) (println c) (println "second"))', '(dotimes (c 2 9) (println c))', '(dotimes (statements 2) (println statements))', '(dotimes (counterinfo 2) (println counterinfo))', '(do (def statements 5) (dotimes (c 2) (println statements)))', '(do (def counterinfo 5) (dotimes (c counterinfo) (println counterinfo c)))']]
    sq = [x for p in PLACES for v in (VALUES if deep else rng.sample(VALUES, 8)) for x in ('(setq %s %s)' % (p, v), '(println x y l ll g value symbol)')]
    sqs = [case([QSETUP] + [rng.choice(['(setq %s %s)', '(println (setq %s %s))', '(defn h (x) (do (setq %s %s) (println x y) x))(h 9)', '(do (def x 50) (setq %s %s) x)', '(foreach (list 1 2) (lambda (x) (setq %s %s)))', '(if #t (setq %s %s) 1)', '(setq %s (list %s))']) % (rng.choice(PLACES), rng.choice(VALUES)) for _ in range(rng.randint(1, 5))] + ['(println x y l ll g value symbol)', '(vars)']) for _ in range(3000 if deep else 250)]
    sqs += [case([QSETUP, x]) for x in ['(setq)', '(setq x)', '(setq x 1 2)', '(setq x 1 y 2)', '(setq (x) 1)']]
    st = []
    for _ in range(4000 if deep else 350):
        n, fs = struct(rng)
        codes = ['(def l (list 1 2)) (def d (make-dict))', rng.choice(['(defstruct %s%s)', '(defstruct %s%s)', '(println (defstruct %s%s))', '(defn mk () (do (defstruct %s%s) 1))(mk)', '(do (defstruct %s%s) (println "ok"))']) % (n, ''.join(' ' + f for f in fs))] + uses(rng, n, fs, rng.randint(2, 8))
        if rng.random() < .3:
            n2, f2 = struct(rng)
            codes += ['(defstruct %s%s)' % (n2, ''.join(' ' + f for f in f2))] + uses(rng, n2, f2, 3) + ['(is-%s-p o)' % n, '(list (is-%s-p o) (is-%s-p o))' % (n, n2)]
        st.append(case(codes, limit=4))
    st += [case([x]) for x in ['(defstruct)', '(defstruct "p" x)', '(defstruct p 5)', '(defstruct p "x")', '(defstruct (p) x)', '(defstruct 5 x)']]
    rp = []
    for _ in range(4000 if deep else 300):
        g = LibGen(rng, errors=rng.choice([0, .02, .05]), effects=rng.choice([0, .05, .15]))
        p = g.program(rng.randint(2, 6), rng.randint(1, 3))
        rp.append(case(['\n'.join(layout(x, rng, False) for x in p), '(vars)']) if rng.random() < .7 else case(['(println (vars))'] + [layout(x, rng, True) for x in p]))
        if rng.random() < .1: rp[-1] = dict(lib21=True, files=dict(FILES, **{'u.fuel': '(import fuellib)\n' + rp[-1]['codes'][1]}), codes=['(import "u.fuel")', '(second (list 1 2))', '(dotimes (i 2) (println i))'])
    return [suite('functions', packed(calls, SETUP)), suite('foreach', packed(fe, SETUP, 12, False)), suite('foreach in sessions', fes), suite('dotimes', dt), suite('setq', packed(sq, QSETUP, 8, False)), suite('setq in sessions', sqs), suite('structs', st), suite('programs with the library', rp)]

TABLE = {'C21': c21}
