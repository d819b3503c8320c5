"""Code as data: quoting (C12), macros (C13), modules (C14)."""
import itertools
from .prog import Gen, layout, plain, pack, program
from .ev import suite

QSET = "(def x 7)(def l (list 1 2 3))(def e (list))(def n nil)(def s \"str\")(def d (make-dict))(defn f (a) (do (println \"f\" a) (list a a)))(def c '(+ x 1))"
LEAVES = ['1', '2.5', '"s"', 'x', 'l', 'zz', 'nil', '#t', '#f', '+', 'f', '()', 'quote', "'x", 'if']
SPLICE = ['l', 'e', "'(p q)", '(list x x)', '(f x)', 'n', '(rest l)', 'c', "'((1) (2))", '(list l l)', '(map f l)', '(list nil)', 'x', '"abc"', 'zz', 'd']
UNQ = ['x', 'l', '(+ x 1)', '(f x)', 's', "'(a b)", 'e', 'n', 'c', 'zz', '(list x "t")', 'd', 'f', '(quasiquote (x (_unquote x)))', '`(x ,x)', '(undefd)', '(println "uq")', '#t', '(if #t x 2)', "'x", '(do)']

def template(r, d, short):
    k = r.random()
    if k < .25 or d == 0:
        return r.choice(LEAVES)
    if k < .42: u = r.choice(UNQ); return (',' + u) if short else ['_unquote', u]
    if k < .52: u = r.choice(SPLICE); return (',@' + u) if short else ['_unquotesplicing', u]
    if k < .56: return ['quote', template(r, d - 1, short)]
    if k < .58: return ['quasiquote', template(r, d - 1, short)]
    if k < .61: return [r.choice(['_unquote', '_unquotesplicing', 'quote', '"_unquote"'])] + [template(r, d - 1, short) for _ in range(r.choice([0, 2, 2, 3]))]
    return [template(r, d - 1, short) for _ in range(r.randint(0, 4))]

def datum(r, d):
    if d == 0 or r.random() < .3: return r.choice(LEAVES[:10] + ['(f 1)'])
    return [datum(r, d - 1) for _ in range(r.randint(0, 4))]

def c12(tier, rng):
    deep = tier == 'thorough'
    quotes = []
    for _ in range(6000 if deep else 500):
        t = plain(datum(rng, rng.randint(0, 4)))
        quotes.append([QSET, "'%s" % t, '(quote %s)' % t, "(list '%s (quote %s))" % (t, t), "(== '%s (quote %s))" % (t, t), "(str '%s)" % t, "(typestr '%s)" % t, "(def q '%s)" % t, 'q', '(println q)',
                       rng.choice(["(first '%s)", "(rest '%s)", "(map typestr '%s)", "(len '%s)", "(reverse '%s)", "(nth 1 '%s)", "(cons 1 '%s)", "(append '%s '%s)", "(eval '%s)", "(evalstr (str '%s))"]).replace('%s', t), "(list ''%s)" % t, "(first ''%s)" % t, "(eval ''%s)" % t, "(eval (eval ''%s))" % t])
    quasi = []
    for _ in range(20000 if deep else 1500):
        short = rng.random() < .4
        ts = [template(rng, rng.randint(1, 4), short) for _ in range(4)]
        quasi.append([QSET] + ['%s%s%s' % (('`', plain(t), '') if short else ('(quasiquote ', plain(t), ')')) for t in ts] + ['(def q (quasiquote %s))(println q)(len l)' % plain(ts[0]), '(list x l e)'])
    depth = []
    for u in UNQ + SPLICE:
        for w in ['%s', '(%s)', '(a %s b)', '((%s))', '(a (b %s) c)', '(((%s) %s))', '(%s . %s)', '(quote %s)', "('%s)"]:
            for op in ['_unquote', '_unquotesplicing']:
                depth.append([QSET, '(quasiquote %s)' % w.replace('%s', '(%s %s)' % (op, u)), '`%s' % w.replace('%s', (',' if op == '_unquote' else ',@') + u), '(list x l)'])
    fresh = [['(def l (list 1 2))(def q (quasiquote (a (_unquotesplicing l) b)))(push 9 l)(push 8 q)(println l q)(setf (nth 1 q) 5)(list l q)'], ['(def l (list 1 2))(def q (quasiquote (a (_unquote l) b)))(push 9 l)(println q)(setf (first (nth 1 q)) 5)(list l q)'],
             ["(defn mk (x) '(a (b) c))(def p (mk 1))(def q (mk 2))(push 9 p)(println p q)(setf (first p) 0)(println p q (mk 3))"], ['(defn mk (x) (quasiquote (a (_unquote x) c)))(def p (mk 1))(def q (mk 2))(push 9 p)(println p q)(setf (first p) 0)(println p q (mk 3))'],
             ["(def i 0)(def r (list))(while (< i 3) (do (def q '(1 2)) (push i q) (push q r) (println q r) (setf i (+ i 1))))(println r)"], ["(defn mk (x) '(a (b) c))(def p (mk 1))(setf (first (nth 1 p)) 7)(println p (mk 2))"], ["(def a '(1 (2)))(def b a)(setf (first b) 9)(list a b)"]]
    evals = []
    codes = ['x', '(+ x 1)', '(f x)', '(def y 5)', '(setf x 8)', '(do (def w 1) (setf w 2) w)', '(if #t x l)', 'zz', '(zz)', '(undefd x)', '()', 'nil', '"t"', '5', '2.5', '(quote x)', "'(f x)", '(lambda (p) (+ p x))', '((lambda (p) p) 3)', '(list x x)', '(defn g (p) (+ p x))', '(println "side")', '(do)', '(return 4)', '(args)', '(quasiquote (x (_unquote x)))', '(eval (quote x))', '(evalstr "x")', '(first 5)', '(l)', '(1 2)', '"(f x)"', '(define-macro-eval mm (p) (+ p p))', '(import "nofile")', "(delvar 'x)", '(gdef x 77)', '(while #f 1)', '(def x 55)']
    for c in codes:
        q = c.replace('\\', '\\\\').replace('"', '\\"')
        for form in ["(eval '%s)" % c, '(eval (quote %s))' % c, '(evalstr "%s")' % q, "(def k '%s)(eval k)" % c, "(eval (list 'do '%s))" % c, '(eval %s)' % c, '(evalstr %s)' % c, "(evalstr (str '%s))" % c, "(list (eval '%s) x)" % c, '(println (evalstr "%s"))' % q, "(eval (eval '%s))" % c, '(evalstr "(eval \'%s)")' % q, '(evalstr "%s\\n%s")' % (q, q), '(eval (quasiquote (list (_unquote %s))))' % c]:
            evals.append([QSET, form, '(list x l)', '(vars)'])
            evals.append([QSET, '(defn h (x p) (do (def w 100) (println "r" %s) (println x p w) x))\n(h 1 2)' % form.replace('%', '%%'), '(list x l)', '(vars)', '(h 3 4)'])
            evals.append([QSET + '(defn mk (x) (lambda (p) (do %s)))(def cl (mk 11))' % form if form.count('(def k') == 0 else QSET + '(defn mk (x) (lambda (p) (do (nop) %s)))(def cl (mk 11))' % form, '(cl 1)', '(cl 2)', '(list x l)'])
    built = []
    ops = ['+', 'list', 'f', 'if', 'quote', 'do', 'and', 'lambda', 'def', 'zz', 'first', 'str', '-', 'println', 'let']
    for o in ops:
        for n in range(4):
            args = [rng.choice(['1', '2', 'x', 'l', "'x", '#t', "'(+ 1 x)", "'l", '"s"', "'(list 1)", 'c', "'(p)", 'nil']) for _ in range(n)]
            built += [[QSET, '(def k (list \'%s %s))' % (o, ' '.join(args)), 'k', '(eval k)', '(eval (list %s %s))' % (o, ' '.join(args)), "(eval (cons '%s (list %s)))" % (o, ' '.join(args)), "(eval (append '(%s) (list %s)))" % (o, ' '.join(args)), '(apply %s (list %s))' % (o, ' '.join(args)), '(evalstr (str k))', '(list x l)']]
    strs = []
    for _ in range(4000 if deep else 250):
        p = program(rng, n=rng.randint(1, 3), d=rng.randint(1, 3), wild=False, errors=rng.choice([0, .05]), effects=.15)
        q = p.replace('\\', '\\\\').replace('"', '\\"')
        strs.append([QSET + '(defn t (n v) (do (println n) (rval v)))', '(evalstr "%s")' % q, "(defn w (a b) (do (evalstr \"%s\")))" % q, '(w 1 2)', '(list x l)'])
        strs.append([QSET + '(defn t (n v) (do (println n) (rval v)))', "(eval '(do %s))" % p, "(defn w (a b) (do (println \"w\") (eval '(do %s))))" % p, '(w 1 2)', '(w 3 4)', '(list x l)'])
    bad = [[QSET, '(evalstr "%s")' % t, '(list x l)', '(defn r (v) (do (evalstr "%s") (println "not reached")))' % t, '(r 1)', '(evalstr "(setf x 1)")', 'x'] for t in ['(', ')', '(+ 1', '(+ 1 2))', '\\"', '\\"abc', '(f \\"', "'", '`', ',x', ',@l', '; comment', '(+ 1 2) ; c', '', ' ', '5', 'x', '(do) (do)', '1 2 3', '(list 1)(list 2)', '(undefd)', '(evalstr \\"(undefd)\\")', '(evalstr \\"(\\")', '(return 5)', '(do (return 5) (println 6))']]
    return [suite('quoted-data', quotes), suite('templates', quasi), suite('unquote-positions', depth), suite('data-is-not-shared-with-code', fresh), suite('eval-forms', evals), suite('constructed-code', built), suite('program-texts', strs), suite('unusual-texts', bad)]

# --------------------------------------------------------------------------- macros
MSET = "(def x 7)(def n 0)(def l (list 1 2 3))(defn tick () (do (setf n (+ n 1)) (println \"tick\" n) (rval n)))(defn f (a) (do (println \"f\" a) (+ a 1)))"
MARGS = ['1', '(tick)', 'x', '(f 2)', '(+ x 1)', '"s"', 'l', "'q", '(list 1 2)', '(undefd)', '(println "arg")', 'zz', 'nil', '(do (tick) (tick))', '(if #t x 0)', '#t', '(lambda (p) (* p 2))', "'(a b)", '()']
class Mac:
    def __init__(self, r, expand): self.r = r; self.kind = 'define-macro-expand' if expand else r.choice(['define-macro-eval', 'define-macro-eval', 'define-macro']); self.names = []
    def body(self, ps, d):
        r = self.r
        leaf = lambda: r.choice(ps * 4 + ['x', '1', 'n', '"b"'] + (['l'] if r.random() < .3 else []))
        if d == 0: return leaf()
        b = lambda: self.body(ps, d - 1)
        k = r.randrange(17)
        if k == 0: return ['do', self.par(b()), self.par(b())]
        if k == 1: return ['if', r.choice([['<', 'x', '3'], ['>', b(), '1'], '#t', '#f']), b(), b()]
        if k == 2: return ['list'] + [b() for _ in range(r.randint(0, 3))]
        if k == 3: return ['println', b()]
        if k == 4: return ['+', b(), b()]
        if k == 5: return ['setf', r.choice(ps + ['x', 'n']), b()]
        if k == 6: return ['quote', b()]
        if k == 7: return ['do', ['def', 'tmp', b()], ['list', 'tmp', leaf()]]
        if k == 8: return ['quasiquote', [b(), ['_unquote', b()]]]
        if k == 9 and [x for x in self.names if x[0] < self.cur]:       # no macro leads back to itself
            n, c = r.choice([x for x in self.names if x[0] < self.cur]); return [n] + [b() for _ in range(c)]
        if k == 10: return ['eval', ['quote', b()]]
        if k == 11: return [leaf(), b()]
        if k == 12: return [['lambda', [r.choice(['p', 'x'] + ps)], b()], b()] if r.random() < .2 else ['apply', ['lambda', [r.choice(['p', 'x'])], self.par(b())], ['list', b()]]
        if k == 13: return ['list', 'quoted-macro-args', leaf()]
        if k == 14: return ['def', r.choice(ps + ['y']), b()]
        if k == 15: return ['do', ['def', 'w', '0'], ['while', ['<', 'w', r.choice(['2', '3'])], ['do', ['setf', 'w', ['+', 'w', '1']], self.par(b())]]]
        return ['str', b()]
    def par(self, b): return b if isinstance(b, list) else ['list', b]
    def define(self):
        r = self.r
        ps = r.sample(['a', 'b', 'x', 'c', 'f'], r.choice([0, 1, 1, 2, 2, 3]))
        name = r.choice(['m', 'k', 'mac', 'm2', 'm3'] + (['f'] if r.random() < .05 else []))
        self.cur = name
        d = [self.kind, name, ps, self.par(self.body(ps or ['x'], r.randint(1, 3)))]
        self.names = [x for x in self.names if x[0] != name] + [(name, len(ps))]
        return d
    def arg(self, d=2):
        r = self.r
        if d and r.random() < .25 and self.names: return self.call(d - 1)
        return r.choice(MARGS)
    def call(self, d=2):
        n, c = self.r.choice(self.names)
        if self.r.random() < .05: c += self.r.choice([-1, 1])
        return [n] + [self.arg(d) for _ in range(max(0, c))]
    def use(self):
        r = self.r; c = self.call()
        k = r.randrange(12)
        if k < 3: return c
        if k == 3: return ['println', c]
        if k == 4: return ['list', c, 'x', c]
        if k == 5: return ['do', ['defn', 'g', ['x', 'a'], ['do', ['println', 'x', 'a'], c]], ['g', '100', '200'], ['g', '(tick)', 'x']]
        if k == 6: return ['if', ['<', 'n', '1'], c, self.call()]
        if k == 7: return ['quote', c]
        if k == 8: return ['eval', ['quote', c]]
        if k == 9: return ['evalstr', '"' + plain(c).replace('\\', '\\\\').replace('"', '\\"') + '"']
        if k == 10: return ['map', ['lambda', ['v'], ['do', ['def', 'x', 'v'], c]], 'l']
        return ['def', r.choice(['y', 'x', 'z']), c]

def c13(tier, rng):
    deep = tier == 'thorough'
    def sess(expand, n):
        m = Mac(rng, expand); out = [MSET]
        out.append('\n'.join(plain(m.define()) for _ in range(rng.randint(1, 3))))
        for _ in range(n):
            k = rng.random()
            if k < .12: out.append(plain(m.define()))
            else: out.append(' '.join(plain(m.use()) for _ in range(rng.randint(1, 2))))
        return out + ['(list x n l)', '(vars)']
    def single(expand):
        m = Mac(rng, expand)
        return [MSET + '\n' + '\n'.join(layout(m.define() if rng.random() < .4 or not m.names else m.use(), rng) for _ in range(rng.randint(3, 7))) + '\n(println x n l)(vars)']
    run = [sess(False, rng.randint(3, 6)) for _ in range(9000 if deep else 550)] + [single(False) for _ in range(5000 if deep else 300)]
    exp = [sess(True, rng.randint(3, 6)) for _ in range(9000 if deep else 550)] + [single(True) for _ in range(5000 if deep else 300)]
    xonly = [dict(codes=sess(True, rng.randint(3, 6)), expand=True) for _ in range(4000 if deep else 400)] + [dict(codes=[program(rng, n=3, d=3)], expand=True) for _ in range(1000 if deep else 150)]
    fixed = []
    for k in ['define-macro-eval', 'define-macro-expand', 'define-macro']:
        for d, uses in [('(%s sw (a b) (do (def tmp a) (setf a b) (setf b tmp)))', ['(def p 1)(def q 2)(sw p q)(println p q)', '(defn g (p q) (do (sw p q) (list p q)))(println (g 5 6))', '(def tmp 1)(def q 2)(sw tmp q)(println tmp q)']),
                        ('(%s un (c b) (if c (do) b))', ['(un #f (tick))', '(un #t (tick))', '(println (un (< x 3) (tick)) n)', '(un #f (un #f (tick)))']),
                        ('(%s tw (a) (list a a))', ['(tw (tick))', '(tw (tw (tick)))', "(tw 'a)", '(tw "a")', '(tw a)', "(quote (tw 1))", "(list 'tw 1)", '(eval (list \'tw 1))', '(defn g (a) (tw a))(g 5)', '(map (lambda (a) (tw (tick))) l)', '((lambda (v) (tw v)) 3)', '(apply (lambda (v) (tw v)) (list 3))']),
                        ('(%s my-if (c a b) (if c a b))', ['(my-if #t (tick) (undefd))', '(my-if #f (undefd) (tick))', '(my-if #t (my-if #f 1 (tick)) (tick))', '(my-if)', '(my-if #t)', '(my-if #t 1 2 3)']),
                        ('(%s nop0 () (tick))', ['(nop0)', '(nop0 1 2)', '(list (nop0) (nop0))', 'nop0']),
                        ('(%s qa (a) (list quoted-macro-args a))', ['(qa 1)', '(qa (+ 1 2))', '(qa (+ 1 2) (tick) x)', "(qa 'a)"]),
                        ('(%s lp (v lim body) (do (def v 0) (while (< v lim) (do body (setf v (+ v 1))))))', ['(lp i 3 (println i))', '(lp i 2 (lp j 2 (println i j)))', '(defn g () (lp i 2 (println "g" i)))(g)(println i)']),
                        ('(%s df (name ps body) (defn name ps body))', ['(df sq (a) (* a a))(println (sq 5))', '(df name (ps) (list ps))(println (name 5))', '(defn o () (do (df loc (a) (+ a 1)) (loc 1)))(println (o))(loc 2)']),
                        ('(%s rec (a) (if (< a 1) 0 (rec (- a 1))))', ['1'] if k == 'define-macro-expand' else ['(rec 0)', '1']),
                        ('(%s a (a) (list a))', ['(a 1)', '(a (a 1))', '(a x)']), ('(%s + (a b) (list a b))', ['(+ 1 2)', '(list (+ x 1))']), ('(%s if (a b) (list a b))', ['(if 1 2)', '(println 5)']),
                        ('(%s sy (a) a)', ['(sy x)', '(sy (tick))', '(sy sy)']), ('(%s em (a) ())', ['(em 1)', '(list (em 1))', '(println (em (tick)))']), ('(%s st ("a" 5 b) (list "a" 5 b))', ['(st 1 2 3)']), ('(%s (w) (a) (list a))', ['(w 1)', '((w) 1)']),
                        ('(%s inl (a) (do a))', ['(inl (def zz 5))(println zz)', '(defn g () (do (inl (def qq 5)) (println qq)))(g)(println qq)', '(inl (return 5))', '(defn g () (do (inl (return 5)) (println "no")))(g)', '(inl tick)', '(inl (undefd))']),
                        ('(%s m)', ['(m)']), ('(%s m (a))', ['(m 1)']), ('(%s m (a) (list a) 3)', ['(m 1)']), ('(%s m a (list a))', ['(m 1)']), ('(%s m (a) a 1)', []), ('(%s)', [])]:
            d = d.replace('%s', k)
            fixed.append([MSET, d] + uses + ['(list x n l)'])
            fixed.append([MSET + d + ''.join(uses) + '(println x n l)'])
            fixed.append([MSET, '(defn def-it () (do %s (println "defined")))' % d, '(def-it)'] + uses[:3] + ['(list x n l)'])
            fixed.append(dict(codes=[MSET, '(import "m.fuel")'] + uses + ['(list x n l)'], files={'m.fuel': d + '\n(defn inmod (a) (do (println "in module" a) (list %s)))' % (uses[0] if uses and uses[0].count('(def') == 0 else '1')}))
            fixed.append(dict(codes=[MSET, '(import "m.fuel")', '(inmod 4)', '(list x n l)'], files={'m.fuel': d + '\n' + '\n'.join(uses)}))
            fixed.append([MSET, '(evalstr "%s")' % d.replace('"', '\\"')] + uses[:3])
            fixed.append(dict(codes=[MSET + d] + uses, expand=True))
    redefine = []
    for k in ['define-macro-eval', 'define-macro-expand']:
        redefine += [[MSET, '(%s m (a) (list 1 a))' % k, '(m x)', '(defn g (v) (m v))', '(g 4)', '(%s m (a b) (list 2 a b))' % k, '(m x 5)', '(g 4)', '(m x)', '(def m 5)', '(m 1 2)', 'm', '(defn m (a) (list "fun" a))', '(m 1 2)', "(delvar 'm)", '(m 1 2)'],
                     [MSET, '(defn m (a) (list "fun" a))', '(m 1)', '(%s m (a) (list "mac" a))' % k, '(m (tick))', '(defn g (m) (m 5))', '(g f)', '(map m l)', '(apply m (list 1))', '(def o m)', '(o 5)'],
                     [MSET, '(%s in (a) (+ a 1))' % k, '(%s out (a) (list (in a) (in (in a))))' % k, '(out x)', '(out (tick))', '(%s in (a) (* a 100))' % k, '(out x)', '(in (out x))'],
                     [MSET, '(println "before")(undefd)(%s m (a) (list 1 a))' % k, '(m 5)', '(%s m2 (a) (list 1 a))(undefd)' % k, '(m2 5)', '(m2 (undefd))', '(m2 (tick))']]
    plaincode = [program(rng, n=rng.randint(1, 4), d=rng.randint(1, 3), errors=.01) for _ in range(2000 if deep else 200)]
    pc = [[MSET + '(define-macro-expand unused (a b) (list a b))(define-macro-eval unused2 (a b) (list b a))', p] for p in plaincode]
    return [suite('run-time-macros', run), suite('compile-time-macros', exp), suite('expansion-only', xonly), suite('fixed-definitions', fixed), suite('redefinitions', redefine), suite('code-without-macro-calls', pc)]

# -------------------------------------------------------------------------- modules
def c14(tier, rng):
    deep = tier == 'thorough'
    m1 = '(def a 1)\n(def shared "m1")\n(defn geta () a)\n(defn seta (v) (setf a v))\n(defn who () (list shared a))\n(gdef glob "from m1")\n(defn fail (x)\n  (undefd x))\n(println "loading m1")'
    m2 = '(def b 2)\n(def shared "m2")\n(defn getb () (list b shared))\n(defn usea () (geta))\n(defn who () (list "m2" shared b))\n(println "loading m2")\n(+ 1 2)'
    files = {'m1.fuel': m1, 'm2.fuel': m2, 'rec.fuel': '(import "m1.fuel")\n(def r (geta))\n(defn getr () (list r a))', 'bad.fuel': '(def before 1)\n(println "bad")\n(undefd 5)\n(def after 2)', 'syn.fuel': '(def q 1)\n(def', 'empty.fuel': '', 'cmt.fuel': '; only a comment\n', 'val.fuel': '42', 'mac.fuel': '(define-macro-eval dbl (x) (list x x))\n(define-macro-expand trp (x) (list x x x))\n(defn usemac (v) (list (dbl v) (trp v)))',
             'Library/lib1.fuel': '(def where "Library")\n(defn lw () (list where))', 'lib/fuel/lib2.fuel': '(def where2 "lib/fuel")\n(defn lw2 () (list where2))', 'lib/fuel/lib1.fuel': '(def where "shadowed")', 'dir/sub.fuel': '(def insub 1)(defn getsub () (list insub a))', 'noext': '(def ne 5)', 'x.txt': '(def xt 6)', 'own.fuel': '(def list2 (lambda (x) (list "own" x)))\n(def x 5)\n(defn bump () (do (setf x (+ x 1)) (rval x)))',
             'ret.fuel': '(def r1 1)(return 5)(def r2 2)', 'arg.fuel': '(println (args))', 'self.fuel': '(println "self")(def s1 1)', 'doc.fuel': ';; adds two\n(defn add2 (x)\n  (+ x 2))', 'glob.fuel': '(gdef gx 5)(gdefn gf (y) (list gx y))(def gx 6)'}
    cmds = ['(import "m1.fuel")', '(import "m2.fuel")', '(import "m1")', '(import "./m1.fuel")', '(import "rec.fuel")', '(import "bad.fuel")', '(import "syn.fuel")', '(import "empty.fuel")', '(import "cmt.fuel")', '(import "val.fuel")', '(import "mac.fuel")', '(import "missing.fuel")', '(import "missing")', '(import "m1.fuel" "m2.fuel")', '(import "m1.fuel" "missing" "m2.fuel")', '(import "m1.fuel" "bad.fuel" "m2.fuel")',
            '(import "lib1")', '(import "lib1.fuel")', '(import "lib2")', '(import "dir/sub.fuel")', '(import "dir/sub")', '(import "noext")', '(import "x.txt")', '(import "own.fuel")', '(import "ret.fuel")', '(import "arg.fuel")', '(import "self.fuel")', '(import "doc.fuel")', '(import "glob.fuel")', '(import)', '(import 5)', '(import nil)', '(import (list 1))', "(import 'm1)", '(import "")', '(import (+ "m" 1 ".fuel"))', '(import "dir\\\\sub.fuel")', '(println (import "m2.fuel"))', '(def r (import "val.fuel"))', '(do (import "m1.fuel") (geta))', '(if #t (import "m2.fuel") 1)',
            '(defn ld (f) (do (def loc 5) (import f) (println "loaded" loc)))(ld "m1.fuel")', '(evalstr "(import \\"m1.fuel\\")")']
    uses = ['a', '(geta)', '(seta 50)', '(who)', 'shared', 'glob', '(fail 3)', 'b', '(getb)', '(usea)', 'r', '(getr)', 'before', 'after', '(dbl (geta))', '(trp (geta))', '(usemac 4)', 'where', '(lw)', 'where2', '(lw2)', 'insub', '(getsub)', 'x', '(bump)', '(list2 3)', 'gx', '(gf 1)', '(add2 3)', '(def a 99)', '(setf a 77)', '(def shared "main")', '(setf shared "set")', '(defn geta () "mine")', '(defn who () (list "my who" a shared))', "(delvar 'a)", "(delvar 'geta)", '(gdef a "global")', '(defn call (a shared) (who))(call 1 2)', '(defn call2 () (do (def a "local") (list (geta) a)))(call2)', '(map add2 (list 1 2))',
            '(vars)', '(list a (geta))', '(def f2 geta)(f2)', '(defn g (x) (do (println "g") (fail x)))(g 1)', '(println (fail 1))', '(searchdoc "add2")', '(doc "geta")', '(typestr geta)', '(str who)', '(setf x 100)', '(def b (geta))', '(defn fail (x) (list "own fail" x))', "(eval '(geta))", '(evalstr "(geta)")', 'r1', 'r2', '(need-l-value)', '(args)']
    hist = []
    for _ in range(14000 if deep else 1500):
        ks = [rng.choice(cmds[:6] * 3 + cmds)] + [rng.choice(cmds + uses * 3) if rng.random() < .35 else rng.choice(uses) for _ in range(rng.randint(4, 12))]
        if rng.random() < .3: ks.insert(0, rng.choice(uses))
        if rng.random() < .25: ks = ['\n'.join(ks)]
        hist.append(dict(codes=ks, files=files, module=rng.choice(['main', 'main', 'script.fuel', '']), lib=rng.choice(['', '', '.', 'dir', './Library']), fuelpath=rng.choice(['', '', '', '.', 'dir', './env/path'])))
    places = []
    for n in range(6):
        for _ in range(40 if deep else 6):
            where = [w for w in ['mo.fuel', 'lp/mo.fuel', 'Library/mo.fuel', 'lib/fuel/mo.fuel', 'ep/mo.fuel', 'mo', 'mo.fuel.fuel', 'lp/mo', 'Library/mo'] if rng.random() < [.1, .2, .3, .5, .7, .9][n]]
            places.append(dict(codes=['(import "mo.fuel")', 'place', '(import "mo")', 'place', '(import "./mo.fuel")', 'place', '(import "lp/mo")', 'place', '(import "sub/../mo.fuel")', '(where)', '(vars)'], files={w: '(def place "%s")(defn where () place)' % w for w in where}, lib=rng.choice(['', 'lp', './lp', 'nolib', '.']), fuelpath=rng.choice(['', 'ep', './ep', 'noep'])))
    single = [dict(codes=[c] + uses[:8] + ['(vars)', c, '(vars)', '(geta)', '(bump)', c, '(bump)'], files=files) for c in cmds]
    def clash(n, how):
        d = {'def': '(def %s "%%s")' % n, 'gdef': '(gdef %s "%%s")' % n, 'defn': '(defn %s (z) (list "%%s" z))' % n}[how]
        return d
    clashes = []
    for h1, h2, hm in itertools.product(['def', 'gdef', 'defn'], ['', 'def', 'defn'], ['', 'def', 'gdef', 'defn']):
        for order in ['1m2', 'm12', '12m', '21m']:
            parts = {'1': '(import "p.fuel")', '2': '(import "q.fuel")', 'm': clash('nm', hm) % 'main' if hm else '(nop)'}
            f = {'p.fuel': clash('nm', h1) % 'p' + '\n(defn pn () (list nm))\n(defn pset () (setf nm "pset"))', 'q.fuel': (clash('nm', h2) % 'q' if h2 else '(nop)') + '\n(defn qn () (list nm))\n(defn qset () (setf nm "qset"))'}
            clashes.append(dict(codes=[parts[o] for o in order] + ['nm', '(nm 1)', '(list (pn) (qn))', '(pset)', '(list nm (pn) (qn))', '(qset)', '(list nm (pn) (qn))', '(setf nm "mset")', '(list nm (pn) (qn))', '(defn lo (nm) (list nm (pn) (qn)))', '(lo 4)', "(delvar 'nm)", 'nm', '(vars)'], files=f))
    errs = []
    for body in ['(undefd 1)', '(+ 1\n  (undefd 2))', '(defn k (x)\n  (do\n (println x)\n (nth 9 (list x))))\n(k 3)', '(def z (/ 1 0))', '(first (list))', '(setf nope 1)', '(', '"', ')', '(import "inner.fuel")', '(evalstr "(undefd)")', "(eval '(undefd))", '(map (lambda (q) (undefd q)) (list 1))', '(return 1)\n(undefd)', '(if 5 1 2)', '(format "{0}")', '(dict-get 5 1)', '(kk 1)', '(kk)', '(println (kk 2))']:
        for pre in ['', '\n\n; comment\n(def ok 1)\n']:
            fl = {'m.fuel': pre + body + '\n(def after 1)', 'inner.fuel': '(def in 1)\n\n(undefd "inner")', 'fn.fuel': '(defn kk (v)\n  (do (println "kk" v)\n %s))' % (body if body.startswith('(') and body.count('(') == body.count(')') and '(kk' not in body else '(undefd)')}
            errs += [dict(codes=['(def start 1)\n(import "m.fuel")\n(println "not reached")', '(println ok)', 'after', 'start', '(import "m.fuel")'], files=fl), dict(codes=['(import "fn.fuel")', '(kk 1)', '(defn w (x)\n (do\n (kk x)))', '\n(w 2)', '(map kk (list 1 2))', '(import "m.fuel")'], files=fl),
                     dict(codes=['(import "fn.fuel")\n(import "m.fuel")', '(import "fn.fuel")\n(defn w (x)\n  (kk x))\n(w 1)', '(kk 1)'], files=fl, report='report', fresh=True)]
    rewrite = []
    for _ in range(1500 if deep else 150):
        ks = ['(import "w.fuel")']
        for _ in range(rng.randint(2, 7)):
            ks.append(rng.choice(['(File-WriteAllText "w.fuel" "(def wv %d)(defn wf () (list wv %d))")' % (rng.randint(1, 9), rng.randint(1, 9)), '(import "w.fuel")', '(import "w")', 'wv', '(wf)', '(setf wv 100)', '(def wv "mine")', '(def old wf)', '(old)', "(delvar 'wv)", '(vars)', '(import "./w.fuel")', '(File-WriteAllText "v.fuel" "(import \\"w.fuel\\")(def vv wv)(defn vf () (wf))")', '(import "v.fuel")', '(list vv (vf))']))
        rewrite.append(dict(codes=ks, files={'w.fuel': '(def wv 0)(defn wf () (list wv "first"))'}))
    rnd = []
    for _ in range(3000 if deep else 300):
        g = Gen(rng, errors=rng.choice([0, .03]), effects=.1)
        g2 = Gen(rng, errors=.02, effects=.1)
        mod = '\n'.join(plain(x) for x in g.program(rng.randint(2, 5), 2))
        g2.fns = list(g.fns); g2.vars = {k: list(v) for k, v in g.vars.items()}
        mod2 = '\n'.join(plain(x) for x in g2.program(rng.randint(1, 4), 2)[1 if g2.effects else 0:])
        main = '\n'.join(plain(x) for x in g2.program(rng.randint(2, 5), 2)[1 if g2.effects else 0:])
        rnd.append(dict(codes=['(import "one.fuel")\n(import "two.fuel")\n' + main, '(vars)', '(import "one.fuel")', main], files={'one.fuel': mod, 'two.fuel': mod2}))
    return [suite('import-histories', hist), suite('every-import-form', single), suite('search-locations', places), suite('name-clashes', clashes), suite('errors-in-modules', errs), suite('rewritten-modules', rewrite), suite('random-modules', rnd)]

TABLE = dict(C12=c12, C13=c13, C14=c14)
