"""Failures (C15), input/output/files (C16), sessions (C19), independence (C22), introspection (C24)."""
import itertools
from . import builtins, code
from .prog import Gen, layout, plain, pack, program, session
from .ev import suite

# --------------------------------------------------------------------------- failures
ERRS = ['undefd', '(undefd 1)', '(undefd)', "(nth 9 (list 1))", "(nth -1 (list 1))", '(/ 1 0)', '(% 5 0)', '(+ 1 nil)', '(+ 1 (list))', "(- 'a 1)", '(first 5)', '(first (list))', '(last (list))', '(last "")', '(if 3 4 5)', '(if)', '(if #t)', '(if nil 1 2)', '(while 1 (do))', '(setf nowhere 1)', '(setf)',
        '(setf (nth 7 (list 1)) 2)', '(setf 5 6)', '(len 3 4)', '(len 5)', '(1 2)', '("f" 1)', '((list 1) 2)', '(nil 1)', '(#t)', '(str)', "(< 'a 'b)", '(< 1 "a")', '(< nil 1)', '(and 1 #t)', '(or 5)', '(not 3)', '(do 1)', '(do (list 1) x)', '(int)', '(slice "abc" 9 1)', '(slice "abc" nil 1)', '(format "{0}")', '(format "{0,x}" 1)', '(format "{" 1)',
        '(dict-get 5 1)', '(dict-set (make-dict) (list) 1)', '(dict-remove)', '(push 1 2)', '(pop 5)', '(map 5 (list 1))', '(map f 5)', '(reduce f (list 1 2))', '(reduce 1 (list 1) 0)', '(apply f 5)', '(apply 5 (list))', '(eval (quote (undefd)))', '(evalstr "(undefd 1)")', '(evalstr "(")', '(evalstr ")")', '(evalstr "\\"")', '(evalstr "\'")', '(evalstr 5)',
        '(arg 9)', '(arg)', '(args 1)', '(lambda)', '(lambda (x))', '(lambda x y)', '(defn)', '(defn f)', '(defn q (x))', '(defn 5 (x) x)', '(def)', '(def x)', '(def 5 6)', '(def ###x 1)', '(def "###y" 2)', '(gdef)', "(delvar '###z)", '(quote)', '(quasiquote)', '(quasiquote (a (_unquotesplicing 5)))', '(quasiquote (a (_unquote undefd)))', '(import)', '(import 5)', '(import "nofile")',
        '(import "bad.fuel")', '(import "syn.fuel")', '(define-macro-eval)', '(define-macro-eval m a b)', '(define-macro-eval m (a))', '(mac)', '(mac (undefd))', '(reverse 5)', '(rest 5)', '(rest "")', '(append 1 2)', '(append (list) 5)', '(<< 1.5 2)', '(~ "a")', '(& nil 1)', '(parse-integer)', '(search 1)', '(search "a" 5)', '(replace "a")', '(trim)', '(Math-Sin "x")', '(Math-Abs)', '(Math-Pow 1)', '(sleep "x")', '(return)', '(return 1 2)', '(File-ReadAllText)',
        '(File-WriteAllText "a")', '(trace 5)', '(trace)', '(rval)', '(make-dict 1)', '(typestr)', '(type)', '(map)', '(nth 1)', "(nth 'a (list 1))", '(argscount 1)', '(- nil)', '(* "a" 2)', '(> (list) 1)', '(gettrace 1 2)', '(sym)', '(readline 1)', '(need-l-value 1)', '(mod 1 0)', '(float)', '(first)', '(cons)', '(eval)']
SITES = ['%s', '(do %s)', '(println "a" %s "b")', '(list 1 %s (println "later"))', '(if #t %s 1)' , '(if %s 1 2)', '(do (println "x") %s (println "y"))', '(f %s)', '(f (f (f %s)))', '((lambda (q) %s) 1)', '(map (lambda (q) (do (println q) %s)) (list 1 2))', '(reduce (lambda (q w) %s) (list 1 2) 0)', '(apply (lambda () %s) (list))', "(eval '%s)", "(eval '(do (println 1) %s))", '(def v %s)', '(setf x %s)',
         '(setf (first l) %s)', '(setf (nth 0 (do %s)) 1)', '(let1 %s)', '(mac %s)', '(and #t %s)', '(or #f %s)', '(while (do %s) (println "no"))', '(do (def i 0) (while (< i 2) (do (setf i (+ i 1)) %s)))', '(+ 1 %s)', '(quasiquote (a (_unquote %s) (_unquotesplicing %s)))', '(do (defn k (p) (do (println "k" p) %s (println "not")))\n (k 5))', '(do (defn k (p)\n  (do (def loc p)\n   %s))\n (defn k2 (p)\n   (list (k p)))\n (k2 5))',
         '(do (defn k (p) %s)(map k (list 1 2)))', '(do (defn r (n) (if (< n 1) %s (r (- n 1))))\n (r 3))', '(rval %s)', '(return %s)', '(do (defn k (p) (do (return %s) (println "no"))) (k 1))', '(imp 3)', '(format "{0}" %s)', '(dict-set d %s 1)', '(push %s l)', '((do %s) 1)', '(do (def g (lambda (a) (lambda (b) %s)))\n  (apply (g 1) (list 2)))']
FSETUP = '(def x 5)(def l (list 1 2))(def d (make-dict))(defn f (a) (do (println "f" a) (list a)))(define-macro-eval mac (a) (list a))(define-macro-eval let1 (a) (do (def t a) (println t)))'
FFILES = {'bad.fuel': '(def inbad 1)\n(defn b (x)\n  (undefd x))\n(b 3)', 'syn.fuel': '(def a (', 'imp.fuel': '(defn imp (x)\n (do (println "imp" x)\n   (undefd x)))'}
AFTER = ['(println x l d)', '(f 1)', '(vars)', '(need-l-value)']
def fails(e, s, report='', pre='', module='main'):
    p = s.replace('%s', e)
    imp = '(import "imp.fuel")' if '(imp ' in s else ''
    if report: return dict(codes=[FSETUP + imp + pre + '\n(println "start")\n' + p + '\n(println "not reached" x)'], files=FFILES, report=report, fresh=True, module=module)
    return dict(codes=[FSETUP + imp, pre + '(println "start")\n' + p + '\n(println "after" x)'] + AFTER, files=FFILES, module=module)

SOUP = ['(', ')', '(', ')', '(', ')', "'", '`', ',', ',@', '"', '\\', ';', '\n', ' ', ' ', 'x', 'def', 'defn', 'lambda', 'if', 'do', '1', '2.5', '-', '"a"', '#t', 'nil', '+', 'println', '\t', '.', '#', '\\n', '|', 'list', 'quote', 'evalstr', '"("', '{', '}', '-7', '1e5', '99999999999', '\r', '[', '\x01', '\x7f', '\xe4', '()']
def mutate(r, p):
    p = list(p)
    for _ in range(r.randint(1, 4)):
        k = r.randrange(6); i = r.randrange(len(p)) if p else 0
        if k == 0 and p: del p[i]
        elif k == 1: p.insert(i, r.choice(SOUP))
        elif k == 2 and p: p[i] = r.choice(SOUP)
        elif k == 3 and p: j = r.randrange(len(p)); p[i], p[j] = p[j], p[i]
        elif k == 4: p = p[:i]
        elif k == 5: j = min(len(p), i + r.randint(1, 12)); p[i:i] = p[i:j]
    return ''.join(p)

NOARG = {'sleep', 'while', 'define-macro-expand', 'date-time', 'platform', 'tickcount', 'htmldoc'}
ARGV = ['0', '1', '-1', '2.5', '"ab"', '""', 'nil', '#f', "'a", 'x', 'l', '(list)', 'd', 'f', '(lambda (p) p)', '(do)', "'(a 1)", 'zz', '+', '(println 1)', '(f 2)', "''a", '()', '"{0}"']
def c15(tier, rng):
    deep = tier == 'thorough'
    every = [fails(e, s) for e in ERRS for s in (SITES if deep else rng.sample(SITES, 7))]
    every += [fails(rng.choice(ERRS), s) for s in SITES for _ in range(2)]
    rep = [fails(e, s, rng.choice(['report', 'report', 'verbose']), rng.choice(['', '\n\n', '; c\n']), rng.choice(['main', 'a.fuel', ''])) for e in ERRS for s in rng.sample(SITES, 12 if deep else 3)]
    chains = []
    for _ in range(6000 if deep else 500):
        n = rng.randint(1, 6); ps = []
        for k in range(n, 0, -1):
            inner = rng.choice(ERRS) if k == n else rng.choice(['(c%d (+ p 1))', '(list 1 (c%d p) (println "no"))', '(map c%d (list p p))', '(do (println p)\n   (c%d p))', '(if (> p -99)\n  (c%d p)\n  0)', "(eval '(c%d p))", '(evalstr "(c%d p)")', '(apply c%d (list p))', '(reduce (lambda (a b) (c%d a)) (list p) 0)', '((lambda (z) (c%d z)) p)', '(mac (c%d p))', '(apply (lambda (q)\n  (c%d q)) (list p))']) % (k + 1)
            ps.append(rng.choice(['(defn c%d (p) %s)', '(defn c%d (p)\n (do\n  (def loc p)\n  %s))', '(def c%d (lambda (p) %s))', '(gdefn c%d (p)\n\n %s)']) % (k, inner if inner.startswith('(') else '(rval %s)' % inner))
        body = FSETUP + '\n' + rng.choice(['\n', ' ', '\n\n']).join(ps) + '\n(println "start")\n(c1 1)\n(println "end")'
        if rng.random() < .3: chains.append(dict(codes=['(import "m.fuel")', '(c1 2)', '(vars)'], files=dict(FFILES, **{'m.fuel': body})))
        elif rng.random() < .5: chains.append(dict(codes=[body], files=FFILES, report=rng.choice(['report', 'verbose']), fresh=True, module='ch.fuel'))
        else: chains.append(dict(codes=[body, '(c1 5)', '(c1)', '(println x l)'], files=FFILES))
    soup = []
    for _ in range(20000 if deep else 1500):
        soup.append(dict(codes=[''.join(rng.choice(SOUP) + rng.choice(['', '', ' ']) for _ in range(rng.randint(1, 25))) for _ in range(3)] + ['(println "alive")'], limit=3))
    mut = []
    for _ in range(20000 if deep else 1500):
        p = program(rng, n=rng.randint(1, 4), d=rng.randint(1, 2), loops=False, errors=.02)
        mut.append(dict(codes=[mutate(rng, p), '(println "alive")'], limit=3, report=rng.choice(['', '', '', 'report', 'verbose'])))
    names = [n for n in builtins.NAMES if n not in NOARG] + ['f', 'mac', 'zz']
    calls = []
    for n in names:
        calls += ['(%s)' % n, n, "(typestr %s)" % n] + ['(%s %s)' % (n, a) for a in ARGV]
        if deep: two = list(itertools.product(ARGV, repeat=2))
        else: two = [(rng.choice(ARGV), rng.choice(ARGV)) for _ in range(22)]
        calls += ['(%s %s)' % (n, ' '.join(t)) for t in two]
        calls += ['(%s %s)' % (n, ' '.join(rng.choice(ARGV) for _ in range(rng.randint(3, 7)))) for _ in range(400 if deep else 18)]
    calls += ['(while %s %s)' % (a, b) for a in ARGV for b in ['1', '(println 1)', '(undefd)'] ] + ['(while)', '(while #f)', '(while #f 1 2)', '(sleep)', '(sleep 0)', '(sleep 1 2)', '(sleep nil)', '(sleep "1")', '(sleep 0.5)', '(sleep (list))']
    args = [dict(codes=[FSETUP + '(defn zz (a) (a))', *ks], indep=True, limit=4) for ks in pack(calls)]
    rand = [session(rng, inputs=rng.randint(1, 4), n=rng.randint(1, 4), d=rng.randint(1, 3), errors=rng.choice([.08, .15, .3]), dirty=rng.choice([.03, .15])) for _ in range(8000 if deep else 500)]
    rrep = [dict(codes=[program(rng, n=rng.randint(1, 5), d=rng.randint(1, 3), wild=True, errors=.1)], report='report', fresh=True) for _ in range(6000 if deep else 300)]
    return [suite('every-failure-in-every-place', every), suite('reported-failures', rep), suite('call-chains', chains), suite('arbitrary-text', soup), suite('damaged-programs', mut), suite('every-built-in-with-any-arguments', args), suite('random-failing-sessions', rand), suite('random-reports', rrep)]

# ---------------------------------------------------------------- output, input, files
PV = ['1', '-7', '2.5', '"s"', '""', '"two words"', '"q\\"q"', '"l\\nm"', 'nil', '#t', '#f', "'sym", '(list)', '(list 1 "a" nil)', "'(a (b \"c\"))", '(make-dict)', 'f', '+', '(do)', '(list (list 1) "x y")', '"\\t"', '"\\\\"', '(lambda (x) (+ x 1))', '"{0}"', 'd']
def c16(tier, rng):
    deep = tier == 'thorough'
    S = '(def x 5)(defn f (a) a)(def d (make-dict))(dict-set d "k" (list 1 "v"))(dict-set d 2 nil)'
    forms = ['(%s%s)' % (p, ''.join(' ' + v for v in t)) for p in ['print', 'println'] for t in [()] + [(v,) for v in PV] + [tuple(rng.choice(PV) for _ in range(rng.randint(2, 5))) for _ in range(700 if deep else 90)]]
    forms += ['(%s (format %s %s))' % (p, rng.choice(['"{0}|{1}"', '"{0,6}|{1,-6}|"', '"{1} {0} {1}"', '"{{{0}}}"', '"a{0}b{1}c"']), ' '.join(rng.choice(PV) for _ in range(rng.randint(1, 3)))) for p in ['print', 'println'] for _ in range(300 if deep else 50)]
    forms += ['(list (print 1) (println 2) (print "x" (print "y")))', '(println (println 1) (print 2))', '(do (print "a") (print "b") (println))', '(map println (list 1 "a" nil))', '(reduce print (list 1 2) 0)', '(apply println (list 1 2 3))', '(def r (println "q"))(len r)', '(flush)', '(do (print "x") (flush) (println "y"))']
    pr = [dict(codes=[S] + k, indep=True) for k in pack(forms)]
    lines = []
    for _ in range(2500 if deep else 250):
        inp = ''.join(rng.choice(['a', 'hello world', '', '12', '  x ', '(+ 1 2)', '"q"', '\xe4', 'tab\there']) + '\n' for _ in range(rng.randint(0, 5)))
        if inp and rng.random() < .4: inp = inp[:-1]
        ks = [rng.choice(['(readline)', '(println (readline))', '(list (readline) (readline))', '(def q (readline))', '(int (readline))', '(evalstr (readline))', '(len (readline))', '(defn rd (n) (if (< n 1) (list) (cons (readline) (rd (- n 1)))))(rd 2)', '(map (lambda (z) (readline)) (list 1 2))', '(if (== (readline) "") 1 2)', '(do (readline) (undefd))', '(+ (readline) "|" (readline))']) for _ in range(rng.randint(1, 5))]
        if rng.random() < .5: ks = ['\n'.join(ks)]
        lines.append(dict(codes=ks, input=inp))
    rec = []
    tr = ['(trace #t)', '(trace #f)', '(println "p" x)', '(print "q")', '(gettrace)', '(println (gettrace))', '(def r (gettrace))', '(defn g (a) (do (println "in g" a) (gettrace)))', '(g 1)', '(defn h (a) (do (trace #t) (println "in h" a) (g a) (gettrace)))', '(h 2)', '(println "x\\ny")', '(def k (h 3))', '(apply (lambda (z) (do (println z) (trace #f) (print "z") (trace #t) (println "w") (gettrace))) (list 4))', "(eval '(println \"ev\"))", '(evalstr "(println \\"es\\")")', '(len (gettrace))', '(import "p.fuel")', '(inp 1)', '(trace 5)', '(undefd)', '(println)', '(map println (list 1 2))', '(if #t (do (println "b")) 1)', '(vars)', '(trace (not #f))', '(list (trace #t) (trace #f))']
    for _ in range(6000 if deep else 600):
        ks = [rng.choice(tr[:6] * 2 + tr) for _ in range(rng.randint(3, 14))]
        if rng.random() < .5: ks = ['\n'.join(ks), '(gettrace)']
        rec.append(dict(codes=['(def x 5)'] + ks, files={'p.fuel': '(trace #t)(println "module")(def mt (gettrace))(defn inp (a) (do (println "inp" a) (list mt (gettrace))))'}))
    calls = [dict(codes=session(rng, inputs=rng.randint(1, 3), n=rng.randint(1, 4), d=rng.randint(1, 3), errors=rng.choice([0, .04]), wild=True), tracing=True) for _ in range(5000 if deep else 350)]
    calls += [dict(codes=[c], tracing=True, files=FFILES) for c in ['(defn f (x) (if (< x 1) 0 (f (- x 1))))(f 3)', '(map (lambda (x) (+ x 1)) (list 1 2))', '(define-macro-eval m (a) (list a (+ a 1)))(m 5)', '(define-macro-expand m (a) (list a (+ a 1)))(m 5)', "(eval '(+ 1 2))", '(evalstr "(+ 1 (- 2 1))")', '(import "imp.fuel")(imp 1)', '(quasiquote (a (_unquote (+ 1 2))))', '(and (not #f) (or #f #t))', "(apply + (list 1 2))", '(while #f 1)', '(def x (list 1))(setf (first x) (+ 1 1))', '(list)', '(undefd (+ 1 2))', '((lambda (x) x) 1)', '(println (readline))', "((quote +) 1 2)", '("a" 1)']]
    FN = ['a.txt', 'b.txt', 'c', 'sub/x.txt', './a.txt', 'none.txt', '"quoted', 'sp ace.txt', '.hidden', 'sub/new.txt', 'nodir/x', './sub/./x.txt', 'a.txt/x']
    TX = ['"text"', '""', '"two\\nlines\\n"', '5', 'x', '(list 1 "a")', 'nil', '"q\\"q\\\\"', '(File-ReadAllText "a.txt")', '(+ (File-ReadAllText "b.txt") "more\\n")', '#t', '"\xe4\xf6"', '(str (list 1 2))', '"(println 42)"']
    files = []
    for _ in range(6000 if deep else 600):
        ks = []
        for _ in range(rng.randint(2, 10)):
            f = '"%s"' % rng.choice(FN).replace('"', '\\"')
            ks.append(rng.choice(['(File-WriteAllText %s %s)' % (f, rng.choice(TX)), '(File-WriteAllText %s %s)' % (f, rng.choice(TX)), '(File-ReadAllText %s)' % f, '(println (File-ReadAllText %s))' % f, '(File-Exists %s)' % f, '(len (File-ReadAllText %s))' % f, '(evalstr (File-ReadAllText %s))' % f, '(list (File-Exists %s) (File-Exists "b.txt"))' % f, '(import "c")', '(File-Exists (str 5))', '(File-WriteAllText 5 6)', "(File-ReadAllText 'c)"]))
        if rng.random() < .4: ks = ['\n'.join(ks)]
        files.append(dict(codes=['(def x 5)'] + ks, files={k: v for k, v in {'b.txt': 'given\ncontent', 'sub/x.txt': 'deep', 'e.txt': '', 'c': '(def inc 1)(println "c run")'}.items() if rng.random() < .7}))
    rand = [dict(codes=session(rng, inputs=2, n=3, d=2, effects=.4), input='1\n2\n') for _ in range(3000 if deep else 250)]
    return [suite('printed-forms', pr), suite('input-lines', lines), suite('recorded-output', rec), suite('call-tracing', calls), suite('files', files), suite('random-programs', rand)]

# ----------------------------------------------------------------------------- sessions
SINPUT = ['(def a 1)', '(def b (list 1 2 3))', 'a', 'b', '(setf a (+ a 1))', '(push 9 b)', '(pop b)', '(defn f (x) (list x a))', '(f 1)', '(f a)', '(defn inc () (setf a (+ a 1)))', '(inc)', '(def c b)', '(setf (first c) 7)', '(def d (make-dict))', '(dict-set d "k" a)', '(dict-get d "k")', 'd', '(define-macro-eval m (p) (list p p))', '(m a)', '(define-macro-expand e (p) (list p a))', '(e 5)',
          '(import "m.fuel")', '(geta)', '(seta 40)', '(def mk (lambda (n) (lambda () (do (setf n (+ n 1)) (rval n)))))', '(def cl (mk 10))', '(apply cl (list))', '(cl)', "(delvar 'a)", '(def a "again")', '(gdef g a)', 'g', '(vars)', '(trace #t)', '(println "t" a)', '(gettrace)', '(trace #f)', '(args)', '(need-l-value)', '(evalstr "(def z 3)")', 'z', "(eval '(setf a 9))", '(def println2 println)', '(println2 "x")', '(defn w (n) (if (< n 1) 0 (w (- n 1))))', '(w 3)', '(return 5)', '(do (return 6) (println "no"))', '; comment', '', '(def + -)', '(+ 5 3)', "(delvar '+)", '(map f b)', '(def f 5)', '()', 'nil', '"text"', '(File-WriteAllText "m.fuel" "(def ma 2)(defn geta () (list \\"new\\" ma))")', "'(1 2)", "(def q '(1 2))", '(push 5 q)', 'q', '(quasiquote (x (_unquote a) (_unquotesplicing b)))']
SFAIL = ['(undefd 1)', '(do (setf a 100) (undefd))', '(do (def p1 1) (nth 9 b) (def p2 2))', '(f (undefd))', '(map (lambda (x) (do (push x b) (nth 5 (list x)))) (list 1 2))', '(setf (first 5) 1)', '(setf (first (undefd)) 1)', '(setf (nth 9 b) 1)', '(defn broken (x) (undefd x))(broken 1)', '(', ')', '"', '(def a', '(import "bad.fuel")', '(import "nofile")', '(evalstr "(")', '(evalstr "(do (setf a 5) (undefd))")', "(eval '(undefd))", '(rval (undefd))', '(define-macro-eval)', '(define-macro-eval bm (x) (undefd x))(bm 1)', '(define-macro-expand be (x) (undefd x))(be 1)', '(m)', '(e)', '(setf a (undefd))', '(def a (undefd))',
         '(while #t (do (push 1 b) (undefd)))', '(if 5 1 2)', '(format "{0}")', '(trace 5)', '(w "x")', '(reduce (lambda (x y) (do (setf a x) (undefd))) b 0)', '(quasiquote ((_unquote (undefd))))', '(quasiquote (a (_unquotesplicing 5)))', '(dict-set d (list) 1)', '(seta (undefd))', '(modfail 3)', '(do (defn tmp (x) (do (def a x) (undefd))) (tmp 1))', '(defn dd (x) (do (setf (first (undefd)) x)))(dd 1)', '(\\)', "'", '(list 1 2', '(println "a") (println "b") )', '(println "a"', '(println "x\\qy")', '(println 99999999999)']
def c19(tier, rng):
    deep = tier == 'thorough'
    F = {'m.fuel': '(def ma 1)\n(defn geta () ma)\n(defn seta (v) (setf ma v))\n(defn modfail (x)\n  (do (setf ma 77)\n  (undefd x)))', 'bad.fuel': '(def bb 1)\n(println "bad")\n(undefd)\n(def bc 2)'}
    hist = []
    for _ in range(15000 if deep else 1300):
        ks = ['(def a 1)', '(def b (list 1 2 3))'] + [rng.choice(SFAIL) if rng.random() < .25 else rng.choice(SINPUT) for _ in range(rng.randint(5, 22))]
        hist.append(dict(codes=ks, files=F, tracing=rng.random() < .1))
    fails_ = []
    for x in SFAIL:
        for _ in range(12 if deep else 4):
            pre = [rng.choice(SINPUT) for _ in range(rng.randint(2, 8))]; post = [rng.choice(SINPUT) for _ in range(rng.randint(2, 6))]
            fails_.append(dict(codes=['(def a 1)', '(def b (list 1 2 3))'] + pre + [x] + post + ['(vars)', '(list a b)', '(need-l-value)', '(setf (first b) 0)', '(first b)', '(evalstr "(return 1)")'], files=F))
    rnd = [session(rng, inputs=rng.randint(3, 8), n=rng.randint(1, 2), d=rng.randint(1, 3), errors=rng.choice([.02, .06, .15]), effects=.15) for _ in range(6000 if deep else 450)]
    split = []
    for _ in range(3000 if deep else 220):                # the same statements as one input and as one input each
        g = Gen(rng, errors=rng.choice([0, 0, .03]), effects=.15)
        p = [plain(t) for t in g.program(rng.randint(3, 8), 2)]
        split += [['\n'.join(p), '(vars)'], p + ['(vars)']]
    shell = []                                       # the interactive shell of the program
    CMD = ['code', 'c', 'stack', 'k', 'locals', 'l', 'modules', 'macros', 'doc car', 'doc car cdr', 'doc nosuch car', 'doc  car', 'searchdoc car', 'searchdoc nosuch car', 'version', 'ver', 'about', 'help', 'up', 'down', 'list', 't', 'b 1', 'clear 1', 'step', 'restart', 'run', 'r', 'x y', 'codes', 'helps', 'lists', 'q']
    for _ in range(6000 if deep else 420):
        ks = ['(def a 1)', '(def b (list 1 2 3))'] + [rng.choice(CMD[:-8] if rng.random() < .9 else CMD) if rng.random() < .3 else rng.choice(SFAIL) if rng.random() < .25 else rng.choice(SINPUT) for _ in range(rng.randint(3, 16))]
        ks = [rng.choice(['', '', '', '', ' ', '\t', '  ']) + k + rng.choice(['', '', '', '', ' ', '  ', '\t ']) for k in ks if '\n' not in k and (k.strip() or rng.random() < .1)]
        shell.append(dict(mode='main', args=['-i'] + rng.choice([[], [], [], ['-t'], ['-m']]), files=F, input='\n'.join(ks) + '\n' + rng.choice(['q', 'exit', 'quit', '', 'code\nq', 'l\nq']) + '\n'))
    return [suite('shell', shell), suite('input-histories', hist), suite('failing-inputs', fails_), suite('random-sessions', rnd), suite('one-input-or-many', split)]

# ------------------------------------------------------------------------- independence
def c22(tier, rng):
    deep = tier == 'thorough'
    F = {'m.fuel': '(def ma 1)\n(defn geta () ma)\n(defn seta (v) (setf ma v))\n(gdef mg 5)', 'n.fuel': '(def ma 2)\n(println "n" ma)'}
    bits = ['(def a %d)', '(setf a %d)', '(println a)', '(list a b)', '(defn f (x) (list x a %d))', '(f 1)', '(gdef b %d)', '(import "m.fuel")', '(geta)', '(seta %d)', '(import "n.fuel")', 'ma', 'mg', '(define-macro-eval m (p) (list p %d))', '(m 1)', '(define-macro-expand e (p) (list p %d))', '(e 1)', '(trace #t)', '(gettrace)', '(trace #f)', '(def + -)', '(+ 5 3)', "(delvar 'list)", '(defn println (x) 5)', '(undefd)', '(return %d)', '(vars)', '(def l (list 1 2 %d))(push 5 l)', 'l', "(def q '(1 %d))(push 7 q)", 'q', '(args)', '(need-l-value)', '(setf (first 5) 1)', '(println (File-Exists "x.fuel") (File-ReadAllText "x.fuel"))', '(File-WriteAllText "x.fuel" "(def mx %d)(println mx)")', '(import "x.fuel")', 'mx', '(', '(map typestr (list 1 "a"))', '(def d (make-dict))(dict-set d 1 %d)', 'd', '(reduce + (list 1 2) 0)', '(evalstr "(def a %d)")', '(str f)', '(doc "f")', '(searchdoc "println")', '(typestr +)', '(f (f 2))', '(first (list))', '(println (quasiquote (a (_unquote a))))', '(readline)', '(File-WriteAllText "m.fuel" "(def ma %d)")', '(def nil2 nil)(push 1 nil2)', '(sleep 0)', '(defn r (n) (if (< n 1) (undefd) (r (- n 1))))(r 3)', "(delvar 'a)", "(quote a)", '(fuel)', '(if #t (def a %d) 1)']
    def part():
        k = [rng.choice(bits) for _ in range(rng.randint(1, 7))]
        if rng.random() < .6: k.insert(0, '(def a %d)(def b "b")(defn f (x) (list x a))')
        return '\n'.join(k).replace('%d', str(rng.randint(1, 9)))
    seqs = []
    for _ in range(8000 if deep else 700):
        ps = [part() for _ in range(rng.randint(2, 7))]
        if rng.random() < .4: ps.append(rng.choice(ps))
        seqs.append(dict(codes=ps, fresh=True, files=F, input='l1\nl2\nl3\n', tracing=rng.random() < .1, report=rng.choice(['', '', '', 'report'])))
    probe = '(list (map typestr (list + list println first)) (+ 5 3) (list 1 2) (first (list 7)))(println (need-l-value))(vars)'
    poison = []
    for p in [b.replace('%d', '3') for b in bits] + SFAIL + SINPUT + ['(%s)' % n for n in builtins.NAMES if n not in ('date-time', 'platform', 'tickcount', 'sleep')] + ['(def %s 5)' % n for n in builtins.NAMES] + ['(delvar (quote %s))' % n for n in builtins.NAMES] + ['(define-macro-eval %s (a) (list a))' % n for n in builtins.NAMES[::3]] + ['(define-macro-expand %s (a) (list a))' % n for n in builtins.NAMES[1::3]]:
        poison.append(dict(codes=[probe, p, probe], fresh=True, files=F))
    rnd = [dict(codes=[program(rng, n=rng.randint(1, 5), d=rng.randint(1, 2), errors=rng.choice([0, .05])) for _ in range(rng.randint(2, 5))], fresh=True) for _ in range(5000 if deep else 350)]
    same = []
    for _ in range(4000 if deep else 350):               # within one environment: calls of the same function
        g = Gen(rng, errors=0, effects=.1)
        d = [plain(g.define(1)) for _ in range(2)]
        f = g.defun(rng.randint(1, 3)); fs = plain(f)
        name, ps, _ = g.fns[-1]
        c = [plain([name] + [g.e(t, 1) for t in ps]) for _ in range(2)]
        same.append(['(defn t (n v) (do (println n) (rval v)))'] + d + [fs] + [rng.choice(c) for _ in range(5)] + ['(list %s %s)' % (c[0], c[0]), '(vars)'])
    calls = []
    fdefs = ['(defn f (x) (do (def l (list x)) (push 9 l) (rval l)))', "(defn f (x) (do (def q '(1 2)) (push x q) (rval q)))", '(defn f (x) (do (def d (make-dict)) (dict-set d x 1) (rval d)))', '(defn f (x) (do (setf x (+ x 1)) (rval x)))', '(defn f (x) (lambda () (do (setf x (+ x 1)) (rval x))))', '(defn f (x y) (list x y (argscount)))', '(defn f (x) (do (if (> x 1) (def z x) (do)) (list x)))', '(defn f (n) (if (< n 1) (list) (do (def loc n) (cons loc (f (- n 1))))))', '(defn f (x) (do (if (> x 1) (return "big") (do)) "small" (rval "s")))', '(defn f (x) (do (trace #t) (println x) (gettrace)))', '(defn f (x) (args))', '(defn f (x) (do (def i 0) (while (< i x) (do (setf i (+ i 1)) (if (== i 2) (return i) (do)))) (rval "end")))', "(defn f (x) (do (push x (quote (1))) (quote (1))))", '(defn f (x) (do (defn g () x) (g)))', '(defn f (l) (do (push 1 l) (rval l)))', '(defn f (x) (evalstr "(do (def w x) (list w))"))', '(defn f (x) (do (gdef cnt (+ cnt x)) (list cnt)))', '(defn f (x) (do (setf cnt (list x cnt)) cnt (list cnt)))', '(defn f (x) (if (> x 2) (undefd) (do (def k x) (list k))))']
    for fd in fdefs:
        for args in itertools.product(['1', '2', '3'], repeat=3):
            calls.append(['(def cnt 0)(def gl (list 5))' + fd] + ['(f %s)' % a for a in args] + ['(list (f %s) (f %s))' % args[:2], '(map f (list %s))' % ' '.join(args), '(def r1 (f %s))' % args[0], '(def r2 (f %s))' % args[0], '(list r1 r2)', '(println (f %s) (f %s))' % args[1:], '(f gl)', '(f gl)', 'gl', '(vars)'])
    return [suite('program-sequences', seqs), suite('one-program-in-between', poison), suite('random-sequences', rnd), suite('calls-of-one-function', calls), suite('calls-of-random-functions', same)]

# ------------------------------------------------------------------------- introspection
DOCS = [';; one line', '; x', ';;; many   spaces  ', '; with (brackets) "quotes"', ';', '; tab\tinside', ';; {0} \\n', '']
def c24(tier, rng):
    deep = tier == 'thorough'
    names = ['f', 'g', 'add2', 'first2', 'zz', 'a-b', 'f1', 'fun']
    pars = ['()', '(x)', '(x y)', '(a b c)', '(x . y)', "(x (y 1))", '(list)']
    def fdef():
        n = rng.choice(names)
        d = rng.choice(DOCS + ['\n'.join(rng.sample([x for x in DOCS if x], 2))])
        return (d + '\n' if d else '') + rng.choice(['(defn %s %s %s)', '(defn %s\n  %s\n  %s)', '(gdefn %s %s %s)', '(def %s (lambda %s %s))', '(defn %s %s ; inside\n  %s)', '(do (defn %s %s %s))']) % (n, rng.choice(pars), rng.choice(['(+ x 1)', 'x', '(do (println x) (list x y))', '"text"', "'(1 2)"]))
    vdef = lambda: '(%s %s %s)' % (rng.choice(['def', 'gdef']), rng.choice(['x', 'v', 'l', 'name', 'first2', 'a-b', 'very-long-variable-name-indeed']), rng.choice(['1', '2.5', '"s"', 'nil', '#t', "'sym", '(list 1 "a" (list))', '(make-dict)', '+', 'f', '(lambda (p) (* p 2))', '(do)', "'(a (b))", '"a\\"b\\n"', '(list "x" nil #f 2.0)', 'println', '"%s"' % ('long ' * 12)]))
    ask = lambda: rng.choice(['(vars)', '(vars)', '(help)', '(doc "%s")', '(searchdoc "%s")', '(println (doc "%s"))', '(str %s)', '(typestr %s)', '(type %s)', '%s', '(doc %s)', "(doc '%s)", "(doc '%s '%s)", '(searchdoc "%s" "%s")', '(println %s)', '(list %s %s)', '(searchdoc "")', '(doc "%s" "println")', '(searchdoc "ra")', '(doc "nothere")', "(doc 'dict-set)", '(defn w (%s q) (do (def inner 5) (vars)))(w 1 2)', '(defn w (q) (doc "%s"))(w 1)', '(defn w () (help))(w)', '(defn w (p) (do (defn inloc (z) z) (doc "inloc")))(w 1)']).replace('%s', rng.choice(names + ['+', 'println', 'first', 'x', 'v', 'map', 'import']))
    F = {'m.fuel': '(def mv 5)\n;; doc of mfun\n(defn mfun (a b)\n  (list a b))\n; other\n(gdefn mglob (q) q)\n(def first3 (lambda (x) x))', 'n.fuel': ';; n doc\n(defn mfun (z) z)\n(defn nfun () 1)'}
    hist = []
    for _ in range(9000 if deep else 800):
        ks = []
        for _ in range(rng.randint(3, 12)):
            k = rng.random()
            ks.append(fdef() if k < .35 else vdef() if k < .5 else rng.choice(["(delvar 'f)", "(delvar 'x)", '(setf x 7)', '(import "m.fuel")', '(import "n.fuel")', '(def f g)', '(define-macro-eval mm (a) (list a))', '(undefd)', '(trace #t)', '(setf f 5)', "(delvar '+)", '(def println2 println)', '(evalstr ";; in text\\n(defn f (z) z)")', '(searchdoc "mfun")', '(doc "mglob")', '(searchdoc "first")', 'mfun', '(str mfun)', '(doc "mm")', '(def + 5)']) if k < .7 else ask())
        if rng.random() < .3: ks = ['\n'.join(ks)]
        hist.append(dict(codes=ks, files=F))
    built = []
    for n in builtins.NAMES:
        q = '"%s"' % n
        built += ['(doc %s)' % q, '(searchdoc %s)' % q, '(str %s)' % n, '(typestr %s)' % n, "(doc '%s)" % n, '(list %s (type %s))' % (n, n)]
    builtc = [dict(codes=k, indep=True) for k in pack(built)] + [['(doc)'], ['(htmldoc)'], ['(help)'], ['(searchdoc)'], ['(println (doc))'], ['(doc "+" "-" "*")'], ['(searchdoc "a" "b")'], ['(defn myfun (x) x)', '(doc)'], ['(defn first (x) x)', '(doc "first")', '(searchdoc "irs")', '(htmldoc)'], ["(delvar 'first)", '(doc)', '(doc "first")'], ['(searchdoc "")'], ['(vars)', '(help)'], ['(fuel)', '(copyright)', '(version)']]
    com = []
    for d in itertools.product(DOCS, ['\n', '\n\n', ' '], ['', '(println 1)\n', '; earlier\n'], ['(defn f (x) x)', '(def f (lambda (x) x))', '(gdefn f (x y) x)', '(do (defn f (x) x))', '(defn g (x) x) (defn f (x) x)']):
        com.append([d[2] + d[0] + (d[1] if not d[0] or d[1] != ' ' else '\n ') + d[3], '(doc "f")', '(searchdoc "f")', '(str f)', 'f'] if deep or rng.random() < .5 else [d[2] + d[0] + '\n' + d[3], '(doc "f")'])
    sig = []
    for n, p in itertools.product(['f', 'a-b', 'x', 'first', '"f"', '5', "(f)"], pars + ['5', 'nil', 'x', '("a")', '(1)', "'(x)"]):
        sig.append(['(defn %s %s (list 1))' % (n, p), '(doc "f" "a-b" "x" "first")', '(str f)', '(vars)', '(typestr f)'])
    return [suite('definition-histories', hist), suite('built-in-functions', builtc), suite('documentation-comments', com), suite('signatures', sig)]

TABLE = dict(C15=c15, C16=c16, C19=c19, C22=c22, C24=c24)
