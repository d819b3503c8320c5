"""The debugger (C17), looking on without changing anything (C18), the command line (C20)."""
import itertools
from . import builtins, code
from .prog import Gen, layout, plain, program
from .ev import suite

# ------------------------------------------------------------------ programs
LIBS = {'m.fuel': '(def ma 1)\n(defn geta (x)\n  (do\n    (println "geta" x)\n    (+ ma x)))\n(defn seta (v)\n  (setf ma v))\n(gdef mg 5)',
        'n.fuel': '(import "m.fuel")\n(defn twice (f x)\n  (f (f x)))\n(defn na (x)\n  (list (geta x)\n    (geta 2)))'}
FIXED = ['(+ 1 2)', '(println "a")\n(println "b")\n(println "c")',
  '(defn f (x)\n  (do\n    (println x)\n    (* x 2)))\n(f 3)\n(f 4)\n(+ (f 1)\n   (f 2))',
  '(defn fac (n)\n  (if (< n 2)\n    1\n    (* n (fac (- n 1)))))\n(println (fac 3))',
  '(def a 1)\n(def b 2)\n(defn g (x y)\n  (do\n    (def c (+ x y))\n    (setf a c)\n    (println a b c)\n    c))\n(defn h (z)\n  (do\n    (def d (g z 1))\n    (g d 2)))\n(h 5)\n(println a)',
  '(def l (list 3 1 2))\n(println (map (lambda (x)\n   (+ x 1)) l))\n(reduce (lambda (x acc)\n   (+ x acc)) l 0)',
  '(def i 0)\n(while (< i 3)\n  (do\n    (println i)\n    (setf i (+ i 1))))\ni',
  '(defn mk (n)\n  (lambda (x)\n    (do\n      (setf n (+ n x))\n      n)))\n(def c (mk 10))\n(c 1)\n(c 2)',
  '(define-macro-eval twice (e)\n  (do\n    e\n    e))\n(define-macro-expand inc (v)\n  `(+ 1 ,v))\n(twice (println "t"))\n(inc 4)',
  '(import "m.fuel")\n(println (geta 3))\n(seta 9)\n(geta 1)', '(import "n.fuel")\n(na 4)\n(twice geta 1)\n(println mg)',
  '(defn f (x)\n  (first (nth x (list 1 2))))\n(println "go")\n(f 9)\n(println "no")', '(defn f (x) (do\n  (g x)))\n(defn g (y) (do\n  (def q y)\n  (undefd y)))\n(list\n (f 1))',
  '(evalstr "(println 1)\n(+ 2 3)")\n(eval (list + 1 2))\n(eval \'(println "e"))', '(do\n  (println 1)\n  (do\n    (println 2)\n    (list 1 (list 2 (list 3))))\n  (println 4))',
  '(defn f (x)\n  (do\n    (return x)\n    (println "no")))\n(list (f 1)\n  (f 2))', '', '; nothing', '(', 'x', '(println (undefd))', '(break)\n(println "after")', '(defn f (x)\n  (do\n    (break)\n    x))\n(f 3)',
  '(def d (make-dict))\n(dict-set d "a" 1)\n(println d)\n(dict-get d "a")', '(defn f (x) (if (> x 0) (do (println x) (f (- x 1))) (println "end")))\n(f 2)\n(args)', '(trace #t)\n(println 1)\n(trace #f)\n(list 1 2)',
  '(println "a") (println "b") (println "c")\n(+ 1 (* 2 3)) (println "d")', '(defn k (a) (println "k" a))\n(k 1)(k 2)(k 3)\n(k 4)', '(map (lambda (q) (do\n (println q)\n (undefd q))) (list 1 2))', '(apply (lambda (x y) (do\n  (println x)\n  (+ x y))) (list 1 2))']
NOBREAK = [p for p in FIXED if 'break' not in p and p not in ('(', 'x')]
def rnd(rng, n=None, d=None, **o):
    return program(rng, n=n or rng.randint(1, 4), d=d or rng.randint(1, 2), wild=True, errors=o.get('errors', rng.choice([0, .02, .06])), effects=rng.choice([.05, .2]))

# ------------------------------------------------------------------ commands
MOVE = ['s', 'step', 'v', 'over', 'o', 'out', 'r', 'run']
LOOK = ['k', 'stack', 'l', 'locals', 'u', 'd', 'up', 'down', 't', 'list', 'c', 'code', 'modules', 'macros', 'version', 'ver', 'help', 'h', 'about', 'doc car', 'doc nosuch', 'doc car cdr', 'doc  car', 'searchdoc abc car', 'docs', 'doc ', 'searchdoc "dict-"', 'searchdoc zzz', 'clear 9', 'clear x', 'b x', 'b "m.fuel"', 'b "m.fuel', 'break :x']
BIG = ['g', 'globals', 'builtins', 'funcs', 'doc', 'searchdoc']
EVAL = ['x', 'a', 'n', '(+ 1 2)', '(println "from the debugger" x)', '(setf x 100)', '(setf a 7)', '(def a 50)', '(gdef gg 1)', 'gg', '(undefd)', '(', ')', '(f 1)', '(setf n 3)', '(vars)', '(args)', '(list 1', '(first (list))', '"text"', '42', 'nil', '(do)', '(trace #t)', '(trace #f)', '(defn f (x) (list "new" x))', '(delvar \'x)', '(return 5)', '(argscount)', '(setf y 0)', '(break)', '(def tmp (lambda (z) (* z 2)))', '(tmp 4)', '(setf i 10)', '(evalstr "(+ 1 1)")', '(push 9 l)', 'l', '(import "m.fuel")', '(geta 5)', '(need-l-value)', "'q", '(quote (a b))']
NESTED = ['(defn g (x)\n  (do\n    (println "g")\n    (+ x 1)))\n(defn f (x)\n  (do\n    (println (g x))\n    (println "f")))\n(defn h (x)\n  (do\n    (f (+ x 1))\n    (f x)))\n(h 1)\n(h 5)\n(println "end")',
  '(def x 10)\n(defn a (n)\n  (do\n    (def x n)\n    (b (+ n 1))\n    x))\n(defn b (y)\n  (do\n    (setf x (+ x y))\n    (list\n      x\n      y)))\n(println (a 1)\n  (b 2))\n(println x)',
  '(import "m.fuel")\n(defn q (y)\n  (do\n    (println "q")\n    (+ (geta y)\n      (seta y))))\n(map (lambda (z)\n  (do\n   (q z)\n   z)) (list 1 2))']
SELECTED = ['k', 'l', 'c', 'code', 'stack', 's', 'v', 'o', 'v\nv', 'o\no', 'x', '(setf x 77)', '(vars)', '(def x 5)', 'b 3', 'b 4\nt', '(undefd)\nk\nl', '(+ 1 2)\nc', 'u\nc', 'doc f', 'g', '(args)', '(f 1)\nk', '(return 4)\nk']
def conds(rng): return rng.choice(['', '', '', ' (> x 1)', ' (== x 3)', ' #t', ' #f', ' (undefd)', ' 5', ' (println "cond")', ' (< i 2)', ' x', ' (', ' (== n 1)', ' (do (setf a 99) #f)', ' (> (f x) 0)', ' nil', ' (+ x 0)', ' (- x x)', ' (* 2 3)', ' (+ 0.5 0)', ' (type x)', ' (if #f 1)', ' (str x)', ' (and)', ' (not #f)', ' (or #f (> x 2))', '  (list 1) ', ' (== "a b" "a b")', ' (do)'])
def bp(rng, lines):
    ln = str(rng.randint(0, lines + 1)) if rng.random() < .95 else rng.choice(['-1', '-3', '1000', '07', '+2', '2x', ''])
    k = rng.random()
    w = rng.choice(['b ', 'b ', 'break ', 'b  '])
    if k < .6: return w + ln + conds(rng)
    m = rng.choice(['main', 'm.fuel', 'n.fuel', '', 'other', 'a:b'])
    return w + (m + ':' + ln if k < .8 else '"%s":%s' % (m, ln) if k < .95 else '"%s" %s' % (m, ln)) + conds(rng)
def script(rng, prog, n, evals=.25, looks=.3, bps=.25, moves=MOVE, big=.01, restart=.04):
    lines = prog.count('\n') + 1
    out = []
    for _ in range(n):
        k = rng.random()
        if k < bps: out.append(bp(rng, lines))
        elif k < bps + looks: out.append(rng.choice(LOOK) if rng.random() >= big else rng.choice(BIG))
        elif k < bps + looks + evals: out.append(rng.choice(EVAL))
        elif k < bps + looks + evals + restart: out.append(rng.choice(['restart', 'clear 1', 'clear 2', 'clear\ny', 'clear\nno', 'clear\nmaybe\nYES', 'q', '', 'exit']))
        else: out.append(rng.choice(moves))
    return '\n'.join(out) + '\n'
def case(prog, cmds, mode='dbg', module='main', **o):
    f = dict(LIBS)
    if module: f[module] = prog
    return dict(dict(mode=mode, codes=[prog], module=module, files=f, input=cmds), **o)

def c17(tier, rng):
    deep = tier == 'thorough'
    # the way through a program with one command again and again, and every sequence of the moves
    ways = [case(p, (c + '\n') * 60 + 'q\n') for p in FIXED for c in ['s', 'v', 'o']] + [case(p, 'r\nr\nq\n') for p in FIXED]
    seqs = [case(p, '\n'.join(q) + '\nk\nl\nq\n') for p in FIXED[2:5] + FIXED[9:13] for q in itertools.product(['s', 'v', 'o', 'r'], repeat=4 if not deep else 6)]
    if not deep: seqs = rng.sample(seqs, 500)
    # every single line, every pair of breakpoints
    lines = [case(p, 'b %d\nt\nr\nk\nl\nr\nk\nr\nr\nq\n' % i) for p in FIXED for i in range(1, p.count('\n') + 3)]
    lines += [case(p, 'b %s:%d\nb "m.fuel":%d\nlist\nr\nk\nr\nc\nr\nr\nq\n' % (rng.choice(['m.fuel', 'n.fuel', 'main', '']), i, j)) for p in FIXED[9:11] for i in range(1, 8) for j in range(1, 9)]
    hist = [case(p, script(rng, p, rng.randint(3, 25 if deep else 14))) for p in FIXED for _ in range(150 if deep else 14)]
    bpe = []                                        # histories of breakpoint commands
    for _ in range(4000 if deep else 250):
        p = rng.choice(FIXED[2:8] + FIXED[9:13]); n = p.count('\n') + 1
        ops = [rng.choice([bp(rng, n), bp(rng, n), 'clear %d' % rng.randint(0, 5), 't', 'clear\n' + rng.choice(['y', 'n', 'Y', 'x\nno', ''])]) if rng.random() < .93 else rng.choice(['clear 99', 'clear abc', 'clear 1x', 'clear -1', 'list all']) for _ in range(rng.randint(2, 10))]
        bpe.append(case(p, '\n'.join(ops) + '\nlist\nc\n' + 'r\n' * rng.randint(1, 6) + 'list\nq\n'))
    rp = []
    for _ in range(5000 if deep else 350):
        p = rnd(rng)
        rp.append(case(p, script(rng, p, rng.randint(3, 16)), tracing=rng.random() < .1))
    ev = []                                         # what is done at a stop is what the program goes on with
    for _ in range(4000 if deep else 300):
        p = rng.choice(FIXED[2:8] + FIXED[9:13])
        ev.append(case(p, 's\n' * rng.randint(0, 6) + 'b %d\nr\n' % rng.randint(1, p.count('\n') + 1) + '\n'.join(rng.choice(EVAL + ['u', 'd', 'l', 'k', 's', 'r', 'o', 'v']) for _ in range(rng.randint(1, 8))) + '\nl\nr\nl\nr\nr\nq\n'))
    sel = []                                        # commands that act on the frame the user selected
    for p in FIXED[2:8] + FIXED[9:13] + NESTED:
        n = p.count('\n') + 1
        for at in range(1, n + 1):
            for way in ['d', 'd\nd', 'd\nu', 'd\nd\nu', 'd\nd\nd', 'u', 'd\nd\nd\nd\nd\nu\nu']:
                for what in SELECTED: sel.append(case(p, 'b %d\nr\n%s\n%s\nk\nl\nr\nk\nq\n' % (at, way, what)))
    if not deep: sel = rng.sample(sel, 700)
    near = []                                       # modules whose names differ a little only
    names = ['m.fuel', 'm.fuel2', 'm', 'xm.fuel', 'm.fuelm.fuel', 'main', 'main2', 'mai', 'M.fuel', 'a:b', './m.fuel', 'm.fuel ', '', 'nofile']
    body = '(defn %s (x)\n  (+ x\n   1))\n(println "%s"\n  (list 1))'
    nf = {'m.fuel': body % ('f1', 'f1'), 'm.fuel2': body % ('f2', 'f2'), 'm': body % ('f3', 'f3'), 'xm.fuel': body % ('f4', 'f4')}
    for _ in range(3000 if deep else 160):
        im = rng.sample(['m.fuel', 'm.fuel2', 'm', 'xm.fuel', './m.fuel'], rng.randint(1, 3))
        p = '\n'.join(['(import "%s")' % x for x in im] + ['(list 1\n  2)', '(println (%s 4))' % {'m.fuel': 'f1', './m.fuel': 'f1', 'm.fuel2': 'f2', 'm': 'f3', 'xm.fuel': 'f4'}[rng.choice(im)], '(f%d 1)' % rng.randint(1, 4)])
        c = case(p, ''.join('b "%s":%d\n' % (rng.choice(im + names), rng.randint(1, 6)) for _ in range(rng.randint(1, 4))) + 't\n' + 'r\nk\n' * 6 + 'q\n')
        c['files'] = dict(c['files'], **nf)
        near.append(c)
    same = []                                       # several breakpoints that fit one line
    for _ in range(3000 if deep else 200):
        p = rng.choice(FIXED[2:8] + FIXED[9:13] + NESTED); ln = rng.randint(1, p.count('\n') + 1)
        bs = [rng.choice(['b %d', 'b :%d', 'b "":%d', 'b main:%d', 'b "main":%d', 'b m.fuel:%d']) % ln + rng.choice(['', ' (== 1 1)', ' (== 1 2)', ' (undefd)', ' (do (println "c%d") (== 1 2))' % rng.randint(1, 9), ' (> x 1)', conds(rng)]) for _ in range(rng.randint(2, 4))]
        same.append(case(p, '\n'.join(bs) + '\nt\nr\nk\nc\nr\n' + rng.choice(['clear 1\n', 'clear 2\n', 's\n', '']) + 'r\nt\nr\nq\n'))
    return [suite('near module names', near), suite('breakpoints of one line', same), suite('selected frames', sel), suite('ways', ways), suite('move sequences', seqs), suite('breakpoint lines', lines), suite('breakpoint commands', bpe), suite('command histories', hist), suite('evaluation at stops', ev), suite('random programs', rp)]

def c18(tier, rng):
    deep = tier == 'thorough'
    quiet = [c for c in LOOK if 'clear' not in c]
    def watch(p, n):
        lines = p.count('\n') + 1
        return '\n'.join(rng.choice([rng.choice(quiet), rng.choice(MOVE), rng.choice(MOVE), rng.choice(['s', 'r']), 'b %d%s' % (rng.randint(1, lines + 1), rng.choice(['', '', ' #t', ' #f', ' (undefd)', ' (== 1 1)', ' (list x)', ' (> x 1)', ' (', ' (do)']))]) for _ in range(n)) + '\n' + 'r\n' * 12
    fixed = [case(p, w, mode='tri', pure=True) for p in NOBREAK for w in ['r\n' * 3, 's\n' * 80, 'v\n' * 60, 'o\n' * 40] + [watch(p, rng.randint(2, 20)) for _ in range(60 if deep else 5)]]
    rp = []
    for _ in range(8000 if deep else 450):
        p = rnd(rng, n=rng.randint(1, 4), d=rng.randint(1, 2))
        if rng.random() < .3: p += '\n(vars)'           # the definitions it leaves
        rp.append(case(p, watch(p, rng.randint(2, 15)), mode='tri', pure=True))
    calls = []                                      # every builtin function while somebody looks on
    for n in sorted(builtins.NAMES):
        if n in ('date-time', 'platform', 'tickcount', 'sleep', 'break', 'trace', 'gettrace', 'readline', 'while', 'htmldoc', 'define-macro-expand') or 'trace' in n or n.startswith(('vars', 'read-line')): continue
        for a in [[], ['1'], ['"ab"', '1'], ['(list 1 2)', '0'], ["'x", '(list 1)', '2'], ['d', '1', '2']]:
            calls.append('(def d (make-dict))\n(def x 3)\n(println "s")\n(println (typestr (%s)))\n(println x d)' % ' '.join([n] + a))
    calls = [case(p, rng.choice(['s\n' * 60, 's\nv\n' * 30, 'b 4\nr\ns\nl\n' + 's\n' * 40]), mode='tri', pure=True) for p in (calls if deep else rng.sample(calls, 350))]
    own = []
    for p in NOBREAK + [rnd(rng) for _ in range(2000 if deep else 120)]:        # programs that switch the trace themselves, in one environment
        cut = p.split('\n')
        own.append(dict(codes=['(trace #t)', p, '(trace #f)', p, '(gettrace)', '(vars)'], files=LIBS, tracing=False))
        own.append(dict(codes=[p, '(vars)'], files=LIBS, tracing=True))
    return [suite('fixed programs', fixed), suite('calls', calls), suite('random programs', rp), suite('tracing sessions', own)]

# --------------------------------------------------------------- command line
SW = ['-m', '-v', '-h', '--doc', '--html', '--macro-expand', '-x', '-t', '-e', '-i', '-d', '-l=lib', '-l=other', '-z', '-', '--trace', '-E', '-tt', '-l', '--help', '-T', '-l=']
SCRIPTS = ['a.fuel', 'b.fuel', 'err.fuel', 'syn.fuel', 'nofile.fuel', 'empty.fuel', 'mac.fuel', 'lib.fuel', 'val.fuel', '', '(+ 1 2)', '(println "e")(list 1 "x")', '(undefd 1)', '(', '(do (println 1)\n  (def x 5)\n  (undefd x))', 'x', '(define-macro-expand inc (v) `(+ 1 ,v))(inc (inc 4))', '(args)', '(list 1 2', '"t"', '(do)', '(return 4)']
CFILES = {'a.fuel': '(println "a" 1)\n(def x 2)\n(+ x 3)', 'b.fuel': '(println "b")\n(list x)', 'err.fuel': '(println "err")\n(defn f (x)\n  (undefd x))\n(f 4)\n(println "no")', 'syn.fuel': '(println "s"\n  (list 1', 'empty.fuel': '',
          'mac.fuel': '(define-macro-expand inc (v)\n `(+ 1 ,v))\n(define-macro-eval ev (v) (list v))\n(println (inc 2))\n(ev (inc 3))', 'lib.fuel': '(import "lm.fuel")\n(println (lf 1))', 'lib/lm.fuel': '(defn lf (x) (list "lib" x))', 'other/lm.fuel': '(defn lf (x) (list "other" x))', 'val.fuel': '(File-WriteAllText "out.txt" "written")\n(readline)'}
def cli(args, inp=''): return dict(mode='main', args=args, files=CFILES, input=inp)
def c20(tier, rng):
    deep = tier == 'thorough'
    none = [cli([])] + [cli([s]) for s in SW + SCRIPTS]
    pairs = [cli([s, x], 'l1\nl2\nq\n') for s in SW for x in SCRIPTS] + [cli([x, s], 'l1\nq\n') for s in SW for x in SCRIPTS]
    two = [cli(list(p), 'x\nq\n') for p in itertools.permutations(SW, 2)]
    many = []
    for _ in range(12000 if deep else 900):
        a = rng.sample(SW[:12], rng.randint(0, 4)) if rng.random() < .85 else [rng.choice(SW) for _ in range(rng.randint(0, 5))]
        if rng.random() < .7: a = [x for x in a if x not in ('-v', '-h')]
        if rng.random() < .8: a = [x for x in a if x not in ('--doc', '--html')]
        a += [rng.choice(SCRIPTS) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
        rng.shuffle(a)
        many.append(cli(a, '\n'.join(rng.choice(['(+ 1 2)', 'x', '(def x 4)', 's', 'r', 'k', 'l', 'c', 'b 2', 't', 'v', '(println "in")', '(undefd)', 'restart', 'clear 1', 'version', 'modules', 'o']) for _ in range(rng.randint(0, 8))) + '\nq\n'))
    inter = []
    for _ in range(6000 if deep else 350):          # the interactive shell and the debugger of the command line
        p = rng.choice(FIXED)
        cmds = script(rng, p, rng.randint(2, 12), evals=.45, bps=.12)
        k = rng.randrange(4)
        if k == 0: inter.append(dict(cli(['-i'] + rng.choice([[], ['-t'], ['-m'], ['-l=lib']]), cmds), files=dict(CFILES, **LIBS)))
        elif k == 1: inter.append(dict(cli(['-d', 'p.fuel'] + rng.choice([[], ['-t'], ['-x'], ['-i']]), cmds), files=dict(CFILES, **dict(LIBS, **{'p.fuel': p}))))
        elif k == 2 and not p.startswith('-'): inter.append(dict(cli(['-d', '-e', p] + rng.choice([[], ['-t']]), cmds), files=LIBS))
        else: inter.append(dict(cli(['p.fuel'] + rng.choice([[], ['-t'], ['-x'], ['--macro-expand'], ['--macro-expand', '-t']])), files=dict(CFILES, **dict(LIBS, **{'p.fuel': p}))))
    return [suite('single arguments', none), suite('switch and script', pairs), suite('two switches', two), suite('combinations', many), suite('shell and debugger', inter)]

TABLE = dict(C17=c17, C18=c18, C20=c20)
