----------------------------- MODULE FuelTrace -----------------------------
(* Conformance of the evaluator: a recorded session                          *)
(*   [mode, codes, fresh, module, tracing, expand, report, files, lib,       *)
(*    fuelpath, input, args, indep, pure, steps (observed), after, crash]    *)
(* is a behaviour of the machine of module Fuel.  Every action below is one  *)
(* transition; after the last program the observed results must be the ones *)
(* the machine computed.  The laws at the end hold in every state.           *)
EXTENDS FuelLib, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.FUEL_TRACE)
MaxSteps == 4000
VARIABLES cs, m, si, res,
          sav                  \* state in which the running program was started
vars == <<cs, m, si, res, sav>>
T == Trace[cs]

InputLines(t) == IF t = "" THEN <<>> ELSE LET l == Lines(t) IN IF l[Len(l)] = "" THEN SubSeq(l, 1, Len(l) - 1) ELSE l
Fresh(old) == [Machine0 EXCEPT !.fs = old.fs, !.inp = old.inp, !.lib = old.lib, !.envp = old.envp, !.n = old.n, !.xonly = old.xonly]
Init == /\ cs \in 1..Len(Trace) /\ si = 0 /\ res = <<>>
        /\ m = [Machine0 EXCEPT !.fs = Trace[cs].files, !.inp = InputLines(Trace[cs].input), !.lib = Trace[cs].lib, !.envp = Trace[cs].fuelpath, !.xonly = Trace[cs].expand]
        /\ sav = Machine0

TooLong == m.c.k # "idle" /\ m.n >= sav.n + MaxSteps
Running == m.c.k # "idle" /\ ~TooLong
AtProg == m.K # <<>> /\ Top1(m).f = "prog"
Move(k, F(_)) == /\ Running /\ m.c.k = k
                 /\ m' = [F(m) EXCEPT !.n = @ + 1]
                 /\ UNCHANGED <<cs, si, res, sav>>
Evaluate == Move("ev", DoEval)
Apply == Move("ap", DoApply)
AtLib == m.K # <<>> /\ Top1(m).f \in LibFrames
AtDbg == m.K # <<>> /\ Top1(m).f \in DbgFrames
Return == ~AtProg /\ ~AtDbg /\ ~AtLib /\ Move("rt", DoReturn)
Unwind == ~AtProg /\ ~AtDbg /\ ~AtLib /\ Move("ex", DoThrow)
DebugReturn == AtDbg /\ Move("rt", DoDbgReturn)
DebugUnwind == AtDbg /\ Move("ex", DoDbgThrow)
DebugCheck == Move("nb", DoNeedsBreak)
DebugError == Move("de", DoErrorStop)
DebugBreak == Move("db", DoBreakStop)
Command == Move("dp", DoCommand)
Answer == Move("dy", DoAnswer)
LibraryImport == Move("li", DoLibImport)
LibraryCall == Move("lb", DoLib)
LibraryMacro == Move("lm", DoLibMacro)
LibraryReturn == AtLib /\ Move("rt", DoLibReturn)
LibraryUnwind == AtLib /\ Move("ex", DoLibThrow)
LoopDone == Move("dn", DoLoopDone)
Expand == Move("xp", DoExpand)
Expanded == Move("xr", DoExpanded)
Replace == Move("mr", DoReplace)
Quasi == Move("qq", DoQuasi)
Quasied == Move("qr", DoQuasied)

\* kinds of sessions: "sess" programs in one scope, "save" programs as a whole, "dbg" a program in the debugger,
\* "tri" the same program plain, traced and in the debugger, "main" the command line program
Programs == IF T.mode \in {"dbg", "main"} THEN 1 ELSE IF T.mode = "tri" THEN 3 ELSE Len(T.codes)
StartProgram ==
  /\ m.c.k = "idle" /\ si < Programs
  /\ si' = si + 1
  /\ sav' = m
  /\ LET b == IF T.fresh \/ T.mode # "sess" THEN Fresh(m) ELSE m
         b1 == [b EXCEPT !.K = <<[f |-> "prog"]>>, !.out = "", !.own = "", !.n = @ + 1]
         code == IF T.codes = <<>> THEN "" ELSE T.codes[IF T.mode = "tri" THEN 1 ELSE si']
     IN m' = IF T.mode = "main" THEN CliStart(b1, T.args, T.compiler)
             ELSE IF T.mode = "dbg" \/ (T.mode = "tri" /\ si' = 3) THEN DebugProgram([b1 EXCEPT !.inp = InputLines(T.input)], code, T.module, T.tracing)
             ELSE Program(IF T.mode = "tri" THEN [b1 EXCEPT !.inp = <<>>] ELSE b1, 1, code, T.module, T.tracing \/ (T.mode = "tri" /\ si' = 2), FALSE)
  /\ UNCHANGED <<cs, res>>

NoErr == [exc |-> "", msg |-> "", line |-> "", start |-> "", stop |-> "", module |-> "", stack |-> ""]
Result(v) == IF v.t = "null" THEN [ty |-> "null", tx |-> "", sv |-> ""] ELSE [ty |-> TypeName[v.t], tx |-> Str(m, v), sv |-> SV(m, v)]
NoRes == [ty |-> "", tx |-> "", sv |-> ""]
EndProgram ==
  /\ Running /\ m.c.k \in {"rt", "ex"} /\ AtProg
  /\ res' = Append(res, [own |-> m.own] @@
                        (IF T.mode = "main" THEN NoRes @@ NoErr @@ [out |-> m.out]
                        ELSE IF m.c.k = "rt" THEN Result(m.c.v) @@ NoErr @@ [out |-> m.out]
                        ELSE IF T.report # "" THEN [ty |-> "Error", tx |-> "Error: " \o m.c.e.msg, sv |-> ""] @@ NoErr @@ [out |-> m.out \o ReportText(m.c.e, T.report = "verbose")]
                        ELSE NoRes @@ ErrOf(m.c.e) @@ [out |-> m.out]))
  /\ m' = [PopK(m) EXCEPT !.c = [k |-> "idle"], !.n = @ + 1]
  /\ UNCHANGED <<cs, si, sav>>
\* T.indep: the programs of the session are independent questions without lasting effects;
\* one that is outside the specified domain is passed over, the others are still judged
Unknown == m.c.k = "un" \/ TooLong
PassOver ==
  /\ Unknown /\ T.indep
  /\ res' = Append(res, [unknown |-> IF TooLong THEN "steps" ELSE m.c.why])
  /\ m' = [sav EXCEPT !.n = m.n + 1, !.S[1].tok = LostTok]
  /\ UNCHANGED <<cs, si, sav>>

\* ------------------------------------------------------------- judgement
Fields == <<"exc", "msg", "out", "ty", "tx", "sv", "line", "start", "stop", "module", "stack">>
RECURSIVE Differs(_, _, _, _)
IsUnknown(r) == "unknown" \in DOMAIN r
Unknowns == Cardinality({i \in DOMAIN res : IsUnknown(res[i])})
Lost(t) == t = "?" \/ FindFrom(t, "lineno=?", 0) >= 0            \* position left by a program that was passed over
Differs(i, e, o, fs) == IF fs = <<>> \/ IsUnknown(e) THEN "" ELSE IF e[fs[1]] # o[fs[1]] /\ ~((Unknowns > 0 \/ T.lib21) /\ Lost(e[fs[1]])) /\ ~(T.lib21 /\ fs[1] = "stack")
                          THEN "program " \o ToString(i) \o ": " \o fs[1] \o " is " \o ToString(o[fs[1]]) \o ", expected " \o ToString(e[fs[1]])
                          ELSE Differs(i, e, o, Tail(fs))
RECURSIVE Compare(_, _)
Compare(i, n) == IF i > n THEN "" ELSE IF Differs(i, res[i], T.steps[i], Fields) # "" THEN Differs(i, res[i], T.steps[i], Fields) ELSE Compare(i + 1, n)
FilesWhy == IF m.fs = T.after THEN "" ELSE "files are " \o ToString(T.after) \o ", expected " \o ToString(m.fs)
Unclear == Unknown /\ ~T.indep
Done == Unclear \/ (m.c.k = "idle" /\ si = Programs)
Crashed == T.crash # ""
\* a crash inside of a program that is outside of the specified domain
Excused == IF Unclear THEN Crashed /\ Len(T.steps) >= Len(res)
           ELSE Crashed /\ Len(T.steps) < Len(res) /\ IsUnknown(res[Len(T.steps) + 1])
Foreign(i) == T.steps[i].exc = "foreign"
Why == IF Crashed /\ ~Excused THEN "crash: " \o T.crash \o " in program " \o ToString(Len(T.steps) + 1)
       ELSE IF \E i \in DOMAIN T.steps : Foreign(i) THEN "foreign exception in program " \o ToString(CHOOSE i \in DOMAIN T.steps : Foreign(i))
       ELSE IF ~Unclear /\ ~Crashed /\ Len(T.steps) # Len(res) THEN "number of results"
       ELSE IF Compare(1, Min2(Len(res), Len(T.steps))) # "" THEN Compare(1, Min2(Len(res), Len(T.steps)))
       ELSE IF Unclear \/ Unknowns > 0 THEN "" ELSE FilesWhy
Verdict == IF Why # "" THEN "REJECT|" \o ToString(cs) \o "|" \o Why
           ELSE IF Unclear THEN "SKIP|" \o ToString(cs) \o "|" \o (IF TooLong THEN "steps" ELSE m.c.why)
           ELSE IF Unknowns > 0 /\ (Crashed \/ Unknowns = Len(res)) THEN "SKIP|" \o ToString(cs) \o "|" \o (CHOOSE r \in {res[i] : i \in DOMAIN res} : IsUnknown(r)).unknown
           ELSE "ACCEPT|" \o ToString(cs) \o "|" \o ToString(Unknowns) \o "/" \o ToString(Len(res))
Judge == /\ Done /\ si >= 0
         /\ PrintT(Verdict)
         /\ si' = -1 /\ UNCHANGED <<cs, m, res, sav>>

Next == si >= 0 /\ (StartProgram \/ Evaluate \/ Apply \/ DebugReturn \/ DebugUnwind \/ DebugCheck \/ DebugError \/ DebugBreak \/ Command \/ Answer \/ LoopDone \/ LibraryImport \/ LibraryCall \/ LibraryMacro \/ LibraryReturn \/ LibraryUnwind \/ Return \/ Unwind \/ Expand \/ Expanded \/ Replace \/ Quasi \/ Quasied \/ EndProgram \/ PassOver \/ Judge)
Spec == Init /\ [][Next]_vars
View == <<cs, m.n, si>>

\* ------------------------------------------------------------------- laws
\* between the programs nothing of an evaluation is left over
RestLaw == m.c.k = "idle" => m.K = <<>> /\ ~m.S[1].lval /\ ~m.S[1].ineval /\ m.S[1].next = 0
                             /\ \A i \in 2..Len(m.S) : m.S[i].prev = 0 /\ m.S[i].next = 0
\* looking on changes nothing: what a program writes and answers is the same plain, traced and, for commands
\* that evaluate nothing, in the debugger (its first complete run)
Ending(r) == [out |-> r.own, tx |-> IF r.exc # "" THEN "EXCEPTION: " \o r.msg ELSE IF r.ty = "null" THEN "" ELSE r.tx]
Observers == T.mode = "tri" /\ m.c.k = "idle" /\ \A i \in DOMAIN res : ~IsUnknown(res[i])
ObserverLaw == /\ Observers /\ Len(res) >= 2 => Ending(res[1]) = Ending(res[2])
               /\ Observers /\ Len(res) = 3 /\ T.pure /\ m.dbg.first.done => m.dbg.first.end = Ending(res[1])
\* a dictionary has at most one value per key, the keys are in order
DictLaw == \A d \in DOMAIN m.D : \A i \in 2..Len(m.D[d]) : KeyOpaque(m.D[d][i][1]) \/ KeyLess(m, m.D[d][i - 1][1], m.D[d][i][1])
\* the active calls form one chain: every caller knows the call it waits for
ChainLaw == \A i \in DOMAIN m.S : m.S[i].next # 0 => m.S[m.S[i].next].prev = i
Laws == RestLaw /\ ObserverLaw /\ DictLaw /\ ChainLaw

\* what one step may change at most (the first two are compared by the elements that were there before)
Changed(a, b) == {i \in DOMAIN a : a[i] # b[i]}
One(a, b) == Len(b) >= Len(a) /\ (SubSeq(b, 1, Len(a)) = a \/ Cardinality(Changed(a, b)) = 1)
Stepping == m.c.k # "idle" /\ m'.c.k # "idle" /\ cs' = cs /\ si' = si
            /\ ~(AtDbg /\ Top1(m).f \in {"dloop", "dlempty", "cli", "cliend"})                 \* the debugger and the command line start programs over in a fresh machine
CellLaw == Stepping => One(m.H, m'.H)                    \* one list is changed by an operation on it, no other
StoreLaw == Stepping => One(m.D, m'.D)                   \* the same of dictionaries
ClosureLaw == Stepping => Len(m'.C) >= Len(m.C) /\ SubSeq(m'.C, 1, Len(m.C)) = m.C     \* a function never changes
BindingLaw == Stepping => /\ Len(m'.S) >= Len(m.S)        \* one step defines, assigns or deletes in one scope
                          /\ Cardinality({i \in DOMAIN m.S : m.S[i].vars # m'.S[i].vars}) <= 1
OutputLaw == Stepping => StartsWith(m'.out, m.out)       \* what is written stays written
InputLaw == Stepping => Len(m'.inp) <= Len(m.inp) /\ m'.inp = SubSeq(m.inp, Len(m.inp) - Len(m'.inp) + 1, Len(m.inp))   \* lines are read in order
StepLaws == CellLaw /\ StoreLaw /\ ClosureLaw /\ BindingLaw /\ OutputLaw /\ InputLaw
StepProperty == [][StepLaws]_vars
=============================================================================
