-------------------------------- MODULE Prox --------------------------------
(* The control flow of FBstabAlgorithm::Solve over arbitrary components.       *)
(*                                                                             *)
(* The components (residual, linear solver, feasibility checker) are the       *)
(* environment: whatever they answer is chosen here, once per argument, and    *)
(* remembered, so that every behaviour of this module is a run of the          *)
(* algorithm over some component behaviour.  TLC enumerates them all within    *)
(* the bounds of a configuration, checks the invariants at the end, and writes *)
(* each behaviour down; harness/world.cc answers the real algorithm from the   *)
(* same tables and must end where the behaviour ends.                          *)
(*                                                                             *)
(* Units: residuals and tolerances are integers (1 = 2^-9); merits are         *)
(* compared as squares of norms, so that ties are exact.  A point is <<Z, V>>: *)
(* the n-th Newton direction is <<8*16^n, dv>>, so that points reached along   *)
(* different paths differ; V < 0 is what dual projection removes.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, IOUtils

CONSTANT Cases            \* the set of option records explored

VARIABLES o, pc, k, n, i, j, x, xk, step, tol, buf, E, I, D, V, out, last

vars == <<o, pc, k, n, i, j, x, xk, step, tol, buf, E, I, D, V, out, last>>

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Pow2(m) == 2 ^ m

\* Tables are sets of pairs.
Has(T, p) == \E e \in T : e[1] = p
At(T, p) == (CHOOSE e \in T : e[1] = p)[2]

Tmin == 4                  \* inner_tol_min
Tabs == 512                \* the termination tolerance (combined)

\* Armijo with eta = 7/32, beta = 1/2:  mp <= m0 - 2 t eta m  as squares of norms.
Accept(Np, M0, Nc, jj) == 16 * Pow2(jj) * (M0 - Np) * (M0 + Np) >= 7 * Nc * Nc
RECURSIVE Largest(_, _, _, _)
Largest(a, M0, Nc, jj) == IF Accept(a, M0, Nc, jj) THEN a ELSE Largest(a - 1, M0, Nc, jj)
MaxOf(s) == CHOOSE a \in {s[q] : q \in 1..Len(s)} : \A q \in 1..Len(s) : s[q] <= a

\* What an outer residual may be, given that of the current outer iterate.
EClass(c, Ek) == CASE c = "T" -> Tabs [] c = "T1" -> Tabs + 8 [] c = "lt" -> Ek - 8 [] c = "eq" -> Ek [] c = "gt" -> Ek + 8
EChoice(Ek) == {EClass(c, Ek) : c \in o.Es}
\* What the inner residual may be at a point that was not a trial point.
IClass(c, t) == CASE c = "min" -> Tmin [] c = "min1" -> Tmin + 1 [] c = "tol" -> t [] c = "tol1" -> t + 1 [] c = "big" -> 300 [] c = "big2" -> 400
IChoice(t) == {IClass(c, t) : c \in o.Is}
\* What it may be at a trial point: also on either side of the acceptance test.
TChoice(t, M0, Nc, jj) ==
  LET a == Largest(M0, M0, Nc, jj) IN
  {CASE c = "tie" -> a [] c = "tie1" -> a + 1 [] c = "more" -> Min2(2 * Nc, 2000) [] OTHER -> IClass(c, t) : c \in o.Ts}

Move(p, d, jj) == <<p[1] + (d[1] \div Pow2(jj)), p[2] + (d[2] \div Pow2(jj))>>
Project(p) == <<p[1], Max2(p[2], 0)>>
Dir(dv) == <<8 * 16 ^ n, dv>>

Start ==
  /\ pc = "start"
  /\ \E e \in o.E0s : E' = {<<xk, e>>} /\ tol' = Max2(Tmin, Min2(e, o.tolmax))
  /\ pc' = "top"
  /\ UNCHANGED <<o, k, n, i, j, x, xk, step, buf, I, D, V, out, last>>

Done(flag, p, res) ==
  /\ pc' = "done"
  /\ out' = [exc |-> 0, flag |-> flag, n |-> n, k |-> k, p |-> p, res |-> res]

Ek == At(E, xk)

\* The last outer step was no longer than stall_tol.
Stalled == k > 0 /\ Abs(step[1]) <= o.stall /\ Abs(step[2]) <= o.stall /\ step[1] * step[1] + step[2] * step[2] <= o.stall * o.stall

Top ==
  /\ pc = "top"
  /\ IF Ek <= Tabs \/ Stalled
     THEN Done("SUCCESS", xk, Ek) /\ UNCHANGED <<o, k, n, i, j, x, xk, step, tol, buf, E, I, D, V, last>>
     ELSE /\ tol' = Max2(Min2(tol \div 2, Ek), Tmin)
          /\ x' = xk /\ i' = 0 /\ buf' = <<>> /\ last' = 0
          /\ pc' = "inner"
          /\ UNCHANGED <<o, k, n, j, xk, step, E, I, D, V, out>>

\* Evaluate the residuals at x and decide whether the subproblem is solved.
Inner ==
  /\ pc = "inner"
  /\ i < o.maxInner
  /\ \E e \in (IF Has(E, x) THEN {At(E, x)} ELSE EChoice(Ek)) :
     \E a \in (IF Has(I, <<x, xk>>) THEN {At(I, <<x, xk>>)} ELSE IChoice(tol)) :
       /\ E' = E \cup {<<x, e>>}
       /\ I' = I \cup {<<<<x, xk>>, a>>}
       /\ IF (a <= tol /\ e < Ek) \/ a <= Tmin \/ n >= o.maxNewton
          THEN pc' = "project" /\ last' = 0 ELSE pc' = "newton" /\ last' = a
  /\ UNCHANGED <<o, k, n, i, j, x, xk, step, tol, buf, D, V, out>>

InnerBudget ==
  /\ pc = "inner" /\ i >= o.maxInner
  /\ pc' = "project"
  /\ UNCHANGED <<o, k, n, i, j, x, xk, step, tol, buf, E, I, D, V, out, last>>

\* Compute a direction, or fail.
Newton ==
  /\ pc = "newton"
  /\ \/ /\ \E dv \in o.dvs : D' = D \cup {<<<<x, xk>>, <<Dir(dv), "ok">>>>}
        /\ n' = n + 1
        /\ buf' = SubSeq(<<last>> \o buf, 1, Min2(5, Len(buf) + 1))
        /\ j' = 0 /\ pc' = "search"
        /\ UNCHANGED out
     \/ /\ \E f \in o.fails : D' = D \cup {<<<<x, xk>>, <<Dir(0), f>>>>}
        /\ pc' = "done" /\ out' = [exc |-> 1, flag |-> "NONE", n |-> n, k |-> k, p |-> xk, res |-> 0]
        /\ UNCHANGED <<n, buf, j>>
  /\ UNCHANGED <<o, k, i, x, xk, step, tol, E, I, V, last>>

Direction == At(D, <<x, xk>>)[1]
M0 == IF o.nonmono THEN MaxOf(buf) ELSE last

\* One trial step of length 2^-j.
Search ==
  /\ pc = "search"
  /\ IF j >= o.maxLS
     THEN x' = Move(x, Direction, o.maxLS) /\ i' = i + 1 /\ pc' = "inner" /\ UNCHANGED <<j, I>>
     ELSE LET p == Move(x, Direction, j) IN
          \E a \in TChoice(tol, M0, last, j) :
            /\ I' = I \cup {<<<<p, xk>>, a>>}
            /\ IF Accept(a, M0, last, j)
               THEN x' = p /\ i' = i + 1 /\ pc' = "inner" /\ UNCHANGED j
               ELSE j' = j + 1 /\ UNCHANGED <<x, i, pc>>
  /\ UNCHANGED <<o, k, n, xk, step, tol, buf, E, D, V, out, last>>

\* The end of a subproblem.
Proj ==
  /\ pc = "project"
  /\ x' = Project(x)
  /\ \E e \in (IF Has(E, Project(x)) THEN {At(E, Project(x))} ELSE EChoice(Ek)) : E' = E \cup {<<Project(x), e>>}
  /\ pc' = "after"
  /\ UNCHANGED <<o, k, n, i, j, xk, step, tol, buf, I, D, V, out, last>>

Diff == <<x[1] - xk[1], x[2] - xk[2]>>

After ==
  /\ pc = "after"
  /\ IF n >= o.maxNewton
     THEN LET p == IF At(E, x) < Ek THEN x ELSE xk IN
          /\ Done("MAXITERATIONS", p, At(E, p))
          /\ UNCHANGED <<k, xk, step, V>>
     ELSE \E v \in (IF o.feas THEN o.verdicts ELSE {"SUCCESS"}) :
          /\ V' = V \cup {<<Diff, v>>}
          /\ IF v # "SUCCESS"
             THEN Done(v, Diff, At(E, x)) /\ UNCHANGED <<k, xk, step>>
             ELSE /\ xk' = x /\ step' = Diff
                  /\ k' = k + 1
                  /\ IF k + 1 >= o.maxProx
                     THEN pc' = "done" /\ out' = [exc |-> 0, flag |-> "MAXITERATIONS", n |-> n, k |-> k + 1, p |-> x, res |-> At(E, x)]
                     ELSE pc' = "top" /\ UNCHANGED out
  /\ UNCHANGED <<o, n, i, j, x, tol, buf, E, I, D, last>>

\* Write the finished behaviour down.
Record ==
  /\ pc = "done"
  /\ pc' = "written"
  /\ CSVWrite("%1$s", <<ToString(<<<<o.maxNewton, o.maxProx, o.maxInner, o.maxLS, o.nonmono, o.feas, o.stall, o.tolmax>>, o.start, E, I, D, V, <<out.exc, out.flag, out.n, out.k, out.p, out.res>>>>)>>, IOEnv.BEHAVIOURS)
  /\ UNCHANGED <<o, k, n, i, j, x, xk, step, tol, buf, E, I, D, V, out, last>>

Init ==
  /\ o \in Cases
  /\ pc = "start" /\ k = 0 /\ n = 0 /\ i = 0 /\ j = 0
  /\ xk = o.start /\ x = xk /\ step = <<0, 0>> /\ tol = 0 /\ buf = <<>>
  /\ E = {} /\ I = {} /\ D = {} /\ V = {} /\ last = 0
  /\ out = [exc |-> 0, flag |-> "NONE", n |-> 0, k |-> 0, p |-> xk, res |-> 0]

Next == Start \/ Top \/ Inner \/ InnerBudget \/ Newton \/ Search \/ Proj \/ After \/ Record

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Ended == pc \in {"done", "written"}
Finite == <>(pc = "written")

\* C01
SuccessIsEarned == Ended /\ out.flag = "SUCCESS" => At(E, out.p) <= Tabs \/ Stalled
\* C02
ResidualIsOfReturned == Ended /\ out.flag \in {"SUCCESS", "MAXITERATIONS"} => out.res = At(E, out.p)
DualsProjected == Ended /\ out.flag \in {"SUCCESS", "MAXITERATIONS"} /\ out.k > 0 => out.p[2] >= 0
\* C03
Verdicts == Ended /\ out.exc = 0 /\ out.flag \notin {"SUCCESS", "MAXITERATIONS"} => o.feas /\ <<out.p, out.flag>> \in V
\* C05
Budgets == n <= o.maxNewton /\ k <= o.maxProx /\ i <= o.maxInner
TimeoutIsEarned == Ended /\ out.flag = "MAXITERATIONS" => n = o.maxNewton \/ k = o.maxProx
Counts == Ended => out.n = n /\ n = Cardinality({d \in D : d[2][2] = "ok"})
\* C06
TimeoutReturnsBetter ==
  Ended /\ out.flag = "MAXITERATIONS" /\ n = o.maxNewton /\ out.k < o.maxProx
    => \A p \in {x, xk} : out.res <= At(E, p)
\* C19
WarmStart == Ended /\ At(E, o.start) <= Tabs => out.flag = "SUCCESS" /\ n = 0 /\ k = 0 /\ out.p = o.start
\* C20
StepsAreSearched ==
  pc = "search" /\ j > 0 => \A q \in 0..j-1 : ~Accept(At(I, <<Move(x, Direction, q), xk>>), M0, last, q)
\* C21
FailureThrows == Ended => (out.exc = 1 <=> \E d \in D : d[2][2] # "ok")
=============================================================================
