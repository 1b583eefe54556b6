------------------------------- MODULE MCProx -------------------------------
(* Configurations of Prox: sets of option records.  Each gives the budgets and *)
(* switches of the solve and the answers the components may choose from.       *)
EXTENDS Prox

Base == [maxNewton |-> 2, maxProx |-> 2, maxInner |-> 2, maxLS |-> 2, nonmono |-> FALSE, feas |-> FALSE, stall |-> 0,
         tolmax |-> 256, start |-> <<0, 0>>, E0s |-> {Tabs + 8}, Es |-> {"lt"}, Is |-> {"big"}, Ts |-> {"tie"}, dvs |-> {0}, fails |-> {}, verdicts |-> {"SUCCESS"}]

With(r, f) == f @@ r
AnyVerdict == {"SUCCESS", "PRIMAL_INFEASIBLE", "DUAL_INFEASIBLE", "PRIMAL_DUAL_INFEASIBLE"}

\* Line search: every accept/reject pattern, both sides of every tie.
LineN(mn, mls) == {With(Base, [nonmono |-> b, maxLS |-> ls, maxInner |-> mi, maxNewton |-> mn, maxProx |-> 1,
                     Is |-> {"big", "big2"}, Ts |-> {"tie", "tie1", "tol", "more"}]) : b \in BOOLEAN, ls \in 1..mls, mi \in 2..3}
Line == LineN(2, 3)
LineDeep == LineN(3, 3)
\* The memory of the nonmonotone search: long subproblems, and its end with the subproblem.
WindowN(m) == {With(Base, [nonmono |-> TRUE, maxLS |-> 1, maxInner |-> q, maxNewton |-> 7, maxProx |-> 2, Is |-> {"big"}, Ts |-> {"tie", "tie1", "more"}]) : q \in m}
Window == WindowN({4, 7})
WindowDeep == WindowN(2..7)
\* Inner stopping rule, outer residual, tolerance schedule.
StopN(mns) == {With(Base, [maxNewton |-> mn, maxProx |-> 3, maxInner |-> 2, maxLS |-> 1, tolmax |-> tm, E0s |-> {e0},
                     Es |-> {"lt", "eq", "T", "T1"}, Is |-> {"min", "min1", "tol", "tol1"}, Ts |-> {"tol", "tol1", "tie1"}]) : tm \in {4, 64, 1024}, e0 \in {Tabs, 600}, mn \in mns}
\* The cap of the subproblem tolerance by a residual that fell by much.
Cap(mn) == {With(Base, [maxNewton |-> mn, maxProx |-> 3, maxInner |-> 2, maxLS |-> 1, tolmax |-> 4000, E0s |-> {4000},
                     Es |-> {"lt", "T1"}, Is |-> {"min1", "tol", "tol1"}, Ts |-> {"tol", "tol1"}])}
Stop == StopN({2}) \cup Cap(3)
StopDeep == StopN({2, 3}) \cup Cap(4)
\* Timeouts: projection, equal and larger residuals, guesses with negative duals.
TimeN(mns) == {With(Base, [maxNewton |-> mn, maxProx |-> 3, maxInner |-> mi, maxLS |-> 1, start |-> <<0, s>>, E0s |-> {Tabs, Tabs + 8, 700},
                     Es |-> {"lt", "eq", "gt", "T"}, Is |-> {"min", "tol", "big"}, Ts |-> {"tol", "tie"}, dvs |-> {0, -8}]) : mn \in mns, mi \in 1..2, s \in {0, -1}}
Time == TimeN({1, 2})
TimeDeep == TimeN({1, 2, 3})
\* Feasibility verdicts, failures, stalls.
FeasN(mn, mps) == {With(Base, [maxNewton |-> mn, maxProx |-> mp, maxInner |-> 2, maxLS |-> 1, feas |-> f, stall |-> st, E0s |-> {700},
                     Es |-> {"lt", "T"}, Is |-> {"tol", "tol1"}, Ts |-> {"tol", "tie1"}, dvs |-> {0, -8}, fails |-> {"init", "solve"},
                     verdicts |-> AnyVerdict]) : f \in BOOLEAN, st \in {0, 4, 8, 128, 2000}, mp \in mps}
Feas == FeasN(3, {2})
FeasDeep == FeasN(4, {2, 3})

\* For simulation: everything at once, larger budgets.
WildN(fs, vs) == {With(Base, [maxNewton |-> mn, maxProx |-> mp, maxInner |-> mi, maxLS |-> ls, nonmono |-> b, feas |-> TRUE, stall |-> st, tolmax |-> tm, start |-> <<0, s>>,
                     E0s |-> {Tabs + 8, 700}, Es |-> es, Is |-> is, Ts |-> {"tie", "tie1", "tol", "tol1", "more"},
                     dvs |-> {0, -8}, fails |-> fs, verdicts |-> vs]) :
           mn \in {5, 7}, mp \in {2, 4}, mi \in {2, 3, 7}, ls \in 1..3, b \in BOOLEAN, st \in {0, 8}, tm \in {4, 512}, s \in {0, -1},
           es \in {{"lt"}, {"lt", "eq", "gt"}, {"lt", "gt", "T1"}, {"lt", "T"}}, is \in {{"big", "big2", "tol1"}, {"min", "tol", "tol1", "big"}}}
Wild == WildN({}, {"SUCCESS"})
WildEnd == WildN({"init", "solve"}, AnyVerdict)

Quick == Line \cup Window \cup Stop \cup Time \cup Feas
All == LineDeep \cup WindowDeep \cup StopDeep \cup TimeDeep \cup FeasDeep
=============================================================================
