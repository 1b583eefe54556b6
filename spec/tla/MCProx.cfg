SPECIFICATION Spec
CONSTANT Cases <- All
CHECK_DEADLOCK FALSE
INVARIANTS SuccessIsEarned ResidualIsOfReturned DualsProjected Verdicts Budgets TimeoutIsEarned Counts TimeoutReturnsBetter WarmStart StepsAreSearched FailureThrows
