SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT FirstOnce RulesOfNewest ChangeOnlyAtFork
