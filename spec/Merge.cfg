SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Sequential Faithful NothingInvented Coldness ColdFirst
