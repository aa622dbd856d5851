SPECIFICATION Fair
CHECK_DEADLOCK FALSE
INVARIANT Honest NoRepeat Complete Counted
PROPERTY Ends
