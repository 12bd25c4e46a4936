CONSTANTS
 EndsSet <- AllEnds
 Caps = {0, 1}
 MaxCredit = 9
 MaxRelease = 9
 MaxScript = 5
SPECIFICATION ScriptSpec
INVARIANTS Prompt Emit
CHECK_DEADLOCK FALSE
