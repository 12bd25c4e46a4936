CONSTANTS
 EndsSet <- AllEnds
 Caps = {0, 1}
 MaxCredit = 5
 MaxRelease = 5
 MaxScript = 0
SPECIFICATION Spec
INVARIANTS Confluent Delivers Prompt
PROPERTY PromptLive
VIEW View
CHECK_DEADLOCK FALSE
