SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANT InUse <- JobScripts
CONSTANT Words <- TamilWords
