INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Idempotent
INVARIANT Sound
INVARIANT OwnAliasFound
INVARIANT DirectWins
INVARIANT TranslateOnce
