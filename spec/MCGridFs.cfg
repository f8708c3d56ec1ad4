SPECIFICATION Spec
CONSTANTS MaxFaults = 6
 Torn = FALSE
 Cleanup = TRUE
 CheckRemove = TRUE
INVARIANTS Good NeverTorn LatestWins
PROPERTY Done
