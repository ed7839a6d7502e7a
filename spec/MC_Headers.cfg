SPECIFICATION Spec
CONSTANTS NameSet = {1, 2}
 ValSet = {1, 2}
 MaxVals = 2
INVARIANTS Local AddKeeps SetAffectsAll DelAffectsAll LookupsChangeNothing AddKeepsFirst
CHECK_DEADLOCK FALSE
