SPECIFICATION Spec
CONSTANTS NameSet = {1, 2, 3}
 ValSet = {1, 2}
 MaxVals = 3
INVARIANTS Local AddKeeps SetAffectsAll DelAffectsAll LookupsChangeNothing AddKeepsFirst
CHECK_DEADLOCK FALSE
