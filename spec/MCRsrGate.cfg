CONSTANT Depth = 6
SPECIFICATION Spec
VIEW View
PROPERTIES NeverWithoutPermission NeverWhenCurrent DryRunChangesNothing ExplicitFileChangesNothing UpdateHelps
CHECK_DEADLOCK FALSE
