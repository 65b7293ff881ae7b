SPECIFICATION TSpec
CONSTANT Comps = {1,2,3,4,5,6}
CONSTRAINT Record
POSTCONDITION AllChecked
CHECK_DEADLOCK FALSE
