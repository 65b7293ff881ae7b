SPECIFICATION TSpec
CONSTRAINT Record
POSTCONDITION AllChecked
CHECK_DEADLOCK FALSE
