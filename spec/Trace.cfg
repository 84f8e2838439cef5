SPECIFICATION TSpec
CONSTANT Prop <- TraceProp
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
