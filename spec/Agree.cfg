SPECIFICATION ASpec
CONSTANT Prop <- TraceProp
CONSTRAINT Compare
POSTCONDITION Count
CHECK_DEADLOCK FALSE
