INIT Init
NEXT Next
VIEW At
CHECK_DEADLOCK FALSE
