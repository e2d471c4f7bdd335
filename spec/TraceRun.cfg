SPECIFICATION Spec
CONSTANT Cfg <- CfgDef
CHECK_DEADLOCK FALSE
