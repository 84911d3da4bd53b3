SPECIFICATION KSpec
INVARIANTS LinkOk Matched Right
PROPERTIES Ends NoBackup
CHECK_DEADLOCK FALSE
CONSTANTS
  Sym = 2
  TextLen = 5
  PatLen = 4
