SPECIFICATION KSpec
INVARIANTS LinkOk Matched Right
PROPERTIES Ends NoBackup
CHECK_DEADLOCK FALSE
CONSTANTS
  Sym = 3
  TextLen = 5
  PatLen = 4
