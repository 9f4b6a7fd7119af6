SPECIFICATION Spec
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
CONSTANTS
  TLe <- TLe3
  TAdd <- TAdd3
  TRound <- TRound3
  TMilli <- TMilli3
  TSecond <- TSecond3
  DefaultTimeout <- Timeout3
