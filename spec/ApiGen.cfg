CONSTANTS
  TLe <- GLe
  TAdd <- GAdd
  TRound <- GRound
  TMilli <- GMilli
  TSecond <- GSecond
  DefaultTimeout <- GTen
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
