SPECIFICATION SpecF
CONSTANTS
  Base = 4
  Size = 3
  Top <- MCTop
  MaxLen = 2
  Limit = 40
  MaxFlying = 2
INVARIANTS AllRecovered NewestRecovered AckedWasReceived
CHECK_DEADLOCK FALSE
