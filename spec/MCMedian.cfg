SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxW = 3
  MaxH = 3
  MaxR = 2
  Vals = {0, 1}
INVARIANTS HistIsWindow OutIsMedian DoneIsTotal
