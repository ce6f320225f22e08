SPECIFICATION MCSpec
CONSTANTS Depth = 4
          MaxNodes = 5
VIEW View
CONSTRAINT Bounded
INVARIANT Structure
INVARIANT EqualityOk
CHECK_DEADLOCK FALSE
