SPECIFICATION MCSpec
CONSTANTS Depth = 3
          MaxNodes = 6
VIEW View
CONSTRAINT Bounded
INVARIANT Structure
INVARIANT EqualityOk
CHECK_DEADLOCK FALSE
