SPECIFICATION TSpec
CONSTANTS Kinds = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16}
          DropKinds = {0,2,4,5,6,8,9,14,15,16}
          ZeroKinds = {6,7,8}
VIEW View
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
