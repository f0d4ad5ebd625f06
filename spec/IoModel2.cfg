SPECIFICATION Spec
CONSTANTS Docs = {1, 2, 3, 4, 5, 6}
 Pieces = {1, 2, 3}
 MaxInts = 2
 MaxLen = 3
 Letters = {0, 65, 127, 128, 233, 2047, 2048, 20320, 55295, 57344, 65535, 65536, 1114111}
 FewBytes = {65, 128, 159, 160, 191, 192, 194, 224, 237, 239, 240, 244, 245}
INVARIANTS Delivered Complete SameText Canonical Once Gen
CHECK_DEADLOCK FALSE
