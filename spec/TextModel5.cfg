SPECIFICATION Spec
CONSTANTS MaxLen = 5
 Alphabet = {36, 37, 123, 125, 34, 92, 97, 10, 13, 7, 126}
INVARIANTS MarkersBack NoMarkers StringBack LiteralBack HeredocBack PlainText Templates Gen
CHECK_DEADLOCK FALSE
