SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Alphabet = {36, 37, 123, 125, 34, 92, 97, 10, 13}
INVARIANTS MarkersBack NoMarkers StringBack LiteralBack HeredocBack PlainText Templates Gen
CHECK_DEADLOCK FALSE
