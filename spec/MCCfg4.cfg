SPECIFICATION Spec
CONSTANTS MaxLines = 4
INVARIANTS Crlf Unterminated Comments Cases Untouched Sections Last Agree Lenient Loud Typed WriteInv
CHECK_DEADLOCK FALSE
