SPECIFICATION Spec
CONSTANTS MaxLines = 3
INVARIANTS Crlf Unterminated Comments Cases Untouched Sections Last Agree Lenient Loud Typed WriteInv
CHECK_DEADLOCK FALSE
