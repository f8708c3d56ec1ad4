CONSTANTS Alpha = {97, 66, 44, 32, 9} N = 6
SPECIFICATION Spec
INVARIANTS FieldsJoin FieldsClean WordsClean WordsTrim WordsLetters TrimIs UpperIs
CHECK_DEADLOCK FALSE
