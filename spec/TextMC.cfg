SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Alphabet = {"a", "b", " "}
INVARIANTS WordsLaws StripLaws ChangeLaws JustLaws MatchLaws FieldLaws WrapLaws
CHECK_DEADLOCK FALSE
