SPECIFICATION Spec
INVARIANTS NotForced NothingLost NoTrace RaisedKeeps DoneIsNew Polite Export
PROPERTIES Ends Refines
CHECK_DEADLOCK FALSE
