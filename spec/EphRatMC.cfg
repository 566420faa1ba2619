SPECIFICATION Spec
CONSTANTS N = 4  Toes = {1200, 2400, 1197, 2397, 2393, 3597, 4800}
INVARIANTS SameSets KeysAreBegins UploadCuts OnlyShorter NoUploadNoChange Twice
CHECK_DEADLOCK FALSE
