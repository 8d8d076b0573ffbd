SPECIFICATION Spec
CONSTANTS Threads = {1, 2} MaxSteps = 3
INVARIANTS Faithful OneLine Prompt0 AllAtEnd
CHECK_DEADLOCK FALSE
