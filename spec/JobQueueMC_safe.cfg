SPECIFICATION Spec
CONSTANTS Jobs = 3
          AsyncWorkers = {"a", "b"}
          Keep = 2
          Crashes = 2
INVARIANTS NoneLost OneWorker Once InOrder ClaimedInOrder History
CHECK_DEADLOCK FALSE
