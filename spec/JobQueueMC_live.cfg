SPECIFICATION Live
CONSTANTS Jobs = 2
          AsyncWorkers = {"a", "b"}
          Keep = 1
          Crashes = 1
PROPERTIES AllRun
CHECK_DEADLOCK FALSE
