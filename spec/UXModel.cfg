SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Conservation DepartOnTime Spaced Fifo NoOvertake SpeedRange Windows Closed NodeWindow Storage OriginFifo PlanKept Connected PrefSums ActualTimes
PROPERTIES LifeCycle Monotone FreeIfAlone NeverBack GreenOnly WorkConserving PriorityKept
