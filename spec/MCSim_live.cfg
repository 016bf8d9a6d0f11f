SPECIFICATION Spec
CONSTANTS N = 2
          T = 3
          EMIT = 0
INVARIANTS WarmupIsLog FutureBlank UncontrolledReplay TimestampsFromLog BodyCarried NoResurrection ControlledPersist UncontrolledFollowsLog InjectionFollowsLog ControlStable ClockInRange ExactLength StepsTaken
PROPERTIES AppendOnly ControlledObey Finishes
CHECK_DEADLOCK FALSE
