SPECIFICATION Spec
CONSTANTS N = 2
          T = 3
          EMIT = 1
INVARIANTS WarmupIsLog FutureBlank UncontrolledReplay TimestampsFromLog BodyCarried NoResurrection ControlledPersist UncontrolledFollowsLog InjectionFollowsLog ControlStable ClockInRange ExactLength StepsTaken
PROPERTIES AppendOnly ControlledObey
CHECK_DEADLOCK FALSE
