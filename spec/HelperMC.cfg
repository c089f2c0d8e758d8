CONSTANTS Deep = 3
SPECIFICATION Spec
INVARIANTS OwnAnswer NotRetried Export
PROPERTIES FallbackOnly HealthyStays GivenUpStays
CHECK_DEADLOCK FALSE
