SPECIFICATION Spec
CONSTANTS
  Step <- IStep
  MayAccept <- IMayAccept
  MayReject <- IMayReject
  Adapt <- IAdapt
  Report <- IReport
  MaxSamples = 3
  MaxBurn = 3
  MaxGap = 3
  MaxVerb = 3
INVARIANTS SavedAsScheduled CompleteWhenDone NeverTooLong AcceptanceHistory StaysInside StepSizeHistory LinesOnSchedule
