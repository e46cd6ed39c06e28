SPECIFICATION Spec
CONSTANTS
  Step <- IStep
  MayAccept <- IMayAccept
  MayReject <- IMayReject
  Adapt <- IAdapt
  Report <- IReport
  MaxSamples = 2
  MaxBurn = 2
  MaxGap = 3
  MaxVerb = 3
INVARIANTS SavedAsScheduled CompleteWhenDone NeverTooLong AcceptanceHistory StaysInside StepSizeHistory LinesOnSchedule
