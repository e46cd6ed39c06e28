SPECIFICATION Spec
CONSTANTS
  Step <- IStep
  MayAccept <- IMayAccept
  MayReject <- IMayReject
  Adapt <- IAdapt
  Report <- IReport
  MaxSamples = 2
  MaxBurn = 2
  MaxGap = 2
  MaxVerb = 1
PROPERTIES Terminates
