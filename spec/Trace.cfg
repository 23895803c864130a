SPECIFICATION TraceSpec
CONSTANTS
  TInit <- XInit
  TStep <- XStep
