SPECIFICATION CSpec
CONSTANT Judge <- LensFails
