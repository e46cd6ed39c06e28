SPECIFICATION CSpec
CONSTANT Judge <- WavFails
