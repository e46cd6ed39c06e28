SPECIFICATION CSpec
CONSTANT Judge <- OpFails
