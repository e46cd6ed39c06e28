SPECIFICATION CSpec
CONSTANT Judge <- WeightFails
