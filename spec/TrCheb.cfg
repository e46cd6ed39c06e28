SPECIFICATION CSpec
CONSTANT Judge <- ChebFails
