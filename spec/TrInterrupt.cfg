SPECIFICATION CSpec
CONSTANT Judge <- InterruptFails
