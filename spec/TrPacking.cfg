SPECIFICATION CSpec
CONSTANT Judge <- PackFails
