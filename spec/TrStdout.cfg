SPECIFICATION CSpec
CONSTANT Judge <- StdoutFails
