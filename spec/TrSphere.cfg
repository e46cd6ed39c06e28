SPECIFICATION CSpec
CONSTANT Judge <- SphereFails
