CONSTANTS Objects = {1, 2} Draws = {1, 2} Views = {1, 2}
SPECIFICATION CSpec
CONSTANT Judge <- SessionFails
