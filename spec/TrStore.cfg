CONSTANTS Samplers = {1, 2} Files = {1, 2, 3}
SPECIFICATION CSpec
CONSTANT Judge <- StoreFails
