SPECIFICATION CSpec
CONSTANT Judge <- FetchFails
