SPECIFICATION CSpec
CONSTANT Judge <- CredFails
