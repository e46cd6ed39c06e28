SPECIFICATION CSpec
CONSTANT Judge <- HelpFails
