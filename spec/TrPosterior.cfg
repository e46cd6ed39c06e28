SPECIFICATION CSpec
CONSTANT Judge <- PJudge
