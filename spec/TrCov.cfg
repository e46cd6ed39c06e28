SPECIFICATION CSpec
CONSTANT Judge <- CovJudge
