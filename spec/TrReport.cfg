SPECIFICATION CSpec
CONSTANT Judge <- RJudge
