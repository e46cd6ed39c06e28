SPECIFICATION CSpec
CONSTANT Judge <- StartJudge
