SPECIFICATION CSpec
CONSTANT Judge <- ProxJudge
