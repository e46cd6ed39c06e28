SPECIFICATION CSpec
CONSTANT Judge <- StepJudge
