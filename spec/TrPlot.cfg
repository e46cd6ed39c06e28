SPECIFICATION CSpec
CONSTANT Judge <- PlotFails
