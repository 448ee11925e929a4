SPECIFICATION CSpec
