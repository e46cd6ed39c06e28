SPECIFICATION Spec
PROPERTIES Balanced
