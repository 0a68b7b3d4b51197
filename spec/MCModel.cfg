SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT TemplateIsExact SpeakOfParameters NoContradiction BoundsOnlyOfSds DefaultsAreDefaults Nested UpdatesAreOrdered
