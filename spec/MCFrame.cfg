SPECIFICATION Spec
INVARIANTS PathIndependent Rigid Centre Sun Proper
CHECK_DEADLOCK FALSE
