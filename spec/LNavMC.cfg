SPECIFICATION Spec
INVARIANTS PagingFollowsCount EveryPageNamed
CHECK_DEADLOCK FALSE
