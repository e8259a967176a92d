SPECIFICATION FairSpec
INVARIANT TypeOK NothingLeft OnlyComplete Honest
PROPERTY Ends NoMore
CHECK_DEADLOCK FALSE
