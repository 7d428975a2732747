SPECIFICATION MCSpec
CONSTANT MinCommon <- MinCommonHere
INVARIANT ObjectsPartition
INVARIANT GroupsPartition
INVARIANT ImagesInOneObject
INVARIANT ObjectsAreConnected
INVARIANT SharedViewsInOneGroup
INVARIANT GroupsAreConnected
INVARIANT SeenTogetherMerged
INVARIANT MergeIdempotent
INVARIANT OutcomesAgree
INVARIANT BestPathsExist
INVARIANT Out
PROPERTY NeverSplit
CHECK_DEADLOCK FALSE
