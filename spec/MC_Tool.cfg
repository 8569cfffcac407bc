SPECIFICATION Spec
VIEW Kept
CONSTRAINT WithinBounds
INVARIANT CacheIsClosed
PROPERTIES OnlyAllowAdds UnreadableIsKept CacheOnlyGrows KindsOnlyByCaching FailureKeeps NeverAskedTwice Apart
CHECK_DEADLOCK FALSE
