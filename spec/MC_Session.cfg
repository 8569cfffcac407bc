SPECIFICATION Spec
VIEW Kept
INVARIANTS Acyclic Shaped
PROPERTIES RunsAddUp DocsAddUp OnlyAnchorsBind ScopesStay
CHECK_DEADLOCK FALSE
