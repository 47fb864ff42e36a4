CONSTANTS Threads = 2
Steps = 2
Alphabet = "mix"
SPECIFICATION MSpec
CONSTRAINT AllBounded
INVARIANTS Closed SnapshotsClosed SnapshotsPrefix VarsMeanIt Counts ExactlyOnce DistinctIds ProgramOrder NeverStuck
PROPERTIES Growing
CHECK_DEADLOCK FALSE
