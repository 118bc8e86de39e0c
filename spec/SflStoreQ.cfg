SPECIFICATION Spec
CONSTANTS
  MaxC = 4
  Names = {"vector", "compact_vector", "small_vector", "static_vector", "segmented_vector", "devector", "segmented_devector"}
INVARIANTS Struct Answered Promised FitsInline
PROPERTIES NoGiveBack StaysInline Kept KeptBack KeptFront
CHECK_DEADLOCK FALSE
