SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxSteps = 2
 Wide = TRUE
INVARIANTS SelectedExist TreeShaped SavingKeeps Toggling NoSelectionNoEdit OnlySelected MoreIsSelectTwice Inserted
