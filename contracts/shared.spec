Contracts of pkg/shared: the size helpers.

//@ func shared.ControlByteToSize(ctrl) (result)
//@ level leaf
//@ ensures[size] result == SZ(ctrl)

//@ func shared.ControlByteToSizeTwo(ctrl) (result)
//@ level composite
//@ ensures[size] result == SZ(LO(ctrl)) + SZ(HI(ctrl))
