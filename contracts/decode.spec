Contracts of pkg/decode.

  DEC(s,c,j)     integer j of the group with control byte c whose data start at s[0]
  DSUM(s,c,p,j)  p + DEC(s,c,0) + ... + DEC(s,c,j) modulo 2^32

---- groups of four, portable
//@ func decode.Get4uint32Scalar(in, out, ctrl)
//@ level leaf
//@ split ctrl in 0..255
//@ requires[panic] len(in) >= SZ(ctrl)
//@ requires[panic] len(out) >= 4
//@ modifies out[0:4]
//@ ensures forall j in 0..4 :: out[j] == DEC(in, ctrl, j)

//@ func decode.Get4uint32DeltaScalar(in, out, ctrl, prev)
//@ level leaf
//@ split ctrl in 0..255
//@ requires[panic] len(in) >= SZ(ctrl)
//@ requires[panic] len(out) >= 4
//@ modifies out[0:4]
//@ ensures forall j in 0..4 :: out[j] == DSUM(in, ctrl, prev, j)

---- partial groups
//@ func decode.GetUint32Scalar(in, out, ctrl, count) (result)
//@ level leaf
//@ split count in 0..4,else
//@ split ctrl in 0..255
//@ requires count >= 0
//@ requires[panic] len(in) >= PSZ(ctrl, min(count, 4))
//@ requires[panic] len(out) >= min(count, 4)
//@ modifies out[0:min(count, 4)]
//@ ensures[size] result == PSZ(ctrl, min(count, 4))
//@ ensures forall j in 0..min(count, 4) :: out[j] == DEC(in, ctrl, j)

//@ func decode.GetUint32DeltaScalar(in, out, ctrl, count, prev) (result)
//@ level leaf
//@ split count in 0..4,else
//@ split ctrl in 0..255
//@ requires count >= 0
//@ requires[panic] len(in) >= PSZ(ctrl, min(count, 4))
//@ requires[panic] len(out) >= min(count, 4)
//@ modifies out[0:min(count, 4)]
//@ ensures[size] result == PSZ(ctrl, min(count, 4))
//@ ensures forall j in 0..min(count, 4) :: out[j] == DSUM(in, ctrl, prev, j)

---- groups of eight, portable
//@ func decode.Get8uint32Scalar(in, out, ctrl)
//@ level composite
//@ requires[panic] len(in) >= SZ(LO(ctrl)) + SZ(HI(ctrl))
//@ requires[panic] len(out) >= 8
//@ modifies out[0:8]
//@ ensures forall j in 0..4 :: out[j] == DEC(in, LO(ctrl), j)
//@ ensures forall j in 0..4 :: out[4:][j] == DEC(in[SZ(LO(ctrl)):], HI(ctrl), j)

//@ func decode.Get8uint32DeltaScalar(in, out, ctrl, prev)
//@ level composite
//@ requires[panic] len(in) >= SZ(LO(ctrl)) + SZ(HI(ctrl))
//@ requires[panic] len(out) >= 8
//@ modifies out[0:8]
//@ ensures forall j in 0..4 :: out[j] == DSUM(in, LO(ctrl), prev, j)
//@ ensures forall j in 0..4 :: out[4:][j] == DSUM(in[SZ(LO(ctrl)):], HI(ctrl), DSUM(in, LO(ctrl), prev, 3), j)

---- groups of eight, accelerated
//@ func decode.Get8uint32FastAsm(in, out, ctrl, shuffle, lenTable)
//@ level asm
//@ arch amd64
//@ cpu instructions(decode)
//@ requires[mem] len(in) >= SZ(LO(ctrl)) + 16
//@ requires[mem] len(out) >= 8
//@ requires[func] DECTABLE(shuffle)
//@ requires LENTABLE(lenTable)
//@ modifies out[0:8]
//@ ensures forall j in 0..4 :: out[j] == DEC(in, LO(ctrl), j)
//@ ensures forall j in 0..4 :: out[4:][j] == DEC(in[SZ(LO(ctrl)):], HI(ctrl), j)

//@ func decode.Get8uint32DeltaFastAsm(in, out, ctrl, prev, shuffle, lenTable)
//@ level asm
//@ arch amd64
//@ cpu instructions(decode)
//@ requires[mem] len(in) >= SZ(LO(ctrl)) + 16
//@ requires[mem] len(out) >= 8
//@ requires[func] DECTABLE(shuffle)
//@ requires LENTABLE(lenTable)
//@ modifies out[0:8]
//@ ensures forall j in 0..4 :: out[j] == DSUM(in, LO(ctrl), prev, j)
//@ ensures forall j in 0..4 :: out[4:][j] == DSUM(in[SZ(LO(ctrl)):], HI(ctrl), DSUM(in, LO(ctrl), prev, 3), j)

//@ func decode.Get8uint32Fast(in, out, ctrl)
//@ level composite
//@ arch amd64
//@ cpu instructions(decode)
//@ requires[mem] len(in) >= SZ(LO(ctrl)) + 16
//@ requires[mem] len(out) >= 8
//@ modifies out[0:8]
//@ ensures forall j in 0..4 :: out[j] == DEC(in, LO(ctrl), j)
//@ ensures forall j in 0..4 :: out[4:][j] == DEC(in[SZ(LO(ctrl)):], HI(ctrl), j)

//@ func decode.Get8uint32DeltaFast(in, out, ctrl, prev)
//@ level composite
//@ arch amd64
//@ cpu instructions(decode)
//@ requires[mem] len(in) >= SZ(LO(ctrl)) + 16
//@ requires[mem] len(out) >= 8
//@ modifies out[0:8]
//@ ensures forall j in 0..4 :: out[j] == DSUM(in, LO(ctrl), prev, j)
//@ ensures forall j in 0..4 :: out[4:][j] == DSUM(in[SZ(LO(ctrl)):], HI(ctrl), DSUM(in, LO(ctrl), prev, 3), j)

---- groups of eight, general: whichever implementation was selected at start-up
//@ func decode.Get8uint32(in, out, ctrl)
//@ level composite
//@ requires[panic] len(in) >= SZ(LO(ctrl)) + 16
//@ requires[panic] len(out) >= 8
//@ modifies out[0:8]
//@ ensures forall j in 0..4 :: out[j] == DEC(in, LO(ctrl), j)
//@ ensures forall j in 0..4 :: out[4:][j] == DEC(in[SZ(LO(ctrl)):], HI(ctrl), j)

//@ func decode.Get8uint32Delta(in, out, ctrl, prev)
//@ level composite
//@ requires[panic] len(in) >= SZ(LO(ctrl)) + 16
//@ requires[panic] len(out) >= 8
//@ modifies out[0:8]
//@ ensures forall j in 0..4 :: out[j] == DSUM(in, LO(ctrl), prev, j)
//@ ensures forall j in 0..4 :: out[4:][j] == DSUM(in[SZ(LO(ctrl)):], HI(ctrl), DSUM(in, LO(ctrl), prev, 3), j)

---- mode: fast only if every instruction of the accelerated code is reported to be usable
//@ func decode.GetMode() (result)
//@ level mode
//@ ensures result == shared.Fast || result == shared.Normal
//@ ensures[cpu] result == shared.Fast ==> ISAMD64() && CPU(decode)
