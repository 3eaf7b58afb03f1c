Contracts of pkg/encode.

  CT(s)      control byte of the four integers s[0..3]
  CTM(s,m)   the same for the first m integers, zero codes for the others
  CTD(s,p)   control byte of the differences s[0]-p, s[1]-s[0], ...
  PB(s,k)    byte k of the concatenated minimal little-endian bytes of s[0..3] (PBM, PBD, PBDM alike)
  SZ(c)      data bytes of a group with control byte c;  PSZ(c,m): of its first m integers

---- groups of four, portable
//@ func encode.Put4uint32Scalar(in, out) (result)
//@ level leaf
//@ split CODE(in, 4, 0) in 0..3
//@ split CODE(in, 4, 1) in 0..3
//@ split CODE(in, 4, 2) in 0..3
//@ split CODE(in, 4, 3) in 0..3
//@ requires[panic] len(in) >= 4
//@ requires[panic] len(out) >= SZ(CT(in))
//@ modifies out[0:SZ(CT(in))]
//@ ensures[size] result == CT(in)
//@ ensures forall k in 0..SZ(CT(in)) :: out[k] == PB(in, k)

//@ func encode.Put4uint32DeltaScalar(in, out, prev) (result)
//@ level leaf
//@ split CODED(in, 4, 0, prev) in 0..3
//@ split CODED(in, 4, 1, prev) in 0..3
//@ split CODED(in, 4, 2, prev) in 0..3
//@ split CODED(in, 4, 3, prev) in 0..3
//@ requires[panic] len(in) >= 4
//@ requires[panic] len(out) >= SZ(CTD(in, prev))
//@ modifies out[0:SZ(CTD(in, prev))]
//@ ensures[size] result == CTD(in, prev)
//@ ensures forall k in 0..SZ(CTD(in, prev)) :: out[k] == PBD(in, prev, k)

---- partial groups
//@ func encode.PutUint32Scalar(in, out, count) (result)
//@ level leaf
//@ split count in 0..4,else
//@ split CODE(in, min(count, 4), 0) in 0..3
//@ split CODE(in, min(count, 4), 1) in 0..3
//@ split CODE(in, min(count, 4), 2) in 0..3
//@ split CODE(in, min(count, 4), 3) in 0..3
//@ requires count >= 0
//@ requires[panic] len(in) >= min(count, 4)
//@ requires[panic] len(out) >= PSZ(CTM(in, min(count, 4)), min(count, 4))
//@ modifies out[0:PSZ(CTM(in, min(count, 4)), min(count, 4))]
//@ ensures[size] result == CTM(in, min(count, 4))
//@ ensures[size] PSZ(CTM(in, min(count, 4)), min(count, 4)) == SZ(CTM(in, min(count, 4))) - (4 - min(count, 4))
//@ ensures forall k in 0..PSZ(CTM(in, min(count, 4)), min(count, 4)) :: out[k] == PBM(in, min(count, 4), k)

//@ func encode.PutUint32DeltaScalar(in, out, count, prev) (result)
//@ level leaf
//@ split count in 0..4,else
//@ split CODED(in, min(count, 4), 0, prev) in 0..3
//@ split CODED(in, min(count, 4), 1, prev) in 0..3
//@ split CODED(in, min(count, 4), 2, prev) in 0..3
//@ split CODED(in, min(count, 4), 3, prev) in 0..3
//@ requires count >= 0
//@ requires[panic] len(in) >= min(count, 4)
//@ requires[panic] len(out) >= PSZ(CTDM(in, min(count, 4), prev), min(count, 4))
//@ modifies out[0:PSZ(CTDM(in, min(count, 4), prev), min(count, 4))]
//@ ensures[size] result == CTDM(in, min(count, 4), prev)
//@ ensures[size] PSZ(CTDM(in, min(count, 4), prev), min(count, 4)) == SZ(CTDM(in, min(count, 4), prev)) - (4 - min(count, 4))
//@ ensures forall k in 0..PSZ(CTDM(in, min(count, 4), prev), min(count, 4)) :: out[k] == PBDM(in, min(count, 4), prev, k)

---- groups of eight, portable
//@ func encode.Put8uint32Scalar(in, out) (result)
//@ level composite
//@ requires[panic] len(in) >= 8
//@ requires[panic] len(out) >= SZ(CT(in)) + SZ(CT(in[4:]))
//@ modifies out[0:SZ(CT(in)) + SZ(CT(in[4:]))]
//@ ensures[size] result == W16(CT(in), CT(in[4:]))
//@ ensures forall k in 0..SZ(CT(in)) :: out[k] == PB(in, k)
//@ ensures forall k in 0..SZ(CT(in[4:])) :: out[SZ(CT(in)):][k] == PB(in[4:], k)

//@ func encode.Put8uint32DeltaScalar(in, out, prev) (result)
//@ level composite
//@ requires[panic] len(in) >= 8
//@ requires[panic] len(out) >= SZ(CTD(in, prev)) + SZ(CTD(in[4:], in[3]))
//@ modifies out[0:SZ(CTD(in, prev)) + SZ(CTD(in[4:], in[3]))]
//@ ensures[size] result == W16(CTD(in, prev), CTD(in[4:], in[3]))
//@ ensures forall k in 0..SZ(CTD(in, prev)) :: out[k] == PBD(in, prev, k)
//@ ensures forall k in 0..SZ(CTD(in[4:], in[3])) :: out[SZ(CTD(in, prev)):][k] == PBD(in[4:], in[3], k)

---- groups of eight, accelerated
//@ func encode.Put8uint32FastAsm(in, out, shuffle, lenTable) (result)
//@ level asm
//@ arch amd64
//@ cpu instructions(encode)
//@ requires[mem] len(in) >= 8
//@ requires[mem] len(out) >= SZ(CT(in)) + 16
//@ requires[func] ENCTABLE(shuffle)
//@ requires LENTABLE(lenTable)
//@ modifies out[0:SZ(CT(in)) + 16]
//@ ensures[size] result == W16(CT(in), CT(in[4:]))
//@ ensures forall k in 0..SZ(CT(in)) :: out[k] == PB(in, k)
//@ ensures forall k in 0..SZ(CT(in[4:])) :: out[SZ(CT(in)):][k] == PB(in[4:], k)

//@ func encode.Put8uint32DeltaFastAsm(in, out, prev, shuffle, lenTable) (result)
//@ level asm
//@ arch amd64
//@ cpu instructions(encode)
//@ requires[mem] len(in) >= 8
//@ requires[mem] len(out) >= SZ(CTD(in, prev)) + 16
//@ requires[func] ENCTABLE(shuffle)
//@ requires LENTABLE(lenTable)
//@ modifies out[0:SZ(CTD(in, prev)) + 16]
//@ ensures[size] result == W16(CTD(in, prev), CTD(in[4:], in[3]))
//@ ensures forall k in 0..SZ(CTD(in, prev)) :: out[k] == PBD(in, prev, k)
//@ ensures forall k in 0..SZ(CTD(in[4:], in[3])) :: out[SZ(CTD(in, prev)):][k] == PBD(in[4:], in[3], k)

//@ func encode.Put8uint32Fast(in, out) (result)
//@ level composite
//@ arch amd64
//@ cpu instructions(encode)
//@ requires[mem] len(in) >= 8
//@ requires[mem] len(out) >= SZ(CT(in)) + 16
//@ modifies out[0:SZ(CT(in)) + 16]
//@ ensures[size] result == W16(CT(in), CT(in[4:]))
//@ ensures forall k in 0..SZ(CT(in)) :: out[k] == PB(in, k)
//@ ensures forall k in 0..SZ(CT(in[4:])) :: out[SZ(CT(in)):][k] == PB(in[4:], k)

//@ func encode.Put8uint32DeltaFast(in, out, prev) (result)
//@ level composite
//@ arch amd64
//@ cpu instructions(encode)
//@ requires[mem] len(in) >= 8
//@ requires[mem] len(out) >= SZ(CTD(in, prev)) + 16
//@ modifies out[0:SZ(CTD(in, prev)) + 16]
//@ ensures[size] result == W16(CTD(in, prev), CTD(in[4:], in[3]))
//@ ensures forall k in 0..SZ(CTD(in, prev)) :: out[k] == PBD(in, prev, k)
//@ ensures forall k in 0..SZ(CTD(in[4:], in[3])) :: out[SZ(CTD(in, prev)):][k] == PBD(in[4:], in[3], k)

---- groups of eight, general: whichever implementation was selected at start-up
//@ func encode.Put8uint32(in, out) (result)
//@ level composite
//@ requires[panic] len(in) >= 8
//@ requires[panic] len(out) >= SZ(CT(in)) + 16
//@ modifies out[0:SZ(CT(in)) + 16]
//@ ensures[size] result == W16(CT(in), CT(in[4:]))
//@ ensures forall k in 0..SZ(CT(in)) :: out[k] == PB(in, k)
//@ ensures forall k in 0..SZ(CT(in[4:])) :: out[SZ(CT(in)):][k] == PB(in[4:], k)

//@ func encode.Put8uint32Delta(in, out, prev) (result)
//@ level composite
//@ requires[panic] len(in) >= 8
//@ requires[panic] len(out) >= SZ(CTD(in, prev)) + 16
//@ modifies out[0:SZ(CTD(in, prev)) + 16]
//@ ensures[size] result == W16(CTD(in, prev), CTD(in[4:], in[3]))
//@ ensures forall k in 0..SZ(CTD(in, prev)) :: out[k] == PBD(in, prev, k)
//@ ensures forall k in 0..SZ(CTD(in[4:], in[3])) :: out[SZ(CTD(in, prev)):][k] == PBD(in[4:], in[3], k)

---- mode: fast only if every instruction of the accelerated code is reported to be usable
//@ func encode.GetMode() (result)
//@ level mode
//@ ensures result == shared.Fast || result == shared.Normal
//@ ensures[cpu] result == shared.Fast ==> ISAMD64() && CPU(encode)
