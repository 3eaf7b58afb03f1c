Contracts of pkg/stream/writer.

  CAN(s,i)    byte i of the canonical Stream VByte stream of the integers s  (CAND(s,p,i): of their differences from p)
  BEFOREW(s,p,k)  s[k], the base p for k = -1
  ENDW(s)     its length (ENDWD alike)
  POSW(s,G)   position of the data of group G (ENDW when all integers are written)

//@ func writer.WriteAll(in) (result)
//@ level stream
//@ fresh
//@ ensures len(result) == ENDW(in)
//@ ensures forall i in 0..ENDW(in) :: result[i] == CAN(in, i)
//@ progress G in 0..(len(in) + 3) / 4
//@ bound len(in) / 4
//@ measure POSW(in, G), min(4 * G, len(in))
//@ done fresh[0:G] i -> CAN(in, i)
//@ done fresh[(len(in) + 3) / 4:POSW(in, G)] i -> CAN(in, i)

//@ func writer.WriteAllDelta(in, prev) (result)
//@ level stream
//@ fresh
//@ ensures len(result) == ENDWD(in, prev)
//@ ensures forall i in 0..ENDWD(in, prev) :: result[i] == CAND(in, prev, i)
//@ progress G in 0..(len(in) + 3) / 4
//@ bound len(in) / 4
//@ measure POSWD(in, prev, G), min(4 * G, len(in))
//@ done fresh[0:G] i -> CAND(in, prev, i)
//@ done fresh[(len(in) + 3) / 4:POSWD(in, prev, G)] i -> CAND(in, prev, i)
//@ word BEFOREW(in, prev, min(4 * G, len(in)) - 1)

//@ func writer.WriteAllScalar(in) (result)
//@ level stream
//@ fresh
//@ ensures len(result) == ENDW(in)
//@ ensures forall i in 0..ENDW(in) :: result[i] == CAN(in, i)
//@ progress G in 0..(len(in) + 3) / 4
//@ bound len(in) / 4
//@ measure POSW(in, G), min(4 * G, len(in))
//@ done fresh[0:G] i -> CAN(in, i)
//@ done fresh[(len(in) + 3) / 4:POSW(in, G)] i -> CAN(in, i)

//@ func writer.WriteAllDeltaScalar(in, prev) (result)
//@ level stream
//@ fresh
//@ ensures len(result) == ENDWD(in, prev)
//@ ensures forall i in 0..ENDWD(in, prev) :: result[i] == CAND(in, prev, i)
//@ progress G in 0..(len(in) + 3) / 4
//@ bound len(in) / 4
//@ measure POSWD(in, prev, G), min(4 * G, len(in))
//@ done fresh[0:G] i -> CAND(in, prev, i)
//@ done fresh[(len(in) + 3) / 4:POSWD(in, prev, G)] i -> CAND(in, prev, i)
//@ word BEFOREW(in, prev, min(4 * G, len(in)) - 1)

//@ func writer.WriteAllFast(in) (result)
//@ level stream
//@ arch amd64
//@ cpu instructions(encode)
//@ fresh
//@ ensures len(result) == ENDW(in)
//@ ensures forall i in 0..ENDW(in) :: result[i] == CAN(in, i)
//@ progress G in 0..(len(in) + 3) / 4
//@ bound len(in) / 4
//@ measure POSW(in, G), min(4 * G, len(in))
//@ done fresh[0:G] i -> CAN(in, i)
//@ done fresh[(len(in) + 3) / 4:POSW(in, G)] i -> CAN(in, i)

//@ func writer.WriteAllDeltaFast(in, prev) (result)
//@ level stream
//@ arch amd64
//@ cpu instructions(encode)
//@ fresh
//@ ensures len(result) == ENDWD(in, prev)
//@ ensures forall i in 0..ENDWD(in, prev) :: result[i] == CAND(in, prev, i)
//@ progress G in 0..(len(in) + 3) / 4
//@ bound len(in) / 4
//@ measure POSWD(in, prev, G), min(4 * G, len(in))
//@ done fresh[0:G] i -> CAND(in, prev, i)
//@ done fresh[(len(in) + 3) / 4:POSWD(in, prev, G)] i -> CAND(in, prev, i)
//@ word BEFOREW(in, prev, min(4 * G, len(in)) - 1)
