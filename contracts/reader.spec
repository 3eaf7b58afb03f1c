Contracts of pkg/stream/reader.

  V(s,n,i)     integer i denoted by the stream s of n integers
  RD(s,n,p,i)  p + V(s,n,0) + ... + V(s,n,i) modulo 2^32
  BEFORE(s,n,p,G)  the running sum before group G (the last one when all integers are consumed)
  ENDR(s,n)    position just after the last data byte of the stream
  POSR(s,n,G)  position of the data of group G (ENDR when all integers are consumed)

//@ func reader.ReadAll(count, stream, out)
//@ level stream
//@ requires count >= 0
//@ requires[panic] len(out) >= count
//@ requires[panic] len(stream) >= ENDR(stream, count)
//@ modifies out[0:count]
//@ ensures forall i in 0..count :: out[i] == V(stream, count, i)
//@ progress G in 0..(count + 3) / 4
//@ bound count / 4
//@ measure POSR(stream, count, G), min(4 * G, count)
//@ done out[0:min(4 * G, count)] i -> V(stream, count, i)

//@ func reader.ReadAllDelta(count, stream, out, prev)
//@ level stream
//@ requires count >= 0
//@ requires[panic] len(out) >= count
//@ requires[panic] len(stream) >= ENDR(stream, count)
//@ modifies out[0:count]
//@ ensures forall i in 0..count :: out[i] == RD(stream, count, prev, i)
//@ progress G in 0..(count + 3) / 4
//@ bound count / 4
//@ measure POSR(stream, count, G), min(4 * G, count)
//@ done out[0:min(4 * G, count)] i -> RD(stream, count, prev, i)
//@ word BEFORE(stream, count, prev, G)

//@ func reader.ReadAllScalar(count, stream, out)
//@ level stream
//@ requires count >= 0
//@ requires[panic] len(out) >= count
//@ requires[panic] len(stream) >= ENDR(stream, count)
//@ modifies out[0:count]
//@ ensures forall i in 0..count :: out[i] == V(stream, count, i)
//@ progress G in 0..(count + 3) / 4
//@ bound count / 4
//@ measure POSR(stream, count, G), min(4 * G, count)
//@ done out[0:min(4 * G, count)] i -> V(stream, count, i)

//@ func reader.ReadAllDeltaScalar(count, stream, out, prev)
//@ level stream
//@ requires count >= 0
//@ requires[panic] len(out) >= count
//@ requires[panic] len(stream) >= ENDR(stream, count)
//@ modifies out[0:count]
//@ ensures forall i in 0..count :: out[i] == RD(stream, count, prev, i)
//@ progress G in 0..(count + 3) / 4
//@ bound count / 4
//@ measure POSR(stream, count, G), min(4 * G, count)
//@ done out[0:min(4 * G, count)] i -> RD(stream, count, prev, i)
//@ word BEFORE(stream, count, prev, G)

//@ func reader.ReadAllFast(count, stream, out)
//@ level stream
//@ arch amd64
//@ cpu instructions(decode)
//@ requires count >= 0
//@ requires[panic] len(out) >= count
//@ requires[panic] len(stream) >= ENDR(stream, count)
//@ modifies out[0:count]
//@ ensures forall i in 0..count :: out[i] == V(stream, count, i)
//@ progress G in 0..(count + 3) / 4
//@ bound count / 4
//@ measure POSR(stream, count, G), min(4 * G, count)
//@ done out[0:min(4 * G, count)] i -> V(stream, count, i)

//@ func reader.ReadAllDeltaFast(count, stream, out, prev)
//@ level stream
//@ arch amd64
//@ cpu instructions(decode)
//@ requires count >= 0
//@ requires[panic] len(out) >= count
//@ requires[panic] len(stream) >= ENDR(stream, count)
//@ modifies out[0:count]
//@ ensures forall i in 0..count :: out[i] == RD(stream, count, prev, i)
//@ progress G in 0..(count + 3) / 4
//@ bound count / 4
//@ measure POSR(stream, count, G), min(4 * G, count)
//@ done out[0:min(4 * G, count)] i -> RD(stream, count, prev, i)
//@ word BEFORE(stream, count, prev, G)
