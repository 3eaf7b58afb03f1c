Contracts of pkg/util.

  VSTR(s,i)    byte i of the concatenated base-128 little-endian varints of the integers s
               (VSTRD(s,p,i): of their differences from p, modulo 2^32)
  VPOS(s,k)    where the varint of integer k starts;  VEND(s) the length of the whole (VPOSD, VENDD alike)
  VPREV(s,p,k) s[k], the base p for k = -1
  SORT(s,k)    the k-th smallest (unsigned) element of s as it was on entry

//@ func util.PutVarint(nums, out) (result)
//@ level stream
//@ opt unroll = inner
//@ requires[panic] len(out) >= VEND(nums)
//@ modifies out[0:VEND(nums)]
//@ ensures result == VEND(nums)
//@ ensures forall i in 0..VEND(nums) :: out[i] == VSTR(nums, i)
//@ progress G in 0..len(nums)
//@ measure VPOS(nums, G), G
//@ done out[0:VPOS(nums, G)] i -> VSTR(nums, i)

//@ func util.PutDeltaVarint(nums, out, prev) (result)
//@ level stream
//@ opt unroll = inner
//@ requires[panic] len(out) >= VENDD(nums, prev)
//@ modifies out[0:VENDD(nums, prev)]
//@ ensures result == VENDD(nums, prev)
//@ ensures forall i in 0..VENDD(nums, prev) :: out[i] == VSTRD(nums, prev, i)
//@ progress G in 0..len(nums)
//@ measure VPOSD(nums, prev, G), G
//@ done out[0:VPOSD(nums, prev, G)] i -> VSTRD(nums, prev, i)
//@ word VPREV(nums, prev, G - 1)

the decoders: for whatever list xs the bytes are the varints of

//@ func util.GetVarint(data, out) (result)
//@ level stream
//@ opt unroll = inner
//@ ghost xs []uint32
//@ requires len(data) == VEND(xs)
//@ requires forall i in 0..len(data) :: data[i] == VSTR(xs, i)
//@ requires[panic] len(out) >= len(xs)
//@ modifies out[0:len(xs)]
//@ ensures result == len(data)
//@ ensures forall k in 0..len(xs) :: out[k] == xs[k]
//@ progress G in 0..len(xs)
//@ measure VPOS(xs, G), G
//@ done out[0:G] k -> xs[k]

//@ func util.GetDeltaVarint(in, out, prev) (result)
//@ level stream
//@ opt unroll = inner
//@ ghost xs []uint32
//@ requires len(in) == VENDD(xs, prev)
//@ requires forall i in 0..len(in) :: in[i] == VSTRD(xs, prev, i)
//@ requires[panic] len(out) >= len(xs)
//@ modifies out[0:len(xs)]
//@ ensures result == len(in)
//@ ensures forall k in 0..len(xs) :: out[k] == xs[k]
//@ progress G in 0..len(xs)
//@ measure VPOSD(xs, prev, G), G
//@ done out[0:G] k -> xs[k]
//@ word VPREV(xs, prev, G - 1)

//@ func util.Delta(in, out)
//@ level stream
//@ requires[panic] len(out) >= len(in)
//@ modifies out[0:len(in)]
//@ ensures forall i in 0..len(in) :: out[i] == ite(i == 0, in[i], in[i] - in[i - 1])
//@ progress G in 0..len(in)
//@ measure G
//@ done out[0:G] i -> ite(i == 0, in[i], in[i] - in[i - 1])
//@ word ite(G == 0, 0, in[G - 1])

one of the lengths 1 to 4 is fixed by the first number drawn; all are possible

//@ func util.RandUint32() (result)
//@ level leaf
//@ opt post = firstdraw

//@ func util.GenUint32(n) (result)
//@ level stream
//@ requires[panic] n >= 0
//@ requires[panic] n <= MAXLEN()
//@ fresh
//@ ensures len(result) == n
//@ progress G in 0..n
//@ measure G

//@ func util.SortUint32(in)
//@ level stream
//@ modifies in[0:len(in)]
//@ ensures forall k in 0..len(in) :: in[k] == SORT(in, k)
