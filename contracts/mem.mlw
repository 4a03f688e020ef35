module Mem
  use int.Int
  use int.ComputerDivision as CD
  use map.Map
  use real.RealInfix
  use real.FromInt
  use ref.Ref

  (* a C pointer: block and element offset in the block *)
  type ptr = { b: int; o: int }
  let constant null : ptr = { b = 0; o = 0 }
  constant emptystr_block : int = (-1000000)

  (* size of a block in elements *)
  function bsize (k: int) : int
  axiom bsize_range: forall k. 0 <= bsize k <= 1099511627776
  axiom bsize_null: bsize 0 = 0

  predicate inb (p: ptr) = 0 <= p.o < bsize p.b
  (* first word of a block accessed as long: 1 in pool blocks (word 0 is the pool location), 0 elsewhere *)
  function lo64 (k: int) : int
  axiom lo64_range: forall k. 0 <= lo64 k <= 1
  predicate inb64 (p: ptr) = lo64 p.b <= p.o < bsize p.b
  (* the static empty number string and pointer string *)
  constant nnull_b : int = (-2000000)
  constant pnull_b : int = (-2000001)
  axiom nnull_size: bsize nnull_b = 4 /\ lo64 nnull_b = 1
  axiom pnull_size: bsize pnull_b = 4 /\ lo64 pnull_b = 1

  let function padd (p: ptr) (n: int) : ptr = { b = p.b; o = p.o + n }
  let function psub (p: ptr) (n: int) : ptr = { b = p.b; o = p.o - n }
  val ptr_eq (p q: ptr) : bool ensures { result <-> p = q }
  val ptr_lt (p q: ptr) : bool requires { [@expl:pointer comparison] p.b = q.b } ensures { result <-> p.o < q.o }
  val ptr_gt (p q: ptr) : bool requires { [@expl:pointer comparison] p.b = q.b } ensures { result <-> p.o > q.o }
  val ptr_le (p q: ptr) : bool requires { [@expl:pointer comparison] p.b = q.b } ensures { result <-> p.o <= q.o }
  val ptr_ge (p q: ptr) : bool requires { [@expl:pointer comparison] p.b = q.b } ensures { result <-> p.o >= q.o }
  val ptr_diff (p q: ptr) : int requires { [@expl:pointer subtraction] p.b = q.b } ensures { result = p.o - q.o }
    ensures { -1099511627776 <= result <= 1099511627776 }

  predicate in_i8 (x: int) = -128 <= x <= 127
  predicate in_u8 (x: int) = 0 <= x <= 255
  predicate in_u1 (x: int) = 0 <= x <= 1
  predicate in_i16 (x: int) = -32768 <= x <= 32767
  predicate in_u16 (x: int) = 0 <= x <= 65535
  predicate in_i32 (x: int) = -2147483648 <= x <= 2147483647
  predicate in_u32 (x: int) = 0 <= x <= 4294967295
  predicate in_i64 (x: int) = -9223372036854775808 <= x <= 9223372036854775807
  predicate in_u64 (x: int) = 0 <= x <= 18446744073709551615

  (* integral conversions: identity in range, wrapped otherwise *)
  let function wrap_i8 (x: int) : int = if -128 <= x <= 127 then x else if 128 <= x <= 383 then x - 256 else if -384 <= x <= -129 then x + 256 else
     (let m = CD.mod x 256 in if m > 127 then m - 256 else if m < -128 then m + 256 else m)
  let function wrap_u8 (x: int) : int = if 0 <= x <= 255 then x else if -256 <= x <= -1 then x + 256 else if 256 <= x <= 511 then x - 256 else
     (let m = CD.mod x 256 in if m < 0 then m + 256 else m)
  let function wrap_u16 (x: int) : int = if 0 <= x <= 65535 then x else (let m = CD.mod x 65536 in if m < 0 then m + 65536 else m)
  let function wrap_i16 (x: int) : int = if -32768 <= x <= 32767 then x else (let m = CD.mod x 65536 in if m > 32767 then m - 65536 else if m < -32768 then m + 65536 else m)
  let function wrap_i32 (x: int) : int = if -2147483648 <= x <= 2147483647 then x else
     (let m = CD.mod x 4294967296 in if m > 2147483647 then m - 4294967296 else if m < -2147483648 then m + 4294967296 else m)
  let function wrap_u32 (x: int) : int = if 0 <= x <= 4294967295 then x else (let m = CD.mod x 4294967296 in if m < 0 then m + 4294967296 else m)
  let function wrap_i64 (x: int) : int = if x <= 9223372036854775807 then x else x - 18446744073709551616
  let function wrap_u64 (x: int) : int = if 0 <= x <= 18446744073709551615 then x else if x < 0 then x + 18446744073709551616 else x - 18446744073709551616

  val add_i32 (a c: int) : int requires { [@expl:signed overflow (+)] in_i32 (a + c) } ensures { result = a + c }
  val sub_i32 (a c: int) : int requires { [@expl:signed overflow (-)] in_i32 (a - c) } ensures { result = a - c }
  val mul_i32 (a c: int) : int requires { [@expl:signed overflow (*)] in_i32 (a * c) } ensures { result = a * c }
  val add_i64 (a c: int) : int requires { [@expl:signed overflow (+)] in_i64 (a + c) } ensures { result = a + c }
  val sub_i64 (a c: int) : int requires { [@expl:signed overflow (-)] in_i64 (a - c) } ensures { result = a - c }
  val mul_i64 (a c: int) : int requires { [@expl:signed overflow (*)] in_i64 (a * c) } ensures { result = a * c }
  val add_i8 (a c: int) : int ensures { result = wrap_i8 (a + c) }
  val sub_i8 (a c: int) : int ensures { result = wrap_i8 (a - c) }
  val add_i16 (a c: int) : int ensures { result = wrap_i16 (a + c) }
  val sub_i16 (a c: int) : int ensures { result = wrap_i16 (a - c) }
  val add_u8 (a c: int) : int ensures { result = wrap_u8 (a + c) }
  val sub_u8 (a c: int) : int ensures { result = wrap_u8 (a - c) }
  val add_u1 (a c: int) : int ensures { result = (if a + c = 0 then 0 else 1) }
  val sub_u1 (a c: int) : int ensures { result = (if a - c = 0 then 0 else 1) }
  val add_u32 (a c: int) : int ensures { result = (if a + c <= 4294967295 then a + c else a + c - 4294967296) }
  val sub_u32 (a c: int) : int ensures { result = (if a - c >= 0 then a - c else a - c + 4294967296) }
  val mul_u32 (a c: int) : int requires { [@expl:unsigned overflow (*)] in_u32 (a * c) } ensures { result = a * c }
  val add_u64 (a c: int) : int ensures { result = (if a + c <= 18446744073709551615 then a + c else a + c - 18446744073709551616) }
  val sub_u64 (a c: int) : int ensures { result = (if a - c >= 0 then a - c else a - c + 18446744073709551616) }
  val mul_u64 (a c: int) : int requires { [@expl:unsigned overflow (*)] in_u64 (a * c) } ensures { result = a * c }
  val div_i32 (a c: int) : int requires { [@expl:division] c <> 0 /\ (c <> -1 \/ a <> -2147483648) } ensures { result = CD.div a c }
  val mod_i32 (a c: int) : int requires { [@expl:division] c <> 0 /\ (c <> -1 \/ a <> -2147483648) } ensures { result = CD.mod a c }
  val div_i64 (a c: int) : int requires { [@expl:division] c <> 0 /\ (c <> -1 \/ a <> -9223372036854775808) } ensures { result = CD.div a c }
  val mod_i64 (a c: int) : int requires { [@expl:division] c <> 0 /\ (c <> -1 \/ a <> -9223372036854775808) } ensures { result = CD.mod a c }
  val div_u64 (a c: int) : int requires { [@expl:division] c <> 0 } ensures { result = CD.div a c }
  val mod_u64 (a c: int) : int requires { [@expl:division] c <> 0 } ensures { result = CD.mod a c }
  val div_u32 (a c: int) : int requires { [@expl:division] c <> 0 } ensures { result = CD.div a c }
  val mod_u32 (a c: int) : int requires { [@expl:division] c <> 0 } ensures { result = CD.mod a c }

  (* bitwise operations: uninterpreted, with the facts about one-bit masks *)
  function band (x y: int) : int
  function bor (x y: int) : int
  function bxor (x y: int) : int
  axiom band_bound: forall x y [band x y]. 0 <= y -> 0 <= band x y <= y
  axiom band_255l: forall x [band 255 x]. -128 <= x <= 255 -> band 255 x = (if x < 0 then x + 256 else x)
  axiom band_255r: forall x [band x 255]. -128 <= x <= 255 -> band x 255 = (if x < 0 then x + 256 else x)
  val band_i32 (x y: int) : int ensures { result = band x y } ensures { in_i32 result }
  val band_i64 (x y: int) : int ensures { result = band x y } ensures { in_i64 result }
  val bor_i32 (x y: int) : int ensures { result = bor x y } ensures { in_i32 result }

  (* how many error messages were printed *)
  val ref rep : int

  val any_i8 () : int ensures { in_i8 result }
  val any_u8 () : int ensures { in_u8 result }
  val any_u1 () : int ensures { in_u1 result }
  val any_i16 () : int ensures { in_i16 result }
  val any_u16 () : int ensures { in_u16 result }
  val any_i32 () : int ensures { in_i32 result }
  val any_u32 () : int ensures { in_u32 result }
  val any_i64 () : int ensures { in_i64 result }
  val any_u64 () : int ensures { in_u64 result }
  val any_ptr () : ptr
  val any_real () : real
  val report () : int ensures { in_i32 result }

  (* the arguments after the named ones of a variadic call *)
  val va_get (m: map int ptr) (i: int) : ptr ensures { result = m[i] }
  val va_set (m: map int ptr) (i: int) (v: ptr) : map int ptr ensures { result = set m i v }
  val va_nil () : map int ptr

  (* double modelled as real *)
  val real_add (a c: real) : real ensures { result = a +. c }
  val real_sub (a c: real) : real ensures { result = a -. c }
  val real_mul (a c: real) : real ensures { result = a *. c }
  val real_neg (a: real) : real ensures { result = -. a }
  val real_div (a c: real) : real ensures { c <> 0.0 -> result *. c = a }
  val real_lt (a c: real) : bool ensures { result <-> a <. c }
  val real_gt (a c: real) : bool ensures { result <-> a >. c }
  val real_le (a c: real) : bool ensures { result <-> a <=. c }
  val real_ge (a c: real) : bool ensures { result <-> a >=. c }
  val real_eq (a c: real) : bool ensures { result <-> a = c }
  val real_ne (a c: real) : bool ensures { result <-> a <> c }

  (* bug numbers that report exhausted resources (memory, temporary stack, ...): the process is aborted *)
  predicate resource_bug (n: int) = n = 2201 \/ n = 2202 \/ n = 2204 \/ n = 1368

  (* blocks that existed before are unchanged *)
  predicate old_blocks (m0 m1: map int (map int int)) (k: int) = forall x [m1[x]]. x < k -> m1[x] = m0[x]
  predicate old_blocks_p (m0 m1: map int (map int ptr)) (k: int) = forall x [m1[x]]. x < k -> m1[x] = m0[x]
  (* only block t changed among the blocks that existed *)
  predicate only_block_p (m0 m1: map int (map int ptr)) (t k: int) = forall x [m1[x]]. x < k -> x <> t -> m1[x] = m0[x]
  predicate but_block (m0 m1: map int (map int int)) (t: int) = forall x [m1[x]]. x <> t -> m1[x] = m0[x]
  predicate but_block_p (m0 m1: map int (map int ptr)) (t: int) = forall x [m1[x]]. x <> t -> m1[x] = m0[x]
  predicate only_block (m0 m1: map int (map int int)) (t k: int) = forall x [m1[x]]. x < k -> x <> t -> m1[x] = m0[x]

  (* the C string of length n at offset o of block content c *)
  predicate strz (c: map int int) (o n: int)
  axiom strz_def: forall c o n [strz c o n]. strz c o n <-> (n >= 0 /\ c[o+n] = 0 /\ (forall i. o <= i < o+n -> c[i] <> 0))
  function slen (c: map int int) (o: int) : int
  axiom slen_def: forall c o n [strz c o n]. strz c o n -> slen c o = n
  axiom slen_least: forall c o i [slen c o, c[i]]. o <= i -> c[i] = 0 -> strz c o (slen c o) /\ slen c o <= i - o
  lemma slen_suffix: forall c o n p [strz c o n, slen c p]. strz c o n /\ o <= p <= o+n -> slen c p = o+n-p /\ strz c p (o+n-p)
  predicate cstrc (c: map int int) (p: ptr) = strz c p.o (slen c p.o) /\ 0 <= p.o /\ p.o + slen c p.o < bsize p.b
  predicate cstr (m: map int (map int int)) (p: ptr) = cstrc m[p.b] p
  function len_of (m: map int (map int int)) (p: ptr) : int = slen m[p.b] p.o

  (* c[o..o+n) = d[p..p+n) *)
  (* nothing is known about it: the goals of the vacuity probes *)
  predicate smoke_probe (i: int)
  predicate eqseg (c: map int int) (o: int) (d: map int int) (p n: int)
  axiom eqseg_def: forall c o d p n [eqseg c o d p n].
    eqseg c o d p n <-> (forall j [c[j]]. o <= j < o + n -> c[j] = d[p + (j - o)])
  lemma eqseg_alt: forall c o d p n [eqseg c o d p n].
    eqseg c o d p n -> (forall k [d[k]]. p <= k < p + n -> d[k] = c[o + (k - p)])

  (* equal strings *)
  predicate same_str (c: map int int) (o: int) (d: map int int) (p: int) =
    slen c o = slen d p /\ eqseg c o d p (slen c o)
  (* the sign-carrying result of strcmp: a function of the two strings *)
  function str_cmp (c: map int int) (o: int) (d: map int int) (p: int) : int
end
