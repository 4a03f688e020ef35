module Pool
  use int.Int
  use map.Map
  use Mem
  (* the free and used-but-not-full tables of the suballocator. A pool block: words 0..2 are its index in the
     used table (-1 none, -2 free), its allocated and its actual size in bytes; clients hold pointers to word 3 *)
  predicate pblk (m: map int (map int int)) (p: ptr) (k: int) =
    p.o = 3 /\ 0 < p.b < k /\ lo64 p.b = 1 /\ 0 <= m[p.b][1] <= 8796093022208 /\ 24 + m[p.b][1] <= 8 * bsize p.b
  predicate pused (m l: map int (map int int)) (p: map int ptr) (n k a c: int)
  axiom pused_def: forall m l p n k a c [pused m l p n k a c]. pused m l p n k a c <->
    (forall i [p[i]]. 0 <= i < n -> pblk m p[i] k /\ p[i].b <> a /\ p[i].b <> c /\ l[p[i].b][0] = i /\ 0 <= m[p[i].b][2] <= m[p[i].b][1])
  predicate pfree (m l: map int (map int int)) (p: map int ptr) (n k a c: int)
  axiom pfree_def: forall m l p n k a c [pfree m l p n k a c]. pfree m l p n k a c <->
    ((forall i [p[i]]. 0 <= i < n -> pblk m p[i] k /\ p[i].b <> a /\ p[i].b <> c /\ l[p[i].b][0] = -2)
     /\ (forall i j [p[i], p[j]]. 0 <= i < n -> 0 <= j < n -> i <> j -> p[i].b <> p[j].b))
  (* a table of n entries in an array of mx *)
  predicate tab (p: ptr) (n mx k: int) = 0 <= n <= mx <= 68719476736 /\ (mx = 0 -> p = null) /\ (mx > 0 -> p.o = 0 /\ 0 < p.b < k /\ mx <= bsize p.b)
  function sumu (m: map int (map int int)) (p: map int ptr) (n: int) : int
  axiom sumu_0: forall m p n [sumu m p n]. n <= 0 -> sumu m p n = 0
  axiom sumu_s: forall m p n [sumu m p n, p[n]]. n >= 0 -> sumu m p (n+1) = sumu m p n + m[p[n].b][1] - m[p[n].b][2]
  function sumf (m: map int (map int int)) (p: map int ptr) (n: int) : int
  axiom sumf_0: forall m p n [sumf m p n]. n <= 0 -> sumf m p n = 0
  axiom sumf_s: forall m p n [sumf m p n, p[n]]. n >= 0 -> sumf m p (n+1) = sumf m p n + m[p[n].b][1]
  let rec lemma sumu_frame (m1: map int (map int int)) (p1: map int ptr) (m2: map int (map int int)) (p2: map int ptr) (n: int)
    requires { forall i [p1[i]]. 0 <= i < n -> p1[i] = p2[i] /\ m1[p1[i].b][1] = m2[p1[i].b][1] /\ m1[p1[i].b][2] = m2[p1[i].b][2] }
    ensures { sumu m1 p1 n = sumu m2 p2 n } variant { n }
  = if n > 0 then begin sumu_frame m1 p1 m2 p2 (n-1); assert { p1[n-1] = p2[n-1] }; assert { sumu m1 p1 (n-1+1) = sumu m1 p1 (n-1) + m1[p1[n-1].b][1] - m1[p1[n-1].b][2] }; assert { sumu m2 p2 (n-1+1) = sumu m2 p2 (n-1) + m2[p2[n-1].b][1] - m2[p2[n-1].b][2] } end
  let rec lemma sumu_upd (m1: map int (map int int)) (p1: map int ptr) (m2: map int (map int int)) (p2: map int ptr) (u n: int)
    requires { 0 <= u < n }
    requires { forall i [p1[i]]. 0 <= i < n -> i <> u -> p1[i] = p2[i] /\ m1[p1[i].b][1] = m2[p1[i].b][1] /\ m1[p1[i].b][2] = m2[p1[i].b][2] }
    ensures { sumu m2 p2 n = sumu m1 p1 n - (m1[p1[u].b][1] - m1[p1[u].b][2]) + (m2[p2[u].b][1] - m2[p2[u].b][2]) } variant { n }
  = assert { sumu m1 p1 (n-1+1) = sumu m1 p1 (n-1) + m1[p1[n-1].b][1] - m1[p1[n-1].b][2] }; assert { sumu m2 p2 (n-1+1) = sumu m2 p2 (n-1) + m2[p2[n-1].b][1] - m2[p2[n-1].b][2] };
    if u < n-1 then begin sumu_upd m1 p1 m2 p2 u (n-1); assert { p1[n-1] = p2[n-1] } end
    else begin assert { u = n-1 }; sumu_frame m1 p1 m2 p2 (n-1) end
  let lemma sumu_rm (m1: map int (map int int)) (p1: map int ptr) (m2: map int (map int int)) (p2: map int ptr) (u n: int)
    requires { 0 <= u < n }
    requires { forall i [p1[i]]. 0 <= i < n -> m1[p1[i].b][1] = m2[p1[i].b][1] /\ m1[p1[i].b][2] = m2[p1[i].b][2] }
    requires { forall i [p2[i]]. 0 <= i < n - 1 -> p2[i] = if i = u then p1[n-1] else p1[i] }
    ensures { sumu m2 p2 (n-1) = sumu m1 p1 n - (m1[p1[u].b][1] - m1[p1[u].b][2]) }
  = assert { sumu m1 p1 (n-1+1) = sumu m1 p1 (n-1) + m1[p1[n-1].b][1] - m1[p1[n-1].b][2] };
    if u < n-1 then begin assert { forall i [p1[i]]. 0 <= i < n-1 -> i <> u -> p2[i] = p1[i] }; sumu_upd m1 p1 m2 p2 u (n-1); assert { p2[u] = p1[n-1] } end
    else begin assert { forall i [p1[i]]. 0 <= i < n-1 -> p2[i] = p1[i] }; sumu_frame m1 p1 m2 p2 (n-1); assert { u = n-1 } end
  let rec lemma sumf_frame (m1: map int (map int int)) (p1: map int ptr) (m2: map int (map int int)) (p2: map int ptr) (n: int)
    requires { forall i [p1[i]]. 0 <= i < n -> p1[i] = p2[i] /\ m1[p1[i].b][1] = m2[p1[i].b][1] }
    ensures { sumf m1 p1 n = sumf m2 p2 n } variant { n }
  = if n > 0 then begin sumf_frame m1 p1 m2 p2 (n-1); assert { p1[n-1] = p2[n-1] }; assert { sumf m1 p1 (n-1+1) = sumf m1 p1 (n-1) + m1[p1[n-1].b][1] }; assert { sumf m2 p2 (n-1+1) = sumf m2 p2 (n-1) + m2[p2[n-1].b][1] } end
  let rec lemma sumf_mono (m l: map int (map int int)) (p: map int ptr) (i n k a c: int)
    requires { pfree m l p n k a c /\ 0 <= i <= n } ensures { 0 <= sumf m p i <= sumf m p n } variant { n }
  = if i < n then begin sumf_mono m l p i (n-1) k a c; assert { pblk m p[n-1] k }; assert { sumf m p (n-1+1) = sumf m p (n-1) + m[p[n-1].b][1] } end
    else if n > 0 then begin sumf_mono m l p (n-1) (n-1) k a c; assert { pblk m p[n-1] k }; assert { sumf m p (n-1+1) = sumf m p (n-1) + m[p[n-1].b][1] } end
  let rec lemma sumu_mono (m l: map int (map int int)) (p: map int ptr) (i n k a c: int)
    requires { pused m l p n k a c /\ 0 <= i <= n } ensures { 0 <= sumu m p i <= sumu m p n } variant { n }
  = if i < n then begin sumu_mono m l p i (n-1) k a c; assert { pblk m p[n-1] k /\ m[p[n-1].b][2] <= m[p[n-1].b][1] }; assert { sumu m p (n-1+1) = sumu m p (n-1) + m[p[n-1].b][1] - m[p[n-1].b][2] } end
    else if n > 0 then begin sumu_mono m l p (n-1) (n-1) k a c; assert { pblk m p[n-1] k /\ m[p[n-1].b][2] <= m[p[n-1].b][1] }; assert { sumu m p (n-1+1) = sumu m p (n-1) + m[p[n-1].b][1] - m[p[n-1].b][2] } end
  (* blocks that are neither one of the two tables nor free keep their contents *)
  predicate livef (m0 m1 l0: map int (map int int)) (k a c: int) = forall x [m1[x]]. x < k -> x <> a -> x <> c -> l0[x][0] <> -2 -> m1[x] = m0[x]
end
