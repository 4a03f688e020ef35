module Nmbr
  use int.Int
  use int.ComputerDivision as CD
  use map.Map
  use Mem
  (* a number string: a pool block whose words are 0: pool location, 1: allocated bytes, 2: used bytes,
     3..: the elements, ended by -1; n: number of elements *)
  predicate nstrc (c: map int int) (p: ptr) (n: int)
  axiom nstrc_def: forall c p n [nstrc c p n]. nstrc c p n <->
    (p.o = 3 /\ lo64 p.b = 1 /\ 0 <= n /\ c[2] = 8 * (n + 1) /\ c[1] = 8 * (bsize p.b - 3) /\ n + 4 <= bsize p.b
     /\ c[3 + n] = -1 /\ (forall j [c[j]]. 3 <= j < 3 + n -> c[j] <> -1))
  (* length the header claims *)
  function hlen (c: map int int) : int
  axiom hlen_def: forall c [hlen c]. hlen c = CD.div (c[2] - 8) 8
  lemma hlen_8: forall c n. c[2] = 8 * (n + 1) -> 0 <= n -> hlen c = n
  lemma nstrc_len: forall c p n [nstrc c p n]. nstrc c p n -> hlen c = n
  (* weaker: header and final end marker are right, but there may be end markers (and garbage) before it *)
  predicate nwk (c: map int int) (p: ptr) = p.o = 3 /\ lo64 p.b = 1 /\ 0 <= hlen c /\ c[2] = 8 * (hlen c + 1) /\ c[1] = 8 * (bsize p.b - 3)
     /\ hlen c + 4 <= bsize p.b /\ c[3 + hlen c] = -1
  predicate nstr (m: map int (map int int)) (p: ptr) = nstrc m[p.b] p (hlen m[p.b])
  function nlen (m: map int (map int int)) (p: ptr) : int = hlen m[p.b]
  (* position of the end marker at or after offset o *)
  predicate ends (c: map int int) (o n: int)
  axiom ends_def: forall c o n [ends c o n]. ends c o n <-> (n >= 0 /\ c[o+n] = -1 /\ (forall j [c[j]]. o <= j < o + n -> c[j] <> -1))
  function nend (c: map int int) (o: int) : int
  axiom nend_def: forall c o n [ends c o n]. ends c o n -> nend c o = n
  lemma ends_suffix0: forall c p n q [nstrc c p n, nend c q]. nstrc c p n -> 3 <= q <= 3 + n -> ends c q ((3 + n) - q)
  lemma ends_suffix: forall c p n q [nstrc c p n, nend c q]. nstrc c p n -> 3 <= q <= 3 + n -> ends c q ((3 + n) - q) /\ nend c q = (3 + n) - q
  (* the number string ending at or after s.o, inside its block *)
  predicate nseg (m: map int (map int int)) (t: ptr) = ends m[t.b] t.o (nend m[t.b] t.o) /\ lo64 t.b <= t.o /\ t.o + nend m[t.b] t.o < bsize t.b
  function clipn (n k: int) : int = if n < k then (if n < 0 then 0 else n) else k
  (* a writable pool block with a header *)
  predicate hdr (c: map int int) (p: ptr) = p.o = 3 /\ lo64 p.b = 1 /\ c[1] = 8 * (bsize p.b - 3) /\ bsize p.b >= 4
  (* frame: among the blocks below k only block t (never a static one) may have changed *)
  predicate nframe (m0 m1: map int (map int int)) (t k: int) = forall x [m1[x]]. x < k -> (x <> t \/ t <= 0) -> m1[x] = m0[x]
  (* the elements of the number string c are those of d from offset p on, n of them *)
  predicate same_num (c d: map int int) = hlen c = hlen d /\ eqseg c 3 d 3 (hlen c)

  (* x is one of c[lo..hi) *)
  predicate isin (c: map int int) (lo hi x: int)
  axiom isin_def: forall c lo hi x [isin c lo hi x]. isin c lo hi x <-> (exists j. lo <= j < hi /\ c[j] = x)
  lemma isin_0: forall c lo x [isin c lo lo x]. not (isin c lo lo x)
  lemma isin_s: forall c lo hi x [isin c lo hi x, c[hi]]. lo <= hi -> (isin c lo (hi+1) x <-> (isin c lo hi x \/ c[hi] = x))
  lemma isin_set: forall c lo hi x k v [isin c lo hi x, set c k v]. not (lo <= k < hi) -> (isin (set c k v) lo hi x <-> isin c lo hi x)
  lemma isin_eq: forall c lo hi d lo2 x [isin c lo hi x, eqseg c lo d lo2 (hi - lo)]. eqseg c lo d lo2 (hi - lo) -> (isin c lo hi x <-> isin d lo2 (lo2 + (hi - lo)) x)
  (* the n2 elements of m at mo occur at position p (from 1) of the n1 elements of c at o *)
  predicate nocc (c: map int int) (o n1: int) (m: map int int) (mo n2 p: int)
  axiom nocc_def: forall c o n1 m mo n2 p [nocc c o n1 m mo n2 p].
    nocc c o n1 m mo n2 p <-> (1 <= p /\ p - 1 + n2 <= n1 /\ eqseg c (o + p - 1) m mo n2)
  (* how many of c[lo..hi) are among d[dl..dh) *)
  function cnt_in (d: map int int) (dl dh: int) (c: map int int) (lo hi: int) : int
  axiom cnt_in_0: forall d dl dh c lo [cnt_in d dl dh c lo lo]. cnt_in d dl dh c lo lo = 0
  axiom cnt_in_s: forall d dl dh c lo hi [cnt_in d dl dh c lo hi, c[hi]]. lo <= hi ->
    cnt_in d dl dh c lo (hi+1) = cnt_in d dl dh c lo hi + (if isin d dl dh c[hi] then 1 else 0)
  (* how many of c[lo..hi) are new: neither among d[dl..dh) nor earlier in c *)
  function cnt_new (d: map int int) (dl dh: int) (c: map int int) (lo hi: int) : int
  axiom cnt_new_0: forall d dl dh c lo [cnt_new d dl dh c lo lo]. cnt_new d dl dh c lo lo = 0
  axiom cnt_new_s: forall d dl dh c lo hi [cnt_new d dl dh c lo hi, c[hi]]. lo <= hi ->
    cnt_new d dl dh c lo (hi+1) = cnt_new d dl dh c lo hi + (if isin d dl dh c[hi] || isin c lo hi c[hi] then 0 else 1)
  (* order-preserving selections: r at ro lists the selected elements of c[lo..hi) *)
  predicate sel_in (r: map int int) (ro: int) (d: map int int) (dl dh: int) (c: map int int) (lo hi: int)
  axiom sel_in_def: forall r ro d dl dh c lo hi [sel_in r ro d dl dh c lo hi]. sel_in r ro d dl dh c lo hi <->
    (forall q [c[q]]. lo <= q < hi -> isin d dl dh c[q] -> r[ro + cnt_in d dl dh c lo q] = c[q] /\ 0 <= cnt_in d dl dh c lo q < cnt_in d dl dh c lo hi)
  predicate sel_out (r: map int int) (ro: int) (d: map int int) (dl dh: int) (c: map int int) (lo hi: int)
  axiom sel_out_def: forall r ro d dl dh c lo hi [sel_out r ro d dl dh c lo hi]. sel_out r ro d dl dh c lo hi <->
    (forall q [c[q]]. lo <= q < hi -> not (isin d dl dh c[q]) -> r[ro + (q - lo - cnt_in d dl dh c lo q)] = c[q]
        /\ 0 <= q - lo - cnt_in d dl dh c lo q < hi - lo - cnt_in d dl dh c lo hi)
  predicate sel_new (r: map int int) (ro: int) (d: map int int) (dl dh: int) (c: map int int) (lo hi: int)
  axiom sel_new_def: forall r ro d dl dh c lo hi [sel_new r ro d dl dh c lo hi]. sel_new r ro d dl dh c lo hi <->
    (forall q [c[q]]. lo <= q < hi -> not (isin d dl dh c[q]) -> not (isin c lo q c[q]) -> r[ro + cnt_new d dl dh c lo q] = c[q] /\ 0 <= cnt_new d dl dh c lo q < cnt_new d dl dh c lo hi)
  (* the variables of c[lo..hi), first occurrences; ty: token types *)
  constant tok_var : int = 0
  function cnt_var (ty c: map int int) (lo hi: int) : int
  axiom cnt_var_0: forall ty c lo [cnt_var ty c lo lo]. cnt_var ty c lo lo = 0
  axiom cnt_var_s: forall ty c lo hi [cnt_var ty c lo hi, c[hi]]. lo <= hi ->
    cnt_var ty c lo (hi+1) = cnt_var ty c lo hi + (if ty[c[hi]] = tok_var && not (isin c lo hi c[hi]) then 1 else 0)
  predicate sel_var (r: map int int) (ro: int) (ty c: map int int) (lo hi: int)
  axiom sel_var_def: forall r ro ty c lo hi [sel_var r ro ty c lo hi]. sel_var r ro ty c lo hi <->
    (forall q [c[q]]. lo <= q < hi -> ty[c[q]] = tok_var -> not (isin c lo q c[q]) -> r[ro + cnt_var ty c lo q] = c[q] /\ 0 <= cnt_var ty c lo q < cnt_var ty c lo hi)
  (* arguments of a concatenation *)
  use Str
  function ncat_pos (m: map int (map int int)) (s: ptr) (va: map int ptr) (i: int) : int
  axiom ncat_pos_0: forall m s va. ncat_pos m s va 0 = 0
  axiom ncat_pos_s: forall m s va i [ncat_pos m s va i, cat_arg s va i]. i >= 0 -> ncat_pos m s va (i+1) = ncat_pos m s va i + nlen m (cat_arg s va i)
  predicate ncat_args (m: map int (map int int)) (s: ptr) (va: map int ptr) (k: int)
  axiom ncat_args_def: forall m s va k [ncat_args m s va k]. ncat_args m s va k <->
     (va_list va (cat_n va) /\ cat_n va <= 28 /\ (forall i [cat_arg s va i]. 0 <= i < cat_n va -> nstr m (cat_arg s va i) /\ (cat_arg s va i).b < k)
      /\ ncat_pos m s va (cat_n va) < 68719476736)
  let rec lemma ncat_pos_mono (m: map int (map int int)) (s: ptr) (va: map int ptr) (i n: int)
    requires { 0 <= i <= n /\ forall j [cat_arg s va j]. 0 <= j < n -> nlen m (cat_arg s va j) >= 0 }
    ensures { ncat_pos m s va i <= ncat_pos m s va n } variant { n - i }
  = if i < n then begin ncat_pos_mono m s va i (n-1); assert { nlen m (cat_arg s va (n-1)) >= 0 } end
end
