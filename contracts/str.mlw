module Str
  use int.Int
  use map.Map
  use Mem
  (* length of the substring that starts at 1-based position st and is ln long *)
  function mid_len (n start length: int) : int =
    let st = (if start < 1 then 1 else start) in let ln = (if length < 0 then 0 else length) in
    if st - 1 + ln <= n then ln else if n - st + 1 < 0 then 0 else n - st + 1

  (* the lm characters at offset mo of m occur at 1-based position p of the string at (c, o) of length n *)
  predicate occurs (c: map int int) (o n: int) (m: map int int) (mo lm p: int)
  axiom occurs_def: forall c o n m mo lm p [occurs c o n m mo lm p].
    occurs c o n m mo lm p <-> (1 <= p /\ p - 1 + lm <= n /\ eqseg c (o + p - 1) m mo lm)

  (* comma-separated lists: number of commas in c[lo..hi), position of the k-th comma at or after lo *)
  function ncomma (c: map int int) (lo hi: int) : int
  axiom ncomma_0: forall c lo hi [ncomma c lo hi]. hi <= lo -> ncomma c lo hi = 0
  axiom ncomma_s: forall c lo hi [ncomma c lo hi, c[hi]]. lo <= hi -> ncomma c lo (hi+1) = ncomma c lo hi + (if c[hi] = 44 then 1 else 0)
  axiom ncomma_pos: forall c lo hi [ncomma c lo hi]. 0 <= ncomma c lo hi
  let rec lemma ncomma_mono (c: map int int) (lo a d: int)
    requires { lo <= a <= d } ensures { ncomma c lo a <= ncomma c lo d } variant { d - a }
  = if a < d then begin ncomma_mono c lo a (d-1); assert { c[d-1] = 44 \/ c[d-1] <> 44 } end
  lemma ncomma_le: forall c lo a d [ncomma c lo a, ncomma c lo d]. lo <= a <= d -> ncomma c lo a <= ncomma c lo d
  function nth_comma (c: map int int) (lo k: int) : int
  axiom nth_comma_0: forall c lo. nth_comma c lo 0 = lo - 1
  axiom nth_comma_q: forall c lo q [ncomma c lo q, c[q]]. lo <= q -> c[q] = 44 -> nth_comma c lo (ncomma c lo q + 1) = q
  (* the k-th item (from 1) of the list at (c, o), of length n: from item_st to item_en exclusive *)
  function item_st (c: map int int) (o k: int) : int = nth_comma c o (k-1) + 1
  function item_en (c: map int int) (o n k: int) : int = if k <= ncomma c o (o+n) then nth_comma c o k else o + n
  predicate is_item (c: map int int) (o n k: int) = 1 <= k <= ncomma c o (o+n) + 1
  predicate item_eq (c: map int int) (o n k: int) (e: map int int) (eo le: int) =
    item_en c o n k - item_st c o k = le /\ eqseg c (item_st c o k) e eo le

  (* arguments of a concatenation: arg 0 is the first named one; cat_pos: total length of the first i *)
  function cat_arg (s: ptr) (va: map int ptr) (i: int) : ptr
  axiom cat_arg_def: forall s va i [cat_arg s va i]. cat_arg s va i = (if i = 0 then s else va[i-1])
  function cat_pos (m: map int (map int int)) (s: ptr) (va: map int ptr) (i: int) : int
  axiom cat_pos_0: forall m s va. cat_pos m s va 0 = 0
  axiom cat_pos_s: forall m s va i [cat_pos m s va i, cat_arg s va i]. i >= 0 -> cat_pos m s va (i+1) = cat_pos m s va i + len_of m (cat_arg s va i)
  (* the named argument and the ones before the null end marker are n strings *)
  predicate va_list (va: map int ptr) (n: int)
  axiom va_list_def: forall va n [va_list va n]. va_list va n <-> (1 <= n /\ va[n-1] = null /\ (forall i [va[i]]. 0 <= i < n-1 -> va[i] <> null))
  function cat_n (va: map int ptr) : int
  axiom cat_n_def: forall va n [va_list va n]. va_list va n -> cat_n va = n
  predicate cat_args (m: map int (map int int)) (s: ptr) (va: map int ptr) (k: int)
  axiom cat_args_def: forall m s va k [cat_args m s va k]. cat_args m s va k <->
     (va_list va (cat_n va) /\ cat_n va <= 50 /\ (forall i [cat_arg s va i]. 0 <= i < cat_n va -> cstr m (cat_arg s va i) /\ (cat_arg s va i).b < k)
      /\ cat_pos m s va (cat_n va) < 1099511627775)
  let rec lemma cat_pos_mono (m: map int (map int int)) (s: ptr) (va: map int ptr) (i n: int)
    requires { 0 <= i <= n /\ forall j. 0 <= j < n -> len_of m (cat_arg s va j) >= 0 }
    ensures { cat_pos m s va i <= cat_pos m s va n } variant { n - i }
  = if i < n then begin cat_pos_mono m s va i (n-1); assert { len_of m (cat_arg s va (n-1)) >= 0 } end
  (* character translation: code of a character, number of characters kept among the first i *)
  function ucode (x: int) : int = if x < 0 then x + 256 else x
  function xl (c: map int int) (lt lo hi: int) : int
  axiom xl_0: forall c lt lo. xl c lt lo lo = 0
  axiom xl_s: forall c lt lo hi [xl c lt lo hi, c[hi]]. hi >= lo -> xl c lt lo (hi+1) = xl c lt lo hi + (if ucode c[hi] < lt then 1 else 0)
  predicate xl_ok (r: map int int) (c: map int int) (t: map int int) (tb lt lo hi: int)
  axiom xl_ok_def: forall r c t tb lt lo hi [xl_ok r c t tb lt lo hi]. xl_ok r c t tb lt lo hi <->
     (forall q [c[q]]. lo <= q < hi -> ucode c[q] < lt -> r[xl c lt lo q] = t[tb + ucode c[q]] /\ 0 <= xl c lt lo q < xl c lt lo hi)
end
