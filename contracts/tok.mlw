module Tok
  use int.Int
  use map.Map
  use Mem
  predicate graph (x: int) = 33 <= x <= 126
  predicate digit (x: int) = 48 <= x <= 57
  predicate alnum (x: int) = 48 <= x <= 57 \/ 65 <= x <= 90 \/ 97 <= x <= 122
  (* length of the token at k: printable characters; $ ends it unless $ or a digit follows *)
  function tl (c: map int int) (k: int) : int
  axiom tl_def: forall c k [tl c k, c[k]]. tl c k =
    if c[k] = 36 then (if c[k+1] = 36 \/ digit c[k+1] then 2 + tl c (k+2) else 0)
    else if graph c[k] then 1 + tl c (k+1) else 0
  (* length of the proof label at k: ends also at : ? ( ) = and at every $ other than $$ *)
  predicate pspecial (x: int) = x = 58 \/ x = 63 \/ x = 40 \/ x = 41 \/ x = 61
  function pl (c: map int int) (k: int) : int
  axiom pl_def: forall c k [pl c k, c[k]]. pl c k =
    if c[k] = 36 then (if c[k+1] = 36 then 2 + pl c (k+2) else 0)
    else if graph c[k] /\ not (pspecial c[k]) then 1 + pl c (k+1) else 0
  (* position after the comment whose text starts at k (the end of the string if it is not closed) *)
  function ce (c: map int int) (k: int) : int
  axiom ce_def: forall c k [ce c k, c[k]]. ce c k =
    if c[k] = 0 then k else if c[k] = 36 then (if c[k+1] = 41 then k + 2 else if c[k+1] = 0 then k + 1 else ce c (k+2)) else ce c (k+1)
  (* position after the next newline from k (or of the end of the string) *)
  function nl (c: map int int) (k: int) : int
  axiom nl_def: forall c k [nl c k, c[k]]. nl c k = if c[k] = 0 then k else if c[k] = 10 then k + 1 else nl c (k+1)
  let rec lemma nl_at (c: map int int) (k q: int)
    requires { k <= q /\ (forall j. k <= j < q -> c[j] <> 0 /\ c[j] <> 10) /\ (c[q] = 0 \/ c[q] = 10) }
    ensures { nl c k = if c[q] = 0 then q else q + 1 } variant { q - k }
  = if k < q then begin assert { c[k] <> 0 }; nl_at c (k+1) q end else assert { c[k] = c[q] }
  (* position after white space and comments from k *)
  function we (c: map int int) (k: int) : int
  axiom we_def: forall c k [we c k, c[k]]. we c k =
    if c[k] = 0 then k
    else if c[k] = 36 then (if c[k+1] = 40 then we c (ce c (k+2)) else if c[k+1] = 33 then we c (nl c (k+2)) else k)
    else if graph c[k] then k else we c (k+1)
  (* newlines in c[lo..hi) *)
  function cnl (c: map int int) (lo hi: int) : int
  axiom cnl_0: forall c lo hi [cnl c lo hi]. hi <= lo -> cnl c lo hi = 0
  axiom cnl_s: forall c lo hi [cnl c lo hi, c[hi]]. lo <= hi -> cnl c lo (hi+1) = cnl c lo hi + (if c[hi] = 10 then 1 else 0)
  (* $t comment: position after the /* comment whose text starts at k *)
  function de (c: map int int) (k: int) : int
  axiom de_def: forall c k [de c k, c[k]]. de c k =
    if c[k] = 0 then k else if c[k] = 42 /\ c[k+1] = 47 then k + 2 else de c (k+1)
  let rec lemma de_skip (c: map int int) (k q: int)
    requires { k <= q /\ (forall j. k <= j < q -> c[j] <> 0 /\ c[j] <> 42) }
    ensures { de c k = de c q } variant { q - k }
  = if k < q then begin assert { c[k] <> 0 }; de_skip c (k+1) q end
  function dw (c: map int int) (k: int) : int
  axiom dw_def: forall c k [dw c k, c[k]]. dw c k =
    if c[k] = 0 then k
    else if c[k] = 47 /\ c[k+1] = 42 then dw c (de c (k+2))
    else if graph c[k] then k else dw c (k+1)
  (* position after the string quoted with q whose text starts at k; a doubled quote stands for itself *)
  function dq (c: map int int) (q k: int) : int
  axiom dq_def: forall c q k [dq c q k, c[k]]. dq c q k =
    if c[k] = 0 then k else if c[k] = q then (if c[k+1] = q then dq c q (k+2) else k + 1) else dq c q (k+1)
  let rec lemma dq_skip (c: map int int) (x k q: int)
    requires { k <= q /\ (forall j. k <= j < q -> c[j] <> 0 /\ c[j] <> x) }
    ensures { dq c x k = dq c x q } variant { q - k }
  = if k < q then begin assert { c[k] <> 0 }; dq_skip c x (k+1) q end
  function da (c: map int int) (k: int) : int
  axiom da_def: forall c k [da c k, c[k]]. da c k = if alnum c[k] then da c (k+1) else k
end
