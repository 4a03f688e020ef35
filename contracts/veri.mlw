module Veri
  use int.Int
  use map.Map
  use Mem
  use Nmbr
  (* how often x occurs in c[lo..hi) *)
  function cntd (c: map int int) (lo hi x: int) : int
  (*L*) axiom cntd_0: forall c lo x [cntd c lo lo x]. cntd c lo lo x = 0
  (*L*) axiom cntd_s: forall c lo hi x [cntd c lo hi x, c[hi]]. lo <= hi -> cntd c lo (hi+1) x = cntd c lo hi x + (if c[hi] = x then 1 else 0)
  let rec lemma cntd_mono (c: map int int) (lo a d x: int)
    requires { lo <= a <= d } ensures { cntd c lo a x <= cntd c lo d x } variant { d - a }
  = if a < d then begin cntd_mono c lo a (d-1) x; assert { cntd c lo ((d-1)+1) x = cntd c lo (d-1) x + (if c[d-1] = x then 1 else 0) } end
  (* x does not occur in c[o..o+n) *)
  predicate nod (c: map int int) (o n x: int)
  (*L*) axiom nod_def: forall c o n x [nod c o n x]. nod c o n x <-> (forall j [c[j]]. o <= j < o + n -> c[j] <> x)
  let rec lemma cntd_nod (c: map int int) (lo a n x: int)
    requires { lo <= a /\ 0 <= n /\ nod c a n x } ensures { cntd c lo (a+n) x = cntd c lo a x } variant { n }
  = if n > 0 then begin cntd_nod c lo a (n-1) x; assert { c[a+(n-1)] <> x } end

  (* the w-th variable (from 0) of c[lo..) by first occurrence: its position *)
  function nth_var (ty c: map int int) (lo w: int) : int
  axiom nth_var_q: forall ty c lo q [cnt_var ty c lo q, c[q]]. lo <= q -> ty[c[q]] = tok_var -> not (isin c lo q c[q]) -> nth_var ty c lo (cnt_var ty c lo q) = q
  let rec lemma cnt_var_mono (ty c: map int int) (lo a d: int)
    requires { lo <= a <= d } ensures { cnt_var ty c lo a <= cnt_var ty c lo d } variant { d - a }
  = if a < d then begin cnt_var_mono ty c lo a (d-1); assert { ty[c[d-1]] = tok_var \/ true } end
  let rec lemma cnt_var_inv (ty c: map int int) (lo hi w: int)
    requires { lo <= hi /\ 0 <= w < cnt_var ty c lo hi }
    ensures { let q = nth_var ty c lo w in lo <= q < hi /\ ty[c[q]] = tok_var /\ not (isin c lo q c[q]) /\ cnt_var ty c lo q = w /\ cnt_var ty c lo (q+1) = w + 1 }
    variant { hi - lo }
  = if hi = lo then assert { cnt_var ty c lo lo = 0 } else begin
      assert { c[hi-1] = c[hi-1] };
      if w < cnt_var ty c lo (hi-1) then cnt_var_inv ty c lo (hi-1) w
      else begin assert { cnt_var ty c lo (hi-1) = w }; assert { nth_var ty c lo w = hi-1 } end end

  let rec lemma cnt_var_le (ty c: map int int) (lo hi: int)
    requires { lo <= hi } ensures { 0 <= cnt_var ty c lo hi <= hi - lo } variant { hi - lo }
  = if lo < hi then begin cnt_var_le ty c lo (hi-1); assert { ty[c[hi-1]] = tok_var \/ true } end
  lemma cnt_var_le2: forall ty c lo hi [cnt_var ty c lo hi]. lo <= hi -> 0 <= cnt_var ty c lo hi <= hi - lo
  (* first position of x in c[lo..) *)
  let rec lemma isin_first (c: map int int) (lo hi x: int) : (r: int)
    requires { lo <= hi /\ isin c lo hi x }
    ensures { lo <= r < hi /\ c[r] = x /\ not (isin c lo r x) } variant { hi - lo }
  = if lo = hi then begin assert { false }; lo end else begin assert { c[hi-1] = x \/ c[hi-1] <> x };
      let y = any bool ensures { result <-> isin c lo (hi-1) x } in
      if y then isin_first c lo (hi-1) x else hi-1 end

  (* scheme sc[3..3+ln), instance ic[3..3+l2), token types ty, separator dm, tm: index of each variable of the scheme *)
  type env = { ty: map int int; sc: map int int; ln: int; ic: map int int; l2: int; dm: int; tm: map int int }
  function nvar (e: env) : int = cnt_var e.ty e.sc 3 (3 + e.ln)
  function nth (e: env) (w: int) : int = nth_var e.ty e.sc 3 w
  predicate wfe (e: env)
  (*L*) axiom wfe_def: forall e [wfe e]. wfe e <-> (
    1 <= e.ln /\ 1 <= e.l2 /\ e.sc[3 + e.ln - 1] = e.dm /\ e.ic[3 + e.l2 - 1] = e.dm /\ e.ty[e.dm] = 1
    /\ cntd e.sc 3 (3 + e.ln) e.dm = cntd e.ic 3 (3 + e.l2) e.dm
    /\ (let c = e.sc in forall j [c[j]]. 3 <= j < 3 + e.ln -> e.ty[c[j]] = tok_var \/ e.ty[c[j]] = 1)
    /\ (let c = e.sc in forall j [c[j]]. 3 <= j < 3 + e.ln -> e.ty[c[j]] = tok_var ->
         0 <= e.tm[c[j]] < nvar e /\ 3 <= nth e e.tm[c[j]] <= j /\ c[nth e e.tm[c[j]]] = c[j]))
  (* the variable with index w *)
  function vtok (e: env) (w: int) : int
  (*L*) axiom vtok_def: forall e w [vtok e w]. vtok e w = e.sc[nth e w]

  (* view of an array indexed by variable index, indexed by token *)
  function comp (c t: map int int) : map int int
  axiom comp_def: forall c t x [(comp c t)[x]]. (comp c t)[x] = c[3 + t[x]]

  (* length of c[lo..hi) after substitution of lengths lt *)
  function tsz (ty lt: map int int) (x: int) : int = if ty[x] = tok_var then lt[x] else 1
  function tpos (ty lt c: map int int) (lo hi: int) : int
  axiom tpos_0: forall ty lt c lo [tpos ty lt c lo lo]. tpos ty lt c lo lo = 0
  axiom tpos_s: forall ty lt c lo hi [tpos ty lt c lo hi, c[hi]]. lo <= hi -> tpos ty lt c lo (hi+1) = tpos ty lt c lo hi + tsz ty lt c[hi]
  let rec lemma tpos_eq (ty lt lu c: map int int) (lo hi: int)
    requires { lo <= hi /\ forall j [c[j]]. lo <= j < hi -> ty[c[j]] = tok_var -> lt[c[j]] = lu[c[j]] }
    ensures { tpos ty lt c lo hi = tpos ty lu c lo hi } variant { hi - lo }
  = if lo < hi then begin tpos_eq ty lt lu c lo (hi-1); assert { tsz ty lt c[hi-1] = tsz ty lu c[hi-1] } end
  let rec lemma tpos_le (ty lt lu c: map int int) (lo hi: int)
    requires { lo <= hi /\ forall j [c[j]]. lo <= j < hi -> ty[c[j]] = tok_var -> lt[c[j]] <= lu[c[j]] }
    ensures { tpos ty lt c lo hi <= tpos ty lu c lo hi } variant { hi - lo }
  = if lo < hi then begin tpos_le ty lt lu c lo (hi-1); assert { tsz ty lt c[hi-1] <= tsz ty lu c[hi-1] } end
  let rec lemma tpos_lt (ty lt lu c: map int int) (lo k hi: int)
    requires { lo <= k < hi /\ forall j [c[j]]. lo <= j < hi -> ty[c[j]] = tok_var -> lt[c[j]] <= lu[c[j]] }
    requires { ty[c[k]] = tok_var /\ lt[c[k]] < lu[c[k]] }
    ensures { tpos ty lt c lo hi < tpos ty lu c lo hi } variant { hi - k }
  = assert { tsz ty lt c[hi-1] <= tsz ty lu c[hi-1] };
    if k < hi - 1 then tpos_lt ty lt lu c lo k (hi-1) else begin tpos_le ty lt lu c lo k; assert { tsz ty lt c[k] < tsz ty lu c[k] } end
  let rec lemma tpos_mono (ty lt c: map int int) (lo a hi: int)
    requires { lo <= a <= hi /\ forall j [c[j]]. lo <= j < hi -> ty[c[j]] = tok_var -> 0 <= lt[c[j]] }
    ensures { tpos ty lt c lo a <= tpos ty lt c lo hi } variant { hi - a }
  = if a < hi then begin tpos_mono ty lt c lo a (hi-1); assert { tsz ty lt c[hi-1] >= 0 } end

  (* position j of the scheme agrees with the instance under the substitution x -> ic[3+sf[x]..+lt[x]) *)
  predicate matj (e: env) (lt sf: map int int) (j: int) =
    (if e.ty[e.sc[j]] = tok_var then eqseg e.ic (3 + sf[e.sc[j]]) e.ic (3 + tpos e.ty lt e.sc 3 j) lt[e.sc[j]]
     else e.ic[3 + tpos e.ty lt e.sc 3 j] = e.sc[j])
  predicate mat (e: env) (lt sf: map int int) (hi: int)
  (*L*) axiom mat_def: forall e lt sf hi [mat e lt sf hi]. mat e lt sf hi <-> (let c = e.sc in forall j [c[j]]. 3 <= j < hi -> matj e lt sf j)
  (* a substitution that makes the scheme equal to the instance *)
  predicate unif (e: env) (lt sf: map int int)
  (*L*) axiom unif_def: forall e lt sf [unif e lt sf]. unif e lt sf <-> (
    tpos e.ty lt e.sc 3 (3 + e.ln) = e.l2 /\ mat e lt sf (3 + e.ln)
    /\ (let c = e.sc in forall j [c[j]]. 3 <= j < 3 + e.ln -> e.ty[c[j]] = tok_var ->
         0 <= lt[c[j]] /\ 0 <= sf[c[j]] /\ sf[c[j]] + lt[c[j]] <= e.l2 /\ nod e.ic (3 + sf[c[j]]) lt[c[j]] e.dm))

  (* lexicographic order of the lengths of the first k variables *)
  predicate eqp (e: env) (lu lt: map int int) (k: int)
  (*L*) axiom eqp_def: forall e lu lt k [eqp e lu lt k]. eqp e lu lt k <-> (forall w [vtok e w]. 0 <= w < k -> lu[vtok e w] = lt[vtok e w])
  predicate gtp (e: env) (lu lt: map int int) (k: int)
  (*L*) axiom gtp_0: forall e lu lt. not (gtp e lu lt 0)
  (*L*) axiom gtp_s: forall e lu lt k [gtp e lu lt (k+1)]. 0 <= k -> (gtp e lu lt (k+1) <-> (gtp e lu lt k \/ (eqp e lu lt k /\ lu[vtok e k] > lt[vtok e k])))
  (*L*) axiom gtp_s2: forall e lu lt k [gtp e lu lt k, vtok e k]. 0 <= k -> (gtp e lu lt (k+1) <-> (gtp e lu lt k \/ (eqp e lu lt k /\ lu[vtok e k] > lt[vtok e k])))
  (*L*) lemma eqp_s2: forall e lu lt k [eqp e lu lt k, vtok e k]. 0 <= k -> eqp e lu lt k -> lu[vtok e k] = lt[vtok e k] -> eqp e lu lt (k+1)
  (*L*) lemma eqp_s: forall e lu lt k. 0 <= k -> (eqp e lu lt (k+1) <-> (eqp e lu lt k /\ lu[vtok e k] = lt[vtok e k]))
  let rec lemma gtp_agree (e: env) (lu lt lv: map int int) (k: int)
    requires { 0 <= k /\ eqp e lt lv k /\ gtp e lu lt k } ensures { gtp e lu lv k } variant { k }
  = if k > 0 then begin assert { eqp e lt lv (k-1) }; let y = any bool ensures { result <-> gtp e lu lt (k-1) } in
      let ghost h = k - 1 in
      assert { vtok e h = vtok e h /\ gtp e lu lt (h+1) };
      assert { lt[vtok e h] = lv[vtok e h] };
      assert { eqp e lu lt h -> eqp e lu lv h };
      if y then begin gtp_agree e lu lt lv h; assert { gtp e lu lv h } end else begin assert { eqp e lu lt h /\ lu[vtok e h] > lt[vtok e h] }; assert { eqp e lu lv h } end;
      assert { gtp e lu lv (h+1) } end

  let rec lemma tpos_eq_all (ty lt lu c: map int int) (lo hi: int)
    requires { lo <= hi /\ forall j [c[j]]. lo <= j < hi -> ty[c[j]] = tok_var -> lt[c[j]] = lu[c[j]] }
    ensures { forall h [tpos ty lt c lo h]. lo <= h <= hi -> tpos ty lt c lo h = tpos ty lu c lo h } variant { hi - lo }
  = if lo < hi then begin tpos_eq_all ty lt lu c lo (hi-1); assert { tsz ty lt c[hi-1] = tsz ty lu c[hi-1] } end

  (* the state of the search: the first p tokens of the scheme are matched, variables 0..v have lengths len and starts st *)
  predicate slot (e: env) (len st: map int int) (j: int)
  (*L*) axiom slot_def: forall e len st j [slot e len st j]. slot e len st j <-> (0 <= len[j] /\ 0 <= st[j] /\ st[j] = tpos e.ty (comp len e.tm) e.sc 3 (nth e (j-3))
          /\ st[j] + len[j] <= e.l2 - 1 /\ nod e.ic (3 + st[j]) len[j] e.dm)
  predicate state (e: env) (len st: map int int) (p v: int)
  (*L*) axiom state_def: forall e len st p v [state e len st p v]. state e len st p v <-> (
    0 <= p <= e.ln - 1 /\ -1 <= v /\ v + 1 = cnt_var e.ty e.sc 3 (3 + p)
    /\ (forall j [len[j]]. 3 <= j <= 3 + v -> slot e len st j)
    /\ mat e (comp len e.tm) (comp st e.tm) (3 + p)
    /\ 0 <= tpos e.ty (comp len e.tm) e.sc 3 (3 + p) <= e.l2 - 1)
  function qpos (e: env) (len: map int int) (p: int) : int = tpos e.ty (comp len e.tm) e.sc 3 (3 + p)

  (* a variable before position p of the scheme has an index below cnt_var *)
  let lemma tm_lt (e: env) (p j: int)
    requires { wfe e /\ 0 <= p <= e.ln /\ 3 <= j < 3 + p /\ e.ty[e.sc[j]] = tok_var }
    ensures { 0 <= e.tm[e.sc[j]] < cnt_var e.ty e.sc 3 (3 + p) }
  = let w = e.tm[e.sc[j]] in
    assert { 0 <= w < nvar e /\ nth e w <= j };
    cnt_var_inv e.ty e.sc 3 (3 + e.ln) w;
    cnt_var_mono e.ty e.sc 3 (pure { nth e w + 1 }) (3 + p)
  (*L*) lemma tm_lt2: forall e p j [cnt_var e.ty e.sc 3 (3 + p), e.tm[e.sc[j]]]. wfe e -> 0 <= p <= e.ln -> 3 <= j < 3 + p -> e.ty[e.sc[j]] = tok_var ->
    0 <= e.tm[e.sc[j]] < cnt_var e.ty e.sc 3 (3 + p)
  (* and a variable that is new at position p has index cnt_var *)
  let lemma tm_new (e: env) (p: int)
    requires { wfe e /\ 0 <= p < e.ln /\ e.ty[e.sc[3+p]] = tok_var }
    ensures { let k = cnt_var e.ty e.sc 3 (3 + p) in let w = e.tm[e.sc[3+p]] in 0 <= w <= k /\ (w = k <-> not (isin e.sc 3 (3 + p) e.sc[3+p])) /\ (w = k -> nth e w = 3 + p /\ cnt_var e.ty e.sc 3 (3 + p + 1) = k + 1) /\ (w < k -> cnt_var e.ty e.sc 3 (3 + p + 1) = k) }
  = let w = e.tm[e.sc[3+p]] in
    cnt_var_inv e.ty e.sc 3 (3 + e.ln) w;
    assert { nth e w <= 3 + p /\ e.sc[nth e w] = e.sc[3+p] };
    let y = any bool ensures { result <-> isin e.sc 3 (3 + p) e.sc[3+p] } in
    if y then begin let r = isin_first e.sc 3 (3 + p) e.sc[3+p] in
      assert { nth e w <= r by not (isin e.sc 3 (nth e w) e.sc[3+p]) };
      cnt_var_mono e.ty e.sc 3 (pure { nth e w + 1 }) (3 + p) end
    else begin assert { nth e w = 3 + p by not (isin e.sc 3 (3+p) e.sc[nth e w]) } end

  let lemma state_agree (e: env) (len st len2 st2: map int int) (p v: int)
    requires { wfe e /\ state e len st p v }
    requires { forall j [len2[j]]. 3 <= j <= 3 + v -> len2[j] = len[j] /\ st2[j] = st[j] }
    ensures { state e len2 st2 p v /\ qpos e len2 p = qpos e len p }
  = assert { let c = e.sc in forall j [c[j]]. 3 <= j < 3 + p -> e.ty[c[j]] = tok_var -> 0 <= e.tm[c[j]] <= v };
    assert { let c = e.sc in forall j [c[j]]. 3 <= j < 3 + p -> e.ty[c[j]] = tok_var -> (comp len2 e.tm)[c[j]] = (comp len e.tm)[c[j]] /\ (comp st2 e.tm)[c[j]] = (comp st e.tm)[c[j]]  };
    tpos_eq_all e.ty (pure { comp len2 e.tm }) (pure { comp len e.tm }) e.sc 3 (3 + p);
    assert { let c = e.sc in forall j [c[j]]. 3 <= j < 3 + p -> tpos e.ty (comp len2 e.tm) e.sc 3 j = tpos e.ty (comp len e.tm) e.sc 3 j };
    assert { let c = e.sc in forall j [c[j]]. 3 <= j < 3 + p -> matj e (comp len e.tm) (comp st e.tm) j -> matj e (comp len2 e.tm) (comp st2 e.tm) j };
    assert { mat e (comp len2 e.tm) (comp st2 e.tm) (3 + p) };
    assert { forall j [len2[j]]. 3 <= j <= 3 + v -> 3 <= nth e (j-3) < 3 + p by (forall w [nth e w]. 0 <= w < cnt_var e.ty e.sc 3 (3 + p) -> 3 <= nth e w < 3 + p) }

  let lemma state_restrict (e: env) (len st: map int int) (p v p1 v1: int)
    requires { wfe e /\ state e len st p v /\ 0 <= p1 <= p /\ v1 + 1 = cnt_var e.ty e.sc 3 (3 + p1) }
    ensures { state e len st p1 v1 }
  = cnt_var_mono e.ty e.sc 3 3 (3 + p1); cnt_var_mono e.ty e.sc 3 (3 + p1) (3 + p);
    assert { let c = e.sc in forall j [c[j]]. 3 <= j < 3 + p -> e.ty[c[j]] = tok_var -> 0 <= (comp len e.tm)[c[j]] by 0 <= e.tm[c[j]] <= v };
    tpos_mono e.ty (pure { comp len e.tm }) e.sc 3 (3 + p1) (3 + p);
    tpos_mono e.ty (pure { comp len e.tm }) e.sc 3 3 (3 + p1);
    assert { mat e (comp len e.tm) (comp st e.tm) (3 + p1) }

  (* as many separators in the matched part of the scheme as in the matched part of the instance *)
  let rec lemma state_cnt (e: env) (len st: map int int) (p v p1: int)
    requires { wfe e /\ state e len st p v /\ 0 <= p1 <= p }
    ensures { cntd e.sc 3 (3 + p1) e.dm = cntd e.ic 3 (3 + qpos e len p1) e.dm }
    ensures { 0 <= qpos e len p1 <= qpos e len p }
    variant { p1 }
  = assert { let c = e.sc in forall j [c[j]]. 3 <= j < 3 + p -> e.ty[c[j]] = tok_var -> 0 <= (comp len e.tm)[c[j]] by 0 <= e.tm[c[j]] <= v };
    tpos_mono e.ty (pure { comp len e.tm }) e.sc 3 3 (3 + p1);
    tpos_mono e.ty (pure { comp len e.tm }) e.sc 3 (3 + p1) (3 + p);
    if p1 > 0 then begin
      state_cnt e len st p v (p1 - 1);
      let x = e.sc[3 + (p1 - 1)] in
      assert { matj e (comp len e.tm) (comp st e.tm) (3 + (p1-1)) };
      assert { qpos e len p1 = qpos e len (p1 - 1) + tsz e.ty (comp len e.tm) x };
      assert { cntd e.sc 3 (3 + (p1-1) + 1) e.dm = cntd e.sc 3 (3 + (p1-1)) e.dm + (if x = e.dm then 1 else 0) };
      if e.ty[x] = tok_var then begin
        let k = e.tm[x] in
        assert { 0 <= k <= v };
        assert { len[3+k] >= 0 /\ nod e.ic (3 + st[3+k]) len[3+k] e.dm };
        assert { eqseg e.ic (3 + st[3+k]) e.ic (3 + qpos e len (p1-1)) len[3+k] };
        assert { nod e.ic (3 + qpos e len (p1-1)) len[3+k] e.dm };
        cntd_nod e.ic 3 (3 + pure { qpos e len (p1-1) }) (len[3+k]) e.dm
      end else begin
        assert { e.ic[3 + qpos e len (p1-1)] = x };
        assert { cntd e.ic 3 (3 + qpos e len (p1-1) + 1) e.dm = cntd e.ic 3 (3 + qpos e len (p1-1)) e.dm + (if x = e.dm then 1 else 0) }
      end
    end

  let lemma mat_s (e: env) (lt sf: map int int) (p: int)
    requires { 0 <= p /\ mat e lt sf (3 + p) /\ matj e lt sf (3 + p) }
    ensures { mat e lt sf (3 + (p + 1)) }
  = assert { let c = e.sc in forall j [c[j]]. 3 <= j < 3 + (p + 1) -> matj e lt sf j by (j = 3 + p \/ j < 3 + p) }

  let lemma step_const (e: env) (len st: map int int) (p v: int)
    requires { wfe e /\ state e len st p v /\ e.ty[e.sc[3+p]] = 1 }
    requires { let q = qpos e len p in e.ic[3+q] = e.sc[3+p] /\ not (p = e.ln - 1 /\ q = e.l2 - 1) }
    ensures { state e len st (p+1) v /\ qpos e len (p+1) = qpos e len p + 1 }
  = state_cnt e len st p v p;
    let ghost q = pure { qpos e len p } in
    assert { qpos e len (p+1) = q + 1 };
    assert { tok_var = 0 };
    if p = e.ln - 1 then begin
      cntd_mono e.ic 3 (3+q+1) (3 + e.l2 - 1) e.dm;
      assert { cntd e.ic 3 (3 + q + 1) e.dm = cntd e.ic 3 (3 + q) e.dm + 1 };
      assert { cntd e.ic 3 (3 + e.l2 - 1 + 1) e.dm = cntd e.ic 3 (3 + e.l2 - 1) e.dm + 1 };
      assert { cntd e.sc 3 (3 + p + 1) e.dm = cntd e.sc 3 (3 + p) e.dm + 1 };
      assert { false } end;
    if q = e.l2 - 1 then begin
      cntd_mono e.sc 3 (3+p+1) (3 + e.ln - 1) e.dm;
      assert { cntd e.sc 3 (3 + p + 1) e.dm = cntd e.sc 3 (3 + p) e.dm + 1 };
      assert { cntd e.sc 3 (3 + e.ln - 1 + 1) e.dm = cntd e.sc 3 (3 + e.ln - 1) e.dm + 1 };
      assert { cntd e.ic 3 (3 + q + 1) e.dm = cntd e.ic 3 (3 + q) e.dm + 1 };
      assert { false } end;
    assert { matj e (comp len e.tm) (comp st e.tm) (3+p) };
    mat_s e (pure { comp len e.tm }) (pure { comp st e.tm }) p;
    assert { 0 <= qpos e len (p+1) <= e.l2 - 1 };
    assert { cnt_var e.ty e.sc 3 (3 + p + 1) = cnt_var e.ty e.sc 3 (3 + p) }

  let lemma step_new (e: env) (len st len2 st2: map int int) (p v: int)
    requires { wfe e /\ state e len st p v /\ e.ty[e.sc[3+p]] = tok_var /\ e.tm[e.sc[3+p]] > v }
    requires { forall j [len2[j]]. 3 <= j <= 3 + v -> len2[j] = len[j] /\ st2[j] = st[j] }
    requires { len2[3 + v + 1] = 0 /\ st2[3 + v + 1] = qpos e len p }
    ensures { e.tm[e.sc[3+p]] = v + 1 /\ v + 1 < nvar e /\ state e len2 st2 (p+1) (v+1) /\ qpos e len2 (p+1) = qpos e len p }
  = state_agree e len st len2 st2 p v;
    tm_new e p;
    assert { e.sc[3+p] <> e.dm };
    assert { p < e.ln - 1 };
    assert { nth e (v+1) = 3 + p };
    assert { (comp len2 e.tm)[e.sc[3+p]] = 0 };
    assert { qpos e len2 (p+1) = qpos e len2 p };
    assert { nod e.ic (3 + st2[3 + v + 1]) 0 e.dm };
    assert { matj e (comp len2 e.tm) (comp st2 e.tm) (3+p) };
    mat_s e (pure { comp len2 e.tm }) (pure { comp st2 e.tm }) p;
    assert { 0 <= qpos e len2 (p+1) <= e.l2 - 1 };
    assert { slot e len2 st2 (3 + (v + 1)) };
    assert { forall j [len2[j]]. 3 <= j <= 3 + v -> slot e len2 st2 j };
    assert { forall j [len2[j]]. 3 <= j <= 3 + (v+1) -> slot e len2 st2 j by (j = 3 + v + 1 \/ j <= 3 + v) };
    assert { v + 1 + 1 = cnt_var e.ty e.sc 3 (3 + p + 1) };
    assert { state e len2 st2 (p+1) (v+1) };
    cnt_var_mono e.ty e.sc 3 (3 + p + 1) (3 + e.ln)

  let lemma step_old (e: env) (len st: map int int) (p v: int)
    requires { wfe e /\ state e len st p v /\ e.ty[e.sc[3+p]] = tok_var /\ e.tm[e.sc[3+p]] <= v }
    requires { let k = e.tm[e.sc[3+p]] in let q = qpos e len p in q + len[3+k] <= e.l2 /\ eqseg e.ic (3 + st[3+k]) e.ic (3 + q) len[3+k] }
    ensures { state e len st (p+1) v /\ qpos e len (p+1) = qpos e len p + len[3 + e.tm[e.sc[3+p]]] }
  = tm_new e p;
    let k = e.tm[e.sc[3+p]] in
    let ghost q = pure { qpos e len p } in
    assert { e.sc[3+p] <> e.dm };
    assert { qpos e len (p+1) = q + len[3+k] };
    assert { len[3+k] >= 0 /\ nod e.ic (3 + st[3+k]) len[3+k] e.dm };
    assert { nod e.ic (3 + q) len[3+k] e.dm };
    assert { q + len[3+k] <> e.l2 by (q + len[3+k] = e.l2 -> len[3+k] > 0 /\ 3 + q <= 3 + e.l2 - 1 < 3 + q + len[3+k] /\ e.ic[3 + e.l2 - 1] <> e.dm) };
    assert { matj e (comp len e.tm) (comp st e.tm) (3+p) };
    mat_s e (pure { comp len e.tm }) (pure { comp st e.tm }) p;
    assert { 0 <= qpos e len (p+1) <= e.l2 - 1 };
    assert { p < e.ln - 1 }; assert { v + 1 = cnt_var e.ty e.sc 3 (3 + p + 1) }

  let lemma step_inc (e: env) (len st len2: map int int) (v: int)
    requires { wfe e /\ 0 <= v < nvar e /\ state e len st (nth e v - 3 + 1) v }
    requires { forall j [len2[j]]. 3 <= j < 3 + v -> len2[j] = len[j] }
    requires { len2[3 + v] = len[3 + v] + 1 /\ e.ic[3 + st[3+v] + len[3+v]] <> e.dm }
    ensures { state e len2 st (nth e v - 3 + 1) v /\ qpos e len2 (nth e v - 3 + 1) = st[3+v] + len2[3+v] /\ st[3+v] + len2[3+v] <= e.l2 - 1 }
  = cnt_var_inv e.ty e.sc 3 (3 + e.ln) v;
    let ghost p = pure { nth e v - 3 } in
    assert { cnt_var e.ty e.sc 3 (3 + p) = v };
    tm_new e p;
    assert { e.tm[e.sc[3+p]] = v };
    state_restrict e len st (p+1) v p (v-1);
    state_agree e len st len2 st p (v-1);
    assert { st[3+v] = qpos e len p };
    assert { (comp len2 e.tm)[e.sc[3+p]] = len2[3+v] };
    assert { qpos e len2 (p+1) = st[3+v] + len2[3+v] };
    assert { nod e.ic (3 + st[3+v]) len[3+v] e.dm };
    assert { let c = e.ic in forall j [c[j]]. 3 + st[3+v] <= j < 3 + st[3+v] + len2[3+v] -> c[j] <> e.dm };
    assert { nod e.ic (3 + st[3+v]) len2[3+v] e.dm };
    assert { st[3+v] + len2[3+v] <= e.l2 - 1 by st[3+v] + len[3+v] <> e.l2 - 1 };
    assert { tpos e.ty (comp len2 e.tm) e.sc 3 (3+p) = st[3+v] };
    assert { (comp st e.tm)[e.sc[3+p]] = st[3+v] };
    assert { let n = (comp len2 e.tm)[e.sc[3+p]] in eqseg e.ic (3 + st[3+v]) e.ic (3 + st[3+v]) n };
    assert { matj e (comp len2 e.tm) (comp st e.tm) (3+p) };
    mat_s e (pure { comp len2 e.tm }) (pure { comp st e.tm }) p;
    assert { 0 <= qpos e len2 (p+1) <= e.l2 - 1 };
    assert { 3 + p = nth e v };
    assert { qpos e len2 p = tpos e.ty (comp len2 e.tm) e.sc 3 (nth e (3 + v - 3)) };
    assert { state e len2 st p (v-1) };
    assert { slot e len2 st (3 + v) };
    assert { forall j [len2[j]]. 3 <= j <= 3 + (v-1) -> slot e len2 st j };
    assert { forall j [len2[j]]. 3 <= j <= 3 + v -> slot e len2 st j by (j = 3 + v \/ j <= 3 + (v-1)) };
    assert { v + 1 = cnt_var e.ty e.sc 3 (3 + p + 1) }; assert { 0 <= p + 1 <= e.ln - 1 by e.sc[3+p] <> e.dm }

  (* the lengths of the state, by token *)
  (* every unifier (except, if ex, those with the lengths l1) agrees with lt on the first k variables or is greater *)
  predicate tail (e: env) (ex: bool) (l1 lt: map int int) (k: int)
  (*L*) axiom tail_def: forall e ex l1 lt k [tail e ex l1 lt k]. tail e ex l1 lt k <->
    (forall lu su [unif e lu su]. unif e lu su -> (ex = true /\ eqp e lu l1 (nvar e)) \/ eqp e lu lt k \/ gtp e lu lt k)
  (* ... is greater *)
  predicate strict (e: env) (ex: bool) (l1 lt: map int int) (k: int)
  (*L*) axiom strict_def: forall e ex l1 lt k [strict e ex l1 lt k]. strict e ex l1 lt k <->
    (forall lu su [unif e lu su]. unif e lu su -> (ex = true /\ eqp e lu l1 (nvar e)) \/ gtp e lu lt k)

  (* lengths by token: vtok *)
  (*L*) lemma vtok_tm: forall e w [vtok e w]. wfe e -> 0 <= w < nvar e -> e.tm[vtok e w] = w /\ e.ty[vtok e w] = tok_var
     by (let j = nth e w in 3 <= j < 3 + e.ln /\ e.ty[e.sc[j]] = tok_var /\ not (isin e.sc 3 j e.sc[j]) /\ cnt_var e.ty e.sc 3 j = w
         /\ nth e e.tm[e.sc[j]] <= j /\ e.sc[nth e e.tm[e.sc[j]]] = e.sc[j] so nth e e.tm[e.sc[j]] = j so e.tm[e.sc[j]] = w)
  (*L*) lemma sc_vtok: forall e j [e.tm[e.sc[j]]]. wfe e -> 3 <= j < 3 + e.ln -> e.ty[e.sc[j]] = tok_var -> vtok e e.tm[e.sc[j]] = e.sc[j]

  (* a unifier that agrees on the variables before p puts position p at the same place *)
  let lemma unif_pos (e: env) (lu su lt: map int int) (p k: int)
    requires { wfe e /\ unif e lu su /\ 0 <= p <= e.ln /\ k = cnt_var e.ty e.sc 3 (3 + p) /\ eqp e lu lt k }
    ensures { tpos e.ty lu e.sc 3 (3 + p) = tpos e.ty lt e.sc 3 (3 + p) }
  = assert { let c = e.sc in forall j [c[j]]. 3 <= j < 3 + p -> e.ty[c[j]] = tok_var -> lu[c[j]] = lt[c[j]]
        by 0 <= e.tm[c[j]] < k /\ vtok e e.tm[c[j]] = c[j] };
    tpos_eq e.ty lu lt e.sc 3 (3 + p)

  (* a mismatch at a constant: no unifier agrees with the state *)
  let lemma no_const (e: env) (len st lu su: map int int) (p v: int)
    requires { wfe e /\ state e len st p v /\ unif e lu su /\ eqp e lu (comp len e.tm) (v+1) }
    requires { e.ty[e.sc[3+p]] = 1 /\ e.ic[3 + qpos e len p] <> e.sc[3+p] }
    ensures { false }
  = unif_pos e lu su (pure { comp len e.tm }) p (v+1);
    assert { matj e lu su (3 + p) }
  let lemma strict_const (e: env) (ex: bool) (l1 len st: map int int) (p v: int)
    requires { wfe e /\ state e len st p v /\ tail e ex l1 (comp len e.tm) (v+1) }
    requires { e.ty[e.sc[3+p]] = 1 /\ e.ic[3 + qpos e len p] <> e.sc[3+p] }
    ensures { strict e ex l1 (comp len e.tm) (v+1) }
  = assert { forall lu su [unif e lu su]. unif e lu su -> (ex = true /\ eqp e lu l1 (nvar e)) \/ gtp e lu (comp len e.tm) (v+1) }

  (* a mismatch at a repeated variable *)
  let lemma no_old (e: env) (len st lu su: map int int) (p v i: int)
    requires { wfe e /\ state e len st p v /\ unif e lu su /\ eqp e lu (comp len e.tm) (v+1) }
    requires { e.ty[e.sc[3+p]] = tok_var /\ e.tm[e.sc[3+p]] <= v }
    requires { let k = e.tm[e.sc[3+p]] in let q = qpos e len p in
       0 <= i < len[3+k] /\ (q + i >= e.l2 \/ e.ic[3 + st[3+k] + i] <> e.ic[3 + q + i]) }
    ensures { false }
  = tm_new e p;
    let x = e.sc[3+p] in
    let k = e.tm[x] in
    let ghost lt = pure { comp len e.tm } in
    let ghost q = pure { qpos e len p } in
    unif_pos e lu su lt p (v+1);
    assert { vtok e k = x }; assert { lu[x] = len[3+k] };
    assert { matj e lu su (3 + p) };
    assert { eqseg e.ic (3 + su[x]) e.ic (3 + q) lu[x] };
    assert { let c = e.sc in forall j [c[j]]. 3 <= j < 3 + e.ln -> e.ty[c[j]] = tok_var -> 0 <= lu[c[j]] };
    tpos_mono e.ty lu e.sc 3 (3 + p + 1) (3 + e.ln);
    assert { q + lu[x] <= e.l2 };
    cnt_var_inv e.ty e.sc 3 (3 + e.ln) k;
    let ghost f = pure { nth e k - 3 } in
    assert { e.sc[3+f] = x /\ cnt_var e.ty e.sc 3 (3 + f) = k };
    unif_pos e lu su lt f k;
    assert { st[3+k] = tpos e.ty lt e.sc 3 (3 + f) };
    assert { matj e lu su (3 + f) };
    assert { eqseg e.ic (3 + su[x]) e.ic (3 + st[3+k]) lu[x] };
    assert { e.ic[3 + su[x] + i] = e.ic[3 + st[3+k] + i] };
    assert { e.ic[3 + su[x] + i] = e.ic[3 + q + i] }
  let lemma strict_old (e: env) (ex: bool) (l1 len st: map int int) (p v i: int)
    requires { wfe e /\ state e len st p v /\ tail e ex l1 (comp len e.tm) (v+1) }
    requires { e.ty[e.sc[3+p]] = tok_var /\ e.tm[e.sc[3+p]] <= v }
    requires { let k = e.tm[e.sc[3+p]] in let q = qpos e len p in
       0 <= i < len[3+k] /\ (q + i >= e.l2 \/ e.ic[3 + st[3+k] + i] <> e.ic[3 + q + i]) }
    ensures { strict e ex l1 (comp len e.tm) (v+1) }
  = assert { forall lu su [unif e lu su]. unif e lu su -> (ex = true /\ eqp e lu l1 (nvar e)) \/ gtp e lu (comp len e.tm) (v+1) }

  (*L*) lemma eqp_agree: forall e lu lt lv k. eqp e lu lt k -> eqp e lt lv k -> eqp e lu lv k
  (*L*) lemma eqp_sym: forall e lu lt k. eqp e lu lt k -> eqp e lt lu k
  (*L*) lemma comp_eqp: forall e len len2 k [eqp e (comp len e.tm) (comp len2 e.tm) k]. wfe e -> k <= nvar e -> (forall j [len2[j]]. 3 <= j < 3 + k -> len2[j] = len[j]) -> eqp e (comp len e.tm) (comp len2 e.tm) k

  (* a new variable starts with length 0 *)
  let lemma lex_new (e: env) (lu lt l2: map int int) (k: int)
    requires { 0 <= k /\ (eqp e lu lt k \/ gtp e lu lt k) /\ eqp e lt l2 k /\ l2[vtok e k] = 0 /\ lu[vtok e k] >= 0 }
    ensures { eqp e lu l2 (k+1) \/ gtp e lu l2 (k+1) }
  = assert { eqp e lu lt k -> eqp e lu l2 k };
    assert { gtp e lu lt k -> gtp e lu l2 k };
    assert { lu[vtok e k] = 0 \/ lu[vtok e k] > l2[vtok e k] }
  let lemma tail_new (e: env) (ex: bool) (l1 len len2: map int int) (v: int)
    requires { wfe e /\ -1 <= v /\ v + 1 < nvar e /\ tail e ex l1 (comp len e.tm) (v+1) }
    requires { (forall j [len2[j]]. 3 <= j <= 3 + v -> len2[j] = len[j]) /\ len2[3 + v + 1] = 0 }
    ensures { tail e ex l1 (comp len2 e.tm) (v+2) }
  = let ghost lt = pure { comp len e.tm } in let ghost l2 = pure { comp len2 e.tm } in
    assert { eqp e lt l2 (v+1) };
    cnt_var_inv e.ty e.sc 3 (3 + e.ln) (v+1);
    assert { e.tm[vtok e (v+1)] = v+1 };
    assert { l2[vtok e (v+1)] = 0 };
    assert { forall lu su [unif e lu su]. unif e lu su -> (ex = true /\ eqp e lu l1 (nvar e)) \/ eqp e lu l2 (v+1+1) \/ gtp e lu l2 (v+1+1)
      by lu[vtok e (v+1)] >= 0 so (ex = true /\ eqp e lu l1 (nvar e)) \/ eqp e lu lt (v+1) \/ gtp e lu lt (v+1) };
    assert { tail e ex l1 l2 (v+1+1) }

  (* the length of the last variable is incremented *)
  let lemma tail_inc (e: env) (ex: bool) (l1 len len2: map int int) (v: int)
    requires { wfe e /\ 0 <= v < nvar e /\ strict e ex l1 (comp len e.tm) (v+1) }
    requires { (forall j [len2[j]]. 3 <= j < 3 + v -> len2[j] = len[j]) /\ len2[3 + v] = len[3 + v] + 1 }
    ensures { tail e ex l1 (comp len2 e.tm) (v+1) }
  = let ghost lt = pure { comp len e.tm } in let ghost l2 = pure { comp len2 e.tm } in
    assert { eqp e lt l2 v };
    assert { e.tm[vtok e v] = v };
    assert { l2[vtok e v] = lt[vtok e v] + 1 };
    assert { forall lu su [unif e lu su]. unif e lu su -> (ex = true /\ eqp e lu l1 (nvar e)) \/ eqp e lu l2 (v+1) \/ gtp e lu l2 (v+1)
       by gtp e lu lt (v+1) so (gtp e lu l2 v \/ (eqp e lu l2 v /\ lu[vtok e v] >= l2[vtok e v])) }

  (* the last variable cannot get longer *)
  let lemma no_longer (e: env) (len st lu su: map int int) (v: int)
    requires { wfe e /\ 0 <= v < nvar e /\ state e len st (nth e v - 3 + 1) v /\ unif e lu su }
    requires { eqp e lu (comp len e.tm) v /\ lu[vtok e v] > len[3+v] /\ e.ic[3 + st[3+v] + len[3+v]] = e.dm }
    ensures { false }
  = cnt_var_inv e.ty e.sc 3 (3 + e.ln) v;
    let ghost f = pure { nth e v - 3 } in let ghost x = pure { vtok e v } in
    let ghost lt = pure { comp len e.tm } in
    unif_pos e lu su lt f v;
    assert { st[3+v] = tpos e.ty lt e.sc 3 (3 + f) };
    assert { e.sc[3 + f] = x };
    assert { matj e lu su (3 + f) };
    assert { eqseg e.ic (3 + su[x]) e.ic (3 + st[3+v]) lu[x] };
    assert { e.ic[3 + su[x] + len[3+v]] = e.ic[3 + st[3+v] + len[3+v]] };
    assert { nod e.ic (3 + su[x]) lu[x] e.dm }
  let lemma strict_pop (e: env) (ex: bool) (l1 len st len2: map int int) (v: int)
    requires { wfe e /\ 0 <= v < nvar e /\ state e len st (nth e v - 3 + 1) v /\ strict e ex l1 (comp len e.tm) (v+1) }
    requires { e.ic[3 + st[3+v] + len[3+v]] = e.dm }
    requires { forall j [len2[j]]. 3 <= j < 3 + v -> len2[j] = len[j] }
    ensures { strict e ex l1 (comp len2 e.tm) v }
  = let ghost lt = pure { comp len e.tm } in let ghost l2 = pure { comp len2 e.tm } in
    assert { eqp e lt l2 v };
    assert { e.tm[vtok e v] = v };
    assert { lt[vtok e v] = len[3+v] };
    assert { forall lu su [unif e lu su]. unif e lu su -> (ex = true /\ eqp e lu l1 (nvar e)) \/ gtp e lu l2 v
      by gtp e lu lt (v+1) so not (eqp e lu lt v /\ lu[vtok e v] > len[3+v]) so gtp e lu lt v }
  (* ... and the state is that of the variable before *)
  function bpos (e: env) (v: int) : int = if v < 0 then 0 else nth e v - 3 + 1
  let lemma state_pop (e: env) (len st len2: map int int) (v: int)
    requires { wfe e /\ 0 <= v < nvar e /\ state e len st (nth e v - 3 + 1) v }
    requires { forall j [len2[j]]. 3 <= j < 3 + v -> len2[j] = len[j] }
    ensures { state e len2 st (bpos e (v-1)) (v-1) }
  = cnt_var_inv e.ty e.sc 3 (3 + e.ln) v;
    if v > 0 then begin cnt_var_inv e.ty e.sc 3 (3 + e.ln) (v-1);
      cnt_var_inv e.ty e.sc 3 (nth_var e.ty e.sc 3 v) (v-1) end;
    state_restrict e len st (pure { nth e v - 3 + 1 }) v (pure { bpos e (v-1) }) (v-1);
    state_agree e len st len2 st (pure { bpos e (v-1) }) (v-1)
  let lemma state_back (e: env) (len st: map int int) (p v: int)
    requires { wfe e /\ state e len st p v }
    ensures { v < nvar e /\ state e len st (bpos e v) v }
  = cnt_var_mono e.ty e.sc 3 (3 + p) (3 + e.ln);
    if v >= 0 then begin cnt_var_inv e.ty e.sc 3 (3 + p) v end;
    state_restrict e len st p v (pure { bpos e v }) v

  (* a completed search is a unifier *)
  let lemma found (e: env) (len st: map int int) (v: int)
    requires { wfe e /\ state e len st (e.ln - 1) v /\ qpos e len (e.ln - 1) = e.l2 - 1 }
    ensures { unif e (comp len e.tm) (comp st e.tm) /\ v + 1 = nvar e }
  = let ghost lt = pure { comp len e.tm } in let ghost sf = pure { comp st e.tm } in
    assert { matj e lt sf (3 + (e.ln - 1)) };
    mat_s e lt sf (e.ln - 1);
    assert { tpos e.ty lt e.sc 3 (3 + e.ln - 1 + 1) = e.l2 };
    assert { cnt_var e.ty e.sc 3 (3 + (e.ln - 1) + 1) = cnt_var e.ty e.sc 3 (3 + (e.ln - 1)) };
    assert { let c = e.sc in forall j [c[j]]. 3 <= j < 3 + e.ln -> e.ty[c[j]] = tok_var ->
         (0 <= lt[c[j]] /\ 0 <= sf[c[j]] /\ sf[c[j]] + lt[c[j]] <= e.l2 /\ nod e.ic (3 + sf[c[j]]) lt[c[j]] e.dm)
         by 0 <= e.tm[c[j]] <= v so lt[c[j]] = len[3 + e.tm[c[j]]] /\ sf[c[j]] = st[3 + e.tm[c[j]]] }
  (* two unifiers that agree on all but the last variable agree on the last *)
  let lemma last_eq (e: env) (lu su lt sf: map int int)
    requires { wfe e /\ unif e lu su /\ unif e lt sf /\ nvar e > 0 /\ eqp e lu lt (nvar e - 1) /\ lu[vtok e (nvar e - 1)] > lt[vtok e (nvar e - 1)] }
    ensures { false }
  = let ghost n = pure { nvar e } in
    cnt_var_inv e.ty e.sc 3 (3 + e.ln) (n - 1);
    assert { let c = e.sc in forall j [c[j]]. 3 <= j < 3 + e.ln -> e.ty[c[j]] = tok_var -> lt[c[j]] <= lu[c[j]]
        by 0 <= e.tm[c[j]] < n /\ vtok e e.tm[c[j]] = c[j] so (e.tm[c[j]] < n - 1 \/ e.tm[c[j]] = n - 1) };
    tpos_lt e.ty lt lu e.sc 3 (nth_var e.ty e.sc 3 (n - 1)) (3 + e.ln)
  let lemma strict_first (e: env) (lt sf: map int int)
    requires { wfe e /\ unif e lt sf /\ tail e false lt lt (nvar e) }
    ensures { strict e true lt lt (nvar e - 1) \/ nvar e = 0 }
    ensures { nvar e = 0 -> strict e true lt lt 0 }
  = let ghost n = pure { nvar e } in
    if n > 0 then begin let ghost k = n - 1 in
    assert { e.tm[vtok e k] = k };
    assert { forall lu su [unif e lu su]. unif e lu su -> eqp e lu lt n \/ gtp e lu lt k
      by eqp e lu lt n \/ gtp e lu lt (k + 1)
      so gtp e lu lt (k + 1) -> (gtp e lu lt k \/ (eqp e lu lt k /\ lu[vtok e k] > lt[vtok e k])) } end
    else begin cnt_var_mono e.ty e.sc 3 3 (3 + e.ln); assert { n = 0 }; assert { forall lu su [unif e lu su]. unif e lu su -> eqp e lu lt n } end
  (* no unifier, exactly one (up to where the equal substitutions are read), two different ones *)
  predicate nounif (e: env)
  (*L*) axiom nounif_def: forall e [nounif e]. nounif e <-> (forall lu su [unif e lu su]. not (unif e lu su))
  predicate oneunif (e: env) (lt sf: map int int)
  (*L*) axiom oneunif_def: forall e lt sf [oneunif e lt sf]. oneunif e lt sf <-> (unif e lt sf /\ (forall lu su [unif e lu su]. unif e lu su -> eqp e lu lt (nvar e)))
  predicate twounif (e: env)
  (*L*) axiom twounif_def: forall e [twounif e]. twounif e <-> (exists lu su lv sv. unif e lu su /\ unif e lv sv /\ not (eqp e lu lv (nvar e)))
  (*L*) lemma twounif_i: forall e lu su lv sv [unif e lu su, unif e lv sv]. unif e lu su -> unif e lv sv -> not (eqp e lu lv (nvar e)) -> twounif e
  lemma strict_none: forall e l1 lt [strict e false l1 lt 0]. strict e false l1 lt 0 -> nounif e
  lemma strict_one: forall e l1 s1 lt [strict e true l1 lt 0, unif e l1 s1]. unif e l1 s1 -> strict e true l1 lt 0 -> oneunif e l1 s1
  let rec lemma gtp_ne (e: env) (lu lt: map int int) (k: int)
    requires { 0 <= k /\ gtp e lu lt k } ensures { not (eqp e lu lt k) } variant { k }
  = if k > 0 then begin let y = any bool ensures { result <-> gtp e lu lt (k-1) } in
     if y then begin gtp_ne e lu lt (k-1); assert { not (eqp e lu lt (k-1)) } end else assert { lu[vtok e (k-1)] > lt[vtok e (k-1)] } end

  (* r is the substitution x -> ic[3+sf[x]..+lt[x]) applied to c[3..hi) *)
  predicate sbstj (ty lt sf ic c r: map int int) (j: int) =
    (if ty[c[j]] = 1 then r[3 + tpos ty lt c 3 j] = c[j]
     else eqseg r (3 + tpos ty lt c 3 j) ic (3 + sf[c[j]]) lt[c[j]])
  predicate sbst (ty lt sf ic c: map int int) (hi: int) (r: map int int)
  (*L*) axiom sbst_def: forall ty lt sf ic c hi r [sbst ty lt sf ic c hi r]. sbst ty lt sf ic c hi r <-> (forall j [c[j]]. 3 <= j < hi -> sbstj ty lt sf ic c r j)
  (* the number string of block content r is the substitution instance of the n elements of c *)
  predicate instance (ty lt sf ic c: map int int) (n: int) (r: map int int) =
    hlen r = tpos ty lt c 3 (3 + n) /\ sbst ty lt sf ic c (3 + n) r
  (* r is the instance of the assertion c under some unifier *)
  predicate derived (e: env) (c: map int int) (n: int) (r: map int int)
  (*L*) axiom derived_def: forall e c n r [derived e c n r]. derived e c n r <-> (exists lt sf. unif e lt sf /\ instance e.ty lt sf e.ic c n r)
  (*L*) lemma derived_i: forall e lt sf c n r [derived e c n r, unif e lt sf]. unif e lt sf -> instance e.ty lt sf e.ic c n r -> derived e c n r
  let rec lemma tpos_bound (ty lt c: map int int) (lo hi m: int)
    requires { lo <= hi /\ 1 <= m /\ forall j [c[j]]. lo <= j < hi -> ty[c[j]] = tok_var -> 0 <= lt[c[j]] <= m }
    ensures { 0 <= tpos ty lt c lo hi <= (hi - lo) * m } variant { hi - lo }
  = if lo < hi then begin tpos_bound ty lt c lo (hi-1) m; assert { 0 <= tsz ty lt c[hi-1] <= m }; assert { (hi - lo) * m = (hi - 1 - lo) * m + m } end

  (* array of n numbers held in a number string's block *)
  predicate arr (c: map int int) (p: ptr) (n: int) = p.o = 3 /\ lo64 p.b = 1 /\ 0 <= n /\ c[2] = 8 * (n + 1) /\ c[1] = 8 * (bsize p.b - 3) /\ n + 4 <= bsize p.b /\ c[3 + n] = -1
  lemma arr_nstr: forall c p n [nstrc c p n]. nstrc c p n -> arr c p n
  (* a number string of tokens *)
  predicate toks (m: map int (map int int)) (p: ptr) (k mx: int)
  axiom toks_def: forall m p k mx [toks m p k mx]. toks m p k mx <-> (nstr m p /\ p.b < k /\ nlen m p < 1073741824
     /\ (let c = m[p.b] in forall j [c[j]]. 3 <= j < 3 + nlen m p -> 0 <= c[j] <= mx))
  (* every variable of c[3..3+n) occurs in the scheme *)
  predicate vars_in (ty c: map int int) (n: int) (sc: map int int) (ln: int)
  axiom vars_in_def: forall ty c n sc ln [vars_in ty c n sc ln]. vars_in ty c n sc ln <-> (forall j [c[j]]. 3 <= j < 3 + n -> ty[c[j]] = tok_var -> isin sc 3 (3 + ln) c[j])
  predicate typed (ty c: map int int) (n: int)
  axiom typed_def: forall ty c n [typed ty c n]. typed ty c n <-> (forall j [c[j]]. 3 <= j < 3 + n -> ty[c[j]] = tok_var \/ ty[c[j]] = 1)

  function mkenv (ty sc ic: map int int) (dm: int) (tm: map int int) : env = { ty = ty; sc = sc; ln = hlen sc; ic = ic; l2 = hlen ic; dm = dm; tm = tm }

  let lemma bv_nth (r ty c: map int int) (hi w: int)
    requires { 3 <= hi /\ sel_var r 3 ty c 3 hi /\ 0 <= w < cnt_var ty c 3 hi }
    ensures { let q = nth_var ty c 3 w in r[3 + w] = c[q] /\ 3 <= q < hi /\ ty[c[q]] = tok_var /\ not (isin c 3 q c[q]) }
  = cnt_var_inv ty c 3 hi w
  let lemma nth_mono (ty c: map int int) (hi w x: int)
    requires { 3 <= hi /\ 0 <= w < x < cnt_var ty c 3 hi }
    ensures { nth_var ty c 3 w < nth_var ty c 3 x /\ c[nth_var ty c 3 w] <> c[nth_var ty c 3 x] }
  = cnt_var_inv ty c 3 hi w; cnt_var_inv ty c 3 hi x;
    let ghost q = pure { nth_var ty c 3 x } in let ghost p = pure { nth_var ty c 3 w } in
    if q <= p then cnt_var_mono ty c 3 q p;
    assert { isin c 3 q c[p] }
  lemma nth_mono2: forall ty c hi w x [cnt_var ty c 3 hi, nth_var ty c 3 w, nth_var ty c 3 x]. 3 <= hi -> 0 <= w < x < cnt_var ty c 3 hi ->
    nth_var ty c 3 w < nth_var ty c 3 x /\ c[nth_var ty c 3 w] <> c[nth_var ty c 3 x]
  lemma cnt_pos: forall ty c lo r hi [cnt_var ty c lo r, cnt_var ty c lo hi]. lo <= r < hi -> ty[c[r]] = tok_var -> not (isin c lo r c[r]) -> 0 <= cnt_var ty c lo r < cnt_var ty c lo hi
     by cnt_var ty c lo (r+1) = cnt_var ty c lo r + 1 /\ cnt_var ty c lo (r+1) <= cnt_var ty c lo hi /\ cnt_var ty c lo lo <= cnt_var ty c lo r
  let lemma tm_of (e: env) (j: int)
    requires { forall w [nth e w]. 0 <= w < nvar e -> e.tm[e.sc[nth e w]] = w }
    requires { 3 <= j < 3 + e.ln /\ e.ty[e.sc[j]] = tok_var }
    ensures { 0 <= e.tm[e.sc[j]] < nvar e /\ 3 <= nth e e.tm[e.sc[j]] <= j /\ e.sc[nth e e.tm[e.sc[j]]] = e.sc[j] }
  = assert { isin e.sc 3 (j+1) e.sc[j] };
    let r = isin_first e.sc 3 (j+1) e.sc[j] in
    let ghost w = pure { cnt_var e.ty e.sc 3 r } in
    assert { nth e w = r }; assert { 0 <= w < nvar e }
  let lemma mk_wfe (e: env)
    requires { 1 <= e.ln /\ 1 <= e.l2 /\ e.sc[3 + e.ln - 1] = e.dm /\ e.ic[3 + e.l2 - 1] = e.dm /\ e.ty[e.dm] = 1
      /\ cntd e.sc 3 (3 + e.ln) e.dm = cntd e.ic 3 (3 + e.l2) e.dm /\ typed e.ty e.sc e.ln }
    requires { forall w [nth e w]. 0 <= w < nvar e -> e.tm[e.sc[nth e w]] = w }
    ensures { wfe e }
  = assert { let c = e.sc in forall j [c[j]]. 3 <= j < 3 + e.ln -> e.ty[c[j]] = tok_var ->
         (0 <= e.tm[c[j]] < nvar e /\ 3 <= nth e e.tm[c[j]] <= j /\ c[nth e e.tm[c[j]]] = c[j]) }
  (* disjoint variables: the pair (x, y) is in the list (a, c) of n pairs *)
  predicate pin (a c: map int int) (lo hi x y: int)
  (*L*) axiom pin_def: forall a c lo hi x y [pin a c lo hi x y]. pin a c lo hi x y <-> (exists i. lo <= i < hi /\ a[i] = x /\ c[i] = y)
  (* a variable pair is allowed *)
  type dlist = { ra: map int int; rb: map int int; rn: int; oa: map int int; ob: map int int; on: int }
  predicate dtok (d: dlist) (x y: int) =
    x <> y /\ (let lo = (if x > y then y else x) in let hi = (if x > y then x else y) in
      pin d.ra d.rb 3 (3 + d.rn) lo hi \/ pin d.oa d.ob 3 (3 + d.on) lo hi)
  (* ic[ao..ae) against ic[bo..be) *)
  predicate dseg1 (ty ic: map int int) (d: dlist) (x bo be: int)
  (*L*) axiom dseg1_def: forall ty ic d x bo be [dseg1 ty ic d x bo be]. dseg1 ty ic d x bo be <-> (forall j [ic[j]]. bo <= j < be -> ty[ic[j]] <> 1 -> dtok d x ic[j])
  lemma dseg1_0: forall ty ic d x bo [dseg1 ty ic d x bo bo]. dseg1 ty ic d x bo bo
  lemma dseg1_s: forall ty ic d x bo be [dseg1 ty ic d x bo be, ic[be]]. bo <= be -> (dseg1 ty ic d x bo (be+1) <-> (dseg1 ty ic d x bo be /\ (ty[ic[be]] = 1 \/ dtok d x ic[be])))
  predicate dseg (ty ic: map int int) (d: dlist) (ao ae bo be: int)
  (*L*) axiom dseg_def: forall ty ic d ao ae bo be [dseg ty ic d ao ae bo be]. dseg ty ic d ao ae bo be <-> (forall i [ic[i]]. ao <= i < ae -> ty[ic[i]] <> 1 -> dseg1 ty ic d ic[i] bo be)
  lemma dseg_0: forall ty ic d ao bo be [dseg ty ic d ao ao bo be]. dseg ty ic d ao ao bo be
  lemma dseg_s: forall ty ic d ao ae bo be [dseg ty ic d ao ae bo be, ic[ae]]. ao <= ae -> (dseg ty ic d ao (ae+1) bo be <-> (dseg ty ic d ao ae bo be /\ (ty[ic[ae]] = 1 \/ dseg1 ty ic d ic[ae] bo be)))
  (* all pairs (as, bs) of the referenced assertion, up to hi *)
  predicate dall (ty ic lt sf: map int int) (d: dlist) (a c: map int int) (lo hi: int)
  (*L*) axiom dall_def: forall ty ic lt sf d a c lo hi [dall ty ic lt sf d a c lo hi]. dall ty ic lt sf d a c lo hi <->
    (forall k [a[k]]. lo <= k < hi -> dseg ty ic d (3 + sf[a[k]]) (3 + sf[a[k]] + lt[a[k]]) (3 + sf[c[k]]) (3 + sf[c[k]] + lt[c[k]]))
  lemma dall_0: forall ty ic lt sf d a c lo [dall ty ic lt sf d a c lo lo]. dall ty ic lt sf d a c lo lo
  lemma dall_s: forall ty ic lt sf d a c lo k [dall ty ic lt sf d a c lo k, a[k]]. lo <= k -> (dall ty ic lt sf d a c lo (k+1) <->
    (dall ty ic lt sf d a c lo k /\ dseg ty ic d (3 + sf[a[k]]) (3 + sf[a[k]] + lt[a[k]]) (3 + sf[c[k]]) (3 + sf[c[k]] + lt[c[k]])))
  lemma pin_0: forall a c lo x y [pin a c lo lo x y]. not (pin a c lo lo x y)
  lemma pin_s: forall a c lo hi x y [pin a c lo hi x y, a[hi]]. lo <= hi -> (pin a c lo (hi+1) x y <-> (pin a c lo hi x y \/ (a[hi] = x /\ c[hi] = y)))


  predicate ge (e: env) (lu lt: map int int) (k: int) = eqp e lu lt k \/ gtp e lu lt k
  let rec lemma gtp_agree1 (e: env) (lu lv lt: map int int) (k: int)
    requires { 0 <= k /\ eqp e lu lv k /\ gtp e lu lt k } ensures { gtp e lv lt k } variant { k }
  = if k > 0 then begin let ghost h = k - 1 in
      assert { vtok e h = vtok e h }; assert { eqp e lu lv h }; assert { lu[vtok e h] = lv[vtok e h] };
      let y = any bool ensures { result <-> gtp e lu lt h } in
      assert { gtp e lu lt (h+1) };
      if y then gtp_agree1 e lu lv lt h else begin assert { eqp e lu lt h /\ lu[vtok e h] > lt[vtok e h] };
        assert { forall w [vtok e w]. 0 <= w < h -> lv[vtok e w] = lt[vtok e w] }; assert { eqp e lv lt h } end;
      assert { gtp e lv lt (h+1) } end
  let lemma ge_agree (e: env) (len len2 lt: map int int) (k: int)
    requires { wfe e /\ 0 <= k <= nvar e /\ ge e (comp len e.tm) lt k }
    requires { forall j [len2[j]]. 3 <= j < 3 + k -> len2[j] = len[j] }
    ensures { ge e (comp len2 e.tm) lt k }
    ensures { gtp e (comp len e.tm) lt k -> gtp e (comp len2 e.tm) lt k }
  = let ghost lu = pure { comp len e.tm } in let ghost l2 = pure { comp len2 e.tm } in
    assert { eqp e lu l2 k };
    assert { eqp e lu lt k -> eqp e l2 lt k };
    assert { gtp e lu lt k -> gtp e l2 lt k }
  (* a longer prefix *)
  (*L*) lemma gtp_up: forall e lu lt k. 0 <= k -> gtp e lu lt k -> gtp e lu lt (k+1)
  let lemma ge_down (e: env) (lu lt: map int int) (k: int)
    requires { 0 <= k /\ ge e lu lt (k+1) } ensures { ge e lu lt k }
  = assert { eqp e lu lt (k+1) -> eqp e lu lt k }
  let lemma ge_inc (e: env) (len len2 lt: map int int) (v: int)
    requires { wfe e /\ 0 <= v < nvar e /\ ge e (comp len e.tm) lt (v+1) }
    requires { (forall j [len2[j]]. 3 <= j < 3 + v -> len2[j] = len[j]) /\ len2[3 + v] = len[3 + v] + 1 }
    ensures { gtp e (comp len2 e.tm) lt (v+1) }
  = let ghost lu = pure { comp len e.tm } in let ghost l2 = pure { comp len2 e.tm } in
    ge_down e lu lt v; ge_agree e len len2 lt v;
    assert { e.tm[vtok e v] = v }; assert { l2[vtok e v] = lu[vtok e v] + 1 };
    let y = any bool ensures { result <-> gtp e lu lt v } in
    if y then assert { gtp e l2 lt v } else begin
      assert { eqp e lu lt v };
      assert { lu[vtok e v] >= lt[vtok e v] by (eqp e lu lt (v+1) \/ gtp e lu lt (v+1)) };
      assert { forall w [vtok e w]. 0 <= w < v -> l2[vtok e w] = lt[vtok e w] };
      assert { eqp e l2 lt v } end
  (*L*) lemma tail_ff: forall e a c lt k. tail e false a lt k -> tail e false c lt k
  (*L*) lemma strict_le0: forall e ex l1 lt lu [strict e ex l1 lt 0, strict e ex l1 lu 0]. strict e ex l1 lt 0 -> strict e ex l1 lu 0
  (* assembling the instance *)
  lemma sbst_0: forall ty lt sf ic c r [sbst ty lt sf ic c 3 r]. sbst ty lt sf ic c 3 r
  lemma sbst_s: forall ty lt sf ic c k r [sbst ty lt sf ic c k r, c[k]]. 3 <= k -> sbst ty lt sf ic c k r -> sbstj ty lt sf ic c r k -> sbst ty lt sf ic c (k+1) r
  let lemma sbst_frame (ty lt sf ic c r r2: map int int) (hi: int)
    requires { 3 <= hi /\ sbst ty lt sf ic c hi r /\ typed ty c (hi - 3) }
    requires { forall j [c[j]]. 3 <= j < hi -> ty[c[j]] = tok_var -> 0 <= lt[c[j]] }
    requires { forall i [r2[i]]. 3 <= i < 3 + tpos ty lt c 3 hi -> r2[i] = r[i] }
    ensures { sbst ty lt sf ic c hi r2 }
  = let lemma one (j: int) requires { 3 <= j < hi } ensures { sbstj ty lt sf ic c r2 j }
      = tpos_mono ty lt c 3 (j+1) hi; tpos_mono ty lt c 3 3 j;
        assert { tpos ty lt c 3 (j+1) = tpos ty lt c 3 j + tsz ty lt c[j] };
        assert { sbstj ty lt sf ic c r j };
        assert { ty[c[j]] = tok_var \/ ty[c[j]] = 1 } in
    assert { forall j [c[j]]. 3 <= j < hi -> sbstj ty lt sf ic c r2 j }
  (* a unifier gives every variable of the scheme a length within the instance *)
  lemma unif_len: forall e lt sf x [unif e lt sf, lt[x]]. unif e lt sf -> isin e.sc 3 (3 + e.ln) x -> e.ty[x] = tok_var ->
    0 <= lt[x] <= e.l2 /\ 0 <= sf[x] /\ sf[x] + lt[x] <= e.l2
  (* the result of a step without error: the unique unifier, its instance, and k reports iff a disjoint variable requirement is violated *)
  predicate accd (e: env) (d: dlist) (a c: map int int) (n: int) (ms: map int int) (mn: int) (r: map int int) (ok: bool)
  (*L*) axiom accd_def: forall e d a c n ms mn r ok [accd e d a c n ms mn r ok]. accd e d a c n ms mn r ok <->
    (exists lt sf. oneunif e lt sf /\ instance e.ty lt sf e.ic ms mn r /\ (ok = true <-> dall e.ty e.ic lt sf d a c 3 (3 + n)))
  (*L*) lemma accd_i: forall e d a c n ms mn r ok lt sf [accd e d a c n ms mn r ok, oneunif e lt sf]. oneunif e lt sf -> instance e.ty lt sf e.ic ms mn r ->
    (ok = true <-> dall e.ty e.ic lt sf d a c 3 (3 + n)) -> accd e d a c n ms mn r ok
  function mkd (ra rb oa ob: map int int) : dlist = { ra = ra; rb = rb; rn = hlen ra; oa = oa; ob = ob; on = hlen oa }
  (*L*) lemma sel_var_eq: forall r r2 ty c hi n. 3 <= hi -> sel_var r 3 ty c 3 hi -> eqseg r2 3 r 3 n -> n = cnt_var ty c 3 hi -> sel_var r2 3 ty c 3 hi
  (* a block of ours: allocated since k0, or the static empty string *)
  predicate own (p: ptr) (k0 k1: int) = p.o = 3 /\ lo64 p.b = 1 /\ (k0 <= p.b < k1 \/ p.b = nnull_b)
  predicate dis (p q: ptr) = p.b <> q.b \/ p.b = nnull_b
  predicate dis4 (p q r s: ptr) = dis p q /\ dis p r /\ dis p s /\ dis q r /\ dis q s /\ dis r s
  predicate dis41 (p q r s x: ptr) = dis x p /\ dis x q /\ dis x r /\ dis x s
  (* c[a..a+n) = c[b..b+n) *)
  predicate iseg (c: map int int) (a x n: int)
  (*L*) axiom iseg_def: forall c a x n [iseg c a x n]. iseg c a x n <-> eqseg c a c x n
  lemma iseg_0: forall c a x [iseg c a x 0]. iseg c a x 0
  let lemma iseg_s (c: map int int) (a x n u v: int)
    requires { 0 <= n /\ iseg c a x n /\ u = c[a+n] /\ v = c[x+n] } ensures { u = v -> iseg c a x (n+1) }
  = assert { u = v -> forall j [c[j]]. a <= j < a + (n+1) -> c[j] = c[x + (j-a)] by (j = a + n \/ j < a + n) }
  (* one forward step of the search *)
  let lemma fw_step (e: env) (amb: bool) (l1 c0 s0: map int int) (p v q: int)
    requires { wfe e /\ state e c0 s0 p v /\ q = qpos e c0 p /\ tail e amb l1 (comp c0 e.tm) (v+1) /\ (amb = true -> gtp e (comp c0 e.tm) l1 (v+1)) }
    requires { not (p = e.ln - 1 /\ q = e.l2 - 1) }
    ensures { 0 <= p < e.ln /\ 0 <= q < e.l2 /\ (e.ty[e.sc[3+p]] = tok_var \/ e.ty[e.sc[3+p]] = 1) }
    ensures { e.ty[e.sc[3+p]] = 1 -> e.ic[3+q] = e.sc[3+p] -> state e c0 s0 (p+1) v /\ qpos e c0 (p+1) = q + 1 }
    ensures { e.ty[e.sc[3+p]] = 1 -> e.ic[3+q] <> e.sc[3+p] -> strict e amb l1 (comp c0 e.tm) (v+1) }
    ensures { -1 <= v < nvar e /\ state e c0 s0 (bpos e v) v }
    ensures { e.ty[e.sc[3+p]] = tok_var -> 0 <= e.tm[e.sc[3+p]] <= v + 1 /\ e.tm[e.sc[3+p]] < nvar e }
    ensures { let k = e.tm[e.sc[3+p]] in e.ty[e.sc[3+p]] = tok_var -> k <= v -> 0 <= c0[3+k] /\ 0 <= s0[3+k] /\ s0[3+k] + c0[3+k] <= e.l2 - 1 }
    ensures { let c2 = set c0 (3+v+1) 0 in let s2 = set s0 (3+v+1) q in e.ty[e.sc[3+p]] = tok_var -> e.tm[e.sc[3+p]] > v -> state e c2 s2 (p+1) (v+1) /\ qpos e c2 (p+1) = q
       /\ v + 1 < nvar e /\ tail e amb l1 (comp c2 e.tm) (v+2) /\ (amb = true -> gtp e (comp c2 e.tm) l1 (v+2)) }
  = assert { let k = e.tm[e.sc[3+p]] in 0 <= k <= v -> slot e c0 s0 (3+k) };
    let y1 = any bool ensures { result <-> e.ty[e.sc[3+p]] = 1 } in
    let y2 = any bool ensures { result <-> e.ic[3+q] = e.sc[3+p] } in
    let y3 = any bool ensures { result <-> e.tm[e.sc[3+p]] > v } in
    state_back e c0 s0 p v;
    assert { e.ty[e.sc[3+p]] = tok_var \/ e.ty[e.sc[3+p]] = 1 };
    if y1 then (if y2 then step_const e c0 s0 p v else strict_const e amb l1 c0 s0 p v)
    else begin tm_new e p; if y3 then begin
      let ghost c2 = pure { set c0 (3+v+1) 0 } in let ghost s2 = pure { set s0 (3+v+1) q } in
      step_new e c0 s0 c2 s2 p v; tail_new e amb l1 c0 c2 v;
      if amb then begin ge_agree e c0 c2 l1 (v+1); assert { gtp e (comp c2 e.tm) l1 (v+1) }; assert { gtp e (comp c2 e.tm) l1 (v+1+1) } end end end
  (* a repeated variable matches, or the search must go back *)
  let lemma fw_old (e: env) (amb: bool) (l1 c0 s0: map int int) (p v q i k: int) (ok: bool)
    requires { wfe e /\ state e c0 s0 p v /\ q = qpos e c0 p /\ tail e amb l1 (comp c0 e.tm) (v+1) }
    requires { e.ty[e.sc[3+p]] = tok_var /\ k = e.tm[e.sc[3+p]] /\ k <= v }
    requires { ok = true -> q + c0[3+k] <= e.l2 /\ iseg e.ic (3 + s0[3+k]) (3 + q) c0[3+k] }
    requires { ok = false -> 0 <= i < c0[3+k] /\ (q + i >= e.l2 \/ e.ic[3 + s0[3+k] + i] <> e.ic[3 + q + i]) }
    ensures { ok = true -> state e c0 s0 (p+1) v /\ qpos e c0 (p+1) = q + c0[3 + k] }
    ensures { ok = false -> strict e amb l1 (comp c0 e.tm) (v+1) }
  = if ok then step_old e c0 s0 p v else strict_old e amb l1 c0 s0 p v i
  (* one step back *)
  let lemma bt_step (e: env) (amb: bool) (l1 c0 s0: map int int) (v: int)
    requires { wfe e /\ 0 <= v < nvar e /\ state e c0 s0 (bpos e v) v /\ strict e amb l1 (comp c0 e.tm) (v+1) /\ (amb = true -> ge e (comp c0 e.tm) l1 (v+1)) }
    ensures { 0 <= c0[3+v] /\ 0 <= s0[3+v] /\ s0[3+v] + c0[3+v] <= e.l2 - 1 /\ 0 <= nth e v - 3 < e.ln }
    ensures { let c2 = set c0 (3+v) (c0[3+v] + 1) in e.ic[3 + s0[3+v] + c0[3+v]] = e.dm -> state e c2 s0 (bpos e (v-1)) (v-1)
        /\ strict e amb l1 (comp c2 e.tm) v /\ (amb = true -> ge e (comp c2 e.tm) l1 v) }
    ensures { let c2 = set c0 (3+v) (c0[3+v] + 1) in e.ic[3 + s0[3+v] + c0[3+v]] <> e.dm -> state e c2 s0 (bpos e v) v /\ qpos e c2 (bpos e v) = s0[3+v] + c0[3+v] + 1
        /\ s0[3+v] + c0[3+v] + 1 <= e.l2 - 1 /\ tail e amb l1 (comp c2 e.tm) (v+1) /\ (amb = true -> gtp e (comp c2 e.tm) l1 (v+1)) }
  = let ghost c2 = pure { set c0 (3+v) (c0[3+v] + 1) } in
    assert { slot e c0 s0 (3+v) }; cnt_var_inv e.ty e.sc 3 (3 + e.ln) v;
    let y = any bool ensures { result <-> e.ic[3 + s0[3+v] + c0[3+v]] = e.dm } in
    if y then begin strict_pop e amb l1 c0 s0 c2 v; state_pop e c0 s0 c2 v;
      if amb then begin ge_down e (pure { comp c0 e.tm }) l1 v; ge_agree e c0 c2 l1 v end end
    else begin step_inc e c0 s0 c2 v; tail_inc e amb l1 c0 c2 v; if amb then ge_inc e c0 c2 l1 v end
  (* ... with the values the code has computed: c2, t2: the arrays after the store, p, q: the new positions, x: the token before q *)
  let lemma bt_fin (e: env) (amb: bool) (l1 c1 t1 c2 t2: map int int) (v p q x: int)
    requires { wfe e /\ 0 <= v < nvar e /\ state e c1 t1 (bpos e v) v /\ strict e amb l1 (comp c1 e.tm) (v+1) /\ (amb = true -> ge e (comp c1 e.tm) l1 (v+1)) }
    requires { c2 = set c1 (3+v) (c1[3+v] + 1) /\ t2 = t1 }
    requires { p = nth e v - 3 + 1 /\ q = t1[3+v] + c1[3+v] + 1 /\ x = e.ic[3 + t1[3+v] + c1[3+v]] }
    ensures { 1 <= q <= e.l2 }
    ensures { x = e.dm -> state e c2 t2 (bpos e (v-1)) (v-1) /\ strict e amb l1 (comp c2 e.tm) v /\ (amb = true -> ge e (comp c2 e.tm) l1 v) }
    ensures { x <> e.dm -> q < e.l2 /\ state e c2 t2 p v /\ q = qpos e c2 p /\ tail e amb l1 (comp c2 e.tm) (v+1) /\ (amb = true -> gtp e (comp c2 e.tm) l1 (v+1)) }
  = bt_step e amb l1 c1 t1 v
  (* the end of the search *)
  let lemma fin_ok (e: env) (amb: bool) (l1 s1 c0 s0: map int int) (p v: int)
    requires { wfe e /\ state e c0 s0 p v /\ p = e.ln - 1 /\ qpos e c0 p = e.l2 - 1 /\ tail e amb l1 (comp c0 e.tm) (v+1) }
    requires { amb = true -> gtp e (comp c0 e.tm) l1 (v+1) /\ unif e l1 s1 }
    ensures { unif e (comp c0 e.tm) (comp s0 e.tm) /\ v + 1 = nvar e }
    ensures { amb = true -> twounif e }
    ensures { let lt = comp c0 e.tm in amb = false -> strict e true lt lt (if v < 0 then 0 else v) }
    ensures { v >= 1 -> state e c0 s0 (bpos e (v-1)) (v-1) }
    ensures { let lt = comp c0 e.tm in ge e lt lt (if v < 0 then 0 else v) }
  = let ghost lt = pure { comp c0 e.tm } in
    assert { eqp e lt lt (if v < 0 then 0 else v) };
    found e c0 s0 v;
    if amb then begin gtp_ne e lt l1 (v+1); assert { twounif e } end
    else begin strict_first e lt (pure { comp s0 e.tm }) end;
    state_back e c0 s0 p v;
    if v >= 1 then state_pop e c0 s0 c0 v
  (* the start of the search *)
  let lemma state_init (e: env) (l1 c0 s0: map int int)
    requires { wfe e } ensures { state e c0 s0 0 (-1) /\ qpos e c0 0 = 0 /\ tail e false l1 (comp c0 e.tm) 0 /\ 0 <= nvar e }
  = assert { cnt_var e.ty e.sc 3 (3 + 0) = 0 }; assert { tpos e.ty (comp c0 e.tm) e.sc 3 (3 + 0) = 0 };
    assert { forall lu [eqp e lu (comp c0 e.tm) 0]. eqp e lu (comp c0 e.tm) 0 }
  lemma vt_in: forall e x [e.tm[x]]. wfe e -> isin e.sc 3 (3 + e.ln) x -> e.ty[x] = tok_var -> 0 <= e.tm[x] < nvar e
  (* the lengths and starts of the variables of a formula *)
  predicate lsok (ty lt sf c: map int int) (n m: int)
  (*L*) axiom lsok_def: forall ty lt sf c n m [lsok ty lt sf c n m]. lsok ty lt sf c n m <-> (forall j [c[j]]. 3 <= j < 3 + n -> ty[c[j]] = tok_var -> 0 <= lt[c[j]] <= m /\ 0 <= sf[c[j]] /\ sf[c[j]] + lt[c[j]] <= m)
  let lemma lsok_i (e: env) (lt sf c: map int int) (n: int)
    requires { unif e lt sf /\ vars_in e.ty c n e.sc e.ln } ensures { lsok e.ty lt sf c n e.l2 }
  = assert { forall j [c[j]]. 3 <= j < 3 + n -> e.ty[c[j]] = tok_var -> 0 <= lt[c[j]] <= e.l2 /\ 0 <= sf[c[j]] /\ sf[c[j]] + lt[c[j]] <= e.l2 }
  let lemma lsok_tpos (ty lt sf c: map int int) (n m k: int)
    requires { lsok ty lt sf c n m /\ 0 <= k <= n /\ 1 <= m /\ 1 <= n /\ ty[c[3]] = 1 }
    ensures { 0 <= tpos ty lt c 3 (3 + k) <= tpos ty lt c 3 (3 + n) <= n * m /\ 1 <= tpos ty lt c 3 (3 + n) }
  = tpos_mono ty lt c 3 3 (3 + k); tpos_mono ty lt c 3 (3 + k) (3 + n); tpos_bound ty lt c 3 (3 + n) m; tpos_mono ty lt c 3 4 (3 + n);
    assert { tpos ty lt c 3 (3 + 1) = tpos ty lt c 3 3 + 1 }
  (* frame: below k, only the blocks l and s (never static ones) changed *)
  predicate fr3 (m0 m1: map int (map int int)) (k l s: int)
  axiom fr3_def: forall m0 m1 k l s [fr3 m0 m1 k l s]. fr3 m0 m1 k l s <-> (forall x [m1[x]]. x < k -> (x <= 0 \/ (x <> l /\ x <> s)) -> m1[x] = m0[x])
  lemma fr3_refl: forall m0 k l s. fr3 m0 m0 k l s
  lemma fr3_trans: forall m0 m1 m2 k l s [fr3 m0 m1 k l s, fr3 m1 m2 k l s]. fr3 m0 m1 k l s -> fr3 m1 m2 k l s -> fr3 m0 m2 k l s
  lemma fr3_sub: forall m0 m1 k k2 l s [fr3 m0 m1 k l s, fr3 m0 m1 k2 l s]. fr3 m0 m1 k l s -> k2 <= k -> fr3 m0 m1 k2 l s
  (* x does not occur in either list up to hi *)
  predicate nopair (a c: map int int) (lo hi x: int)
  (*L*) axiom nopair_def: forall a c lo hi x [nopair a c lo hi x]. nopair a c lo hi x <-> (forall j [a[j]]. lo <= j < hi -> a[j] <> x /\ c[j] <> x)
  lemma nopair_0: forall a c lo x [nopair a c lo lo x]. nopair a c lo lo x
  lemma nopair_s: forall a c lo hi x [nopair a c lo hi x, a[hi]]. lo <= hi -> nopair a c lo hi x -> a[hi] <> x -> c[hi] <> x -> nopair a c lo (hi+1) x
  let lemma pin_skip (a c: map int int) (lo k hi x y z: int)
    requires { lo <= k <= hi /\ nopair a c lo k z /\ (z = x \/ z = y) } ensures { pin a c lo hi x y <-> pin a c k hi x y }
  = assert { forall i [a[i]]. lo <= i < k -> not (a[i] = x /\ c[i] = y) }
  (* what assignVar guarantees about a step: ec0, ec1: error count before and after; rep0, rep1: messages *)
  predicate asgn (e: env) (nv nr unk: int) (ms: map int int) (d: dlist) (a c: map int int) (r: map int int) (ec0 ec1 rep0 rep1: int)
  (*L*) axiom asgn_def: forall e nv nr unk ms d a c r ec0 ec1 rep0 rep1 [asgn e nv nr unk ms d a c r ec0 ec1 rep0 rep1].
    asgn e nv nr unk ms d a c r ec0 ec1 rep0 rep1 <-> (
      (ec1 = ec0 \/ ec1 = ec0 + 1) /\ rep1 >= rep0 /\ (ec0 <> 0 -> rep1 = rep0)
      /\ (hlen r = 0 -> nv <> nr \/ nounif e \/ (unk <> 0 /\ twounif e))
      /\ (hlen r <> 0 -> derived e ms (hlen ms) r)
      /\ (ec1 <> ec0 -> nounif e \/ twounif e)
      /\ (ec0 = 0 -> ec1 <> ec0 -> rep1 > rep0)
      /\ (hlen r <> 0 -> ec1 = ec0 -> accd e d a c (hlen a) ms (hlen ms) r true \/ accd e d a c (hlen a) ms (hlen ms) r false)
      /\ (hlen r <> 0 -> ec0 = 0 -> ec1 = ec0 -> rep1 = rep0 -> accd e d a c (hlen a) ms (hlen ms) r true)
      /\ (hlen r <> 0 -> ec0 = 0 -> ec1 = ec0 -> rep1 <> rep0 -> accd e d a c (hlen a) ms (hlen ms) r false))
  let lemma asgn_mis (e: env) (nv nr unk: int) (ms: map int int) (d: dlist) (a c r: map int int) (ec0 rep0: int)
    requires { nv <> nr /\ hlen r = 0 } ensures { asgn e nv nr unk ms d a c r ec0 ec0 rep0 rep0 } = ()
  let lemma asgn_none (e: env) (nv nr unk: int) (ms: map int int) (d: dlist) (a c r: map int int) (ec0 rep0 rep1: int)
    requires { nounif e /\ hlen r = 0 /\ rep1 = (if ec0 = 0 then rep0 + 1 else rep0) } ensures { asgn e nv nr unk ms d a c r ec0 (ec0+1) rep0 rep1 } = ()
  let lemma asgn_one (e: env) (nv nr unk: int) (ms: map int int) (d: dlist) (a c r: map int int) (ec0 rep0 rep1: int) (lt sf: map int int)
    requires { oneunif e lt sf /\ instance e.ty lt sf e.ic ms (hlen ms) r /\ 1 <= hlen r /\ rep1 >= rep0 /\ (ec0 <> 0 -> rep1 = rep0) }
    requires { ec0 = 0 -> (rep1 = rep0 <-> dall e.ty e.ic lt sf d a c 3 (3 + hlen a)) }
    ensures { asgn e nv nr unk ms d a c r ec0 ec0 rep0 rep1 }
  = assert { unif e lt sf }; assert { derived e ms (hlen ms) r };
    assert { dall e.ty e.ic lt sf d a c 3 (3 + hlen a) -> accd e d a c (hlen a) ms (hlen ms) r true };
    assert { not (dall e.ty e.ic lt sf d a c 3 (3 + hlen a)) -> accd e d a c (hlen a) ms (hlen ms) r false }
  let lemma asgn_unk (e: env) (nv nr unk: int) (ms: map int int) (d: dlist) (a c r: map int int) (ec0 rep0 rep1: int)
    requires { twounif e /\ unk <> 0 /\ hlen r = 0 /\ rep1 >= rep0 /\ (ec0 <> 0 -> rep1 = rep0) }
    ensures { asgn e nv nr unk ms d a c r ec0 ec0 rep0 rep1 } = ()
  let lemma asgn_two (e: env) (nv nr unk: int) (ms: map int int) (d: dlist) (a c r: map int int) (ec0 rep0 rep1: int) (lt sf: map int int)
    requires { twounif e /\ unif e lt sf /\ instance e.ty lt sf e.ic ms (hlen ms) r /\ 1 <= hlen r /\ rep1 >= rep0 /\ (ec0 = 0 -> rep1 > rep0) /\ (ec0 <> 0 -> rep1 = rep0) }
    ensures { asgn e nv nr unk ms d a c r ec0 (ec0+1) rep0 rep1 }
  = assert { derived e ms (hlen ms) r }
  (* the array of first occurrences of the variables, up to position i of the scheme *)
  predicate focc (e: env) (c: map int int) (i: int)
  (*L*) axiom focc_def: forall e c i [focc e c i]. focc e c i <-> (forall j [c[j]]. 3 <= j < 3 + nvar e -> c[j] = (if nth e (j-3) < 3 + i then nth e (j-3) - 3 else -1))
  let lemma focc_0 (e: env) (c: map int int)
    requires { wfe e /\ forall j [c[j]]. 3 <= j < 3 + nvar e -> c[j] = -1 } ensures { focc e c 0 }
  = assert { forall j [c[j]]. 3 <= j < 3 + nvar e -> nth e (j-3) >= 3 by (forall w [nth e w]. 0 <= w < cnt_var e.ty e.sc 3 (3 + e.ln) -> 3 <= nth e w) }
  let lemma focc_s (e: env) (c: map int int) (i: int)
    requires { wfe e /\ 0 <= i < e.ln /\ focc e c i }
    ensures { e.ty[e.sc[3+i]] <> tok_var -> focc e c (i+1) }
    ensures { let w = e.tm[e.sc[3+i]] in e.ty[e.sc[3+i]] = tok_var -> 0 <= w < nvar e /\ (c[3+w] <> -1 -> focc e c (i+1)) /\ (c[3+w] = -1 -> focc e (set c (3+w) i) (i+1)) }
  = let y = any bool ensures { result <-> e.ty[e.sc[3+i]] = tok_var } in
    assert { forall j [c[j]]. 3 <= j < 3 + nvar e -> 3 <= nth e (j-3) < 3 + e.ln /\ e.ty[e.sc[nth e (j-3)]] = tok_var /\ e.tm[e.sc[nth e (j-3)]] = j - 3
       by (forall w [nth e w]. 0 <= w < cnt_var e.ty e.sc 3 (3 + e.ln) -> 3 <= nth e w < 3 + e.ln /\ vtok e w = e.sc[nth e w] /\ e.tm[vtok e w] = w /\ e.ty[vtok e w] = tok_var) };
    if y then begin
      let w = e.tm[e.sc[3+i]] in
      assert { 0 <= w < nvar e /\ 3 <= nth e w <= 3 + i };
      assert { c[3+w] = (if nth e w < 3 + i then nth e w - 3 else -1) };
      assert { forall j [c[j]]. 3 <= j < 3 + nvar e -> j <> 3 + w -> nth e (j-3) <> 3 + i };
      assert { c[3+w] <> -1 -> nth e w < 3 + i }; assert { c[3+w] = -1 -> nth e w = 3 + i };
      assert { c[3+w] <> -1 -> forall j [c[j]]. 3 <= j < 3 + nvar e -> nth e (j-3) <> 3 + i };
      assert { c[3+w] = -1 -> let c2 = set c (3+w) i in forall j [c2[j]]. 3 <= j < 3 + nvar e -> c2[j] = (if nth e (j-3) < 3 + (i+1) then nth e (j-3) - 3 else -1) by (j = 3 + w \/ c2[j] = c[j]) }
    end else assert { forall j [c[j]]. 3 <= j < 3 + nvar e -> nth e (j-3) <> 3 + i }
  let lemma focc_end (e: env) (c: map int int)
    requires { wfe e /\ focc e c e.ln } ensures { forall j [c[j]]. 3 <= j < 3 + nvar e -> c[j] = nth e (j-3) - 3 }
  = assert { forall j [c[j]]. 3 <= j < 3 + nvar e -> nth e (j-3) < 3 + e.ln by (forall w [nth e w]. 0 <= w < cnt_var e.ty e.sc 3 (3 + e.ln) -> nth e w < 3 + e.ln) }
  (* frames compose *)
  let lemma ob_fr3 (m0 m1 m2: map int (map int int)) (k k2 l s: int)
    requires { old_blocks m0 m1 k /\ fr3 m1 m2 k2 l s /\ k <= k2 /\ (l <= 0 \/ l >= k) /\ (s <= 0 \/ s >= k) }
    ensures { old_blocks m0 m2 k } = ()
  let lemma ob_trans (m0 m1 m2: map int (map int int)) (k k2: int)
    requires { old_blocks m0 m1 k /\ old_blocks m1 m2 k2 /\ k <= k2 }
    ensures { old_blocks m0 m2 k } = ()
  let lemma ob_nframe (m0 m1 m2: map int (map int int)) (k t k2: int)
    requires { old_blocks m0 m1 k /\ nframe m1 m2 t k2 /\ k <= k2 /\ (t <= 0 \/ t >= k) }
    ensures { old_blocks m0 m2 k } = ()
  lemma pin_i: forall a c lo hi x y k [pin a c lo hi x y, a[k]]. lo <= k < hi -> a[k] = x -> c[k] = y -> pin a c lo hi x y
  let lemma eqseg_s (c: map int int) (o: int) (d: map int int) (p n y: int)
    requires { eqseg c o d p n /\ 0 <= n /\ y = d[p+n] } ensures { let c2 = set c (o+n) y in eqseg c2 o d p (n+1) }
  = let ghost c2 = pure { set c (o+n) y } in assert { forall j [c2[j]]. o <= j < o + n -> c2[j] = d[p + (j - o)] }; assert { c2[o+n] = d[p + (o + n - o)] }
  let lemma arr_z (c: map int int) (p: ptr) (n: int)
    requires { arr c p n /\ (forall j [c[j]]. 3 <= j < 3 + n -> c[j] = 0) } ensures { nstrc c p n /\ hlen c = n } = ()
end
