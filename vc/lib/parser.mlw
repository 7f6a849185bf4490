(* texts and the characters of the specification language *)
module Text
  use int.Int
  use Str
  function slen string_t : int
  axiom slen_nonneg: forall s [slen s]. slen s >= 0
  function sget string_t int : int
  axiom sget_byte: forall s i [sget s i]. 0 <= sget s i < 256
  (* the part from a to b *)
  function ssub string_t int int : string_t
  axiom ssub_len: forall s a b [ssub s a b]. 0 <= a <= b <= slen s -> slen (ssub s a b) = b - a
  axiom ssub_get: forall s a b i [sget (ssub s a b) i]. 0 <= a <= b <= slen s -> 0 <= i < b - a -> sget (ssub s a b) i = sget s (a + i)
  (* character at a position, -1 outside the text *)
  function ch string_t int : int
  axiom ch_def: forall s p [ch s p]. ch s p = if 0 <= p < slen s then sget s p else -1
  axiom ch_sub: forall s a b i [ch (ssub s a b) i]. 0 <= a <= b <= slen s -> 0 <= i < b - a -> ch (ssub s a b) i = ch s (a + i)
  predicate isspace (c: int) = c = 32 \/ 9 <= c <= 13
  predicate isdigit (c: int) = 48 <= c <= 57
  predicate isfirst (c: int) = 97 <= c <= 122 \/ 65 <= c <= 90 \/ c = 95
  predicate isother (c: int) = 97 <= c <= 122 \/ 65 <= c <= 90 \/ c = 95 \/ 48 <= c <= 57
end
(* where words, numbers, lines and blanks end *)
module Lex
  use int.Int
  use Str
  use Text
  function wordend string_t int : int
  function wordend_body string_t int : int
  axiom wordend_body_def: forall s p [wordend_body s p]. wordend_body s p = if isother (ch s p) then wordend s (p + 1) else p
  axiom wordend_def: forall s p [wordend_body s p]. wordend s p = wordend_body s p
  axiom wordend_ge: forall s p [wordend s p]. p <= wordend s p /\ (p <= slen s -> wordend s p <= slen s)
  axiom wordend_end: forall s p [wordend s p]. not isother (ch s (wordend s p))
  function digits string_t int : int
  function digits_body string_t int : int
  axiom digits_body_def: forall s p [digits_body s p]. digits_body s p = if isdigit (ch s p) then digits s (p + 1) else p
  axiom digits_def: forall s p [digits_body s p]. digits s p = digits_body s p
  axiom digits_ge: forall s p [digits s p]. p <= digits s p /\ (p <= slen s -> digits s p <= slen s)
  axiom digits_first: forall s p [digits s p]. p < digits s p <-> isdigit (ch s p)
  axiom digits_end: forall s p [digits s p]. not isdigit (ch s (digits s p))
  function lineend string_t int : int
  function lineend_body string_t int : int
  axiom lineend_body_def: forall s p [lineend_body s p]. lineend_body s p =
    if p >= slen s then p else if ch s p = 10 then p + 1 else if ch s p = 13 /\ ch s (p + 1) = 10 then p + 2 else lineend s (p + 1)
  axiom lineend_def: forall s p [lineend_body s p]. lineend s p = lineend_body s p
  axiom lineend_ge: forall s p [lineend s p]. 0 <= p -> p <= lineend s p /\ (p <= slen s -> lineend s p <= slen s)
  function skip string_t int : int
  function skip_body string_t int : int
  axiom skip_body_def: forall s p [skip_body s p]. skip_body s p =
    if isspace (ch s p) then skip s (p + 1) else if ch s p = 59 then skip s (lineend s (p + 1)) else p
  axiom skip_def: forall s p [skip_body s p]. skip s p = skip_body s p
  axiom skip_ge: forall s p [skip s p]. 0 <= p -> p <= skip s p /\ (p <= slen s -> skip s p <= slen s)
  axiom skip_first: forall s p [skip s p]. skip s p = p \/ isspace (ch s p) \/ ch s p = 59
  (* after a name: the end of the name, or p *)
  function ident string_t int : int
  axiom ident_def: forall s p [ident s p]. ident s p = if isfirst (ch s p) then wordend s (p + 1) else p
  axiom ident_ge: forall s p [ident s p]. p <= ident s p /\ (p <= slen s -> ident s p <= slen s)
  (* after a bracket or word and the blanks behind it; -1 if it is not there *)
  function lpar string_t int : int
  axiom lpar_def: forall s p [lpar s p]. lpar s p = if ch s p = 40 then skip s (p + 1) else -1
  function rpar string_t int : int
  axiom rpar_def: forall s p [rpar s p]. rpar s p = if ch s p = 41 then skip s (p + 1) else -1
  function kw_true string_t int : int
  axiom kw_true_def: forall s p [kw_true s p]. kw_true s p = if ch s p = 116 /\ ch s (p + 1) = 114 /\ ch s (p + 2) = 117 /\ ch s (p + 3) = 101 /\ not isother (ch s (p + 4)) then skip s (p + 4) else -1
  function kw_false string_t int : int
  axiom kw_false_def: forall s p [kw_false s p]. kw_false s p = if ch s p = 102 /\ ch s (p + 1) = 97 /\ ch s (p + 2) = 108 /\ ch s (p + 3) = 115 /\ ch s (p + 4) = 101 /\ not isother (ch s (p + 5)) then skip s (p + 5) else -1
  function kw_not string_t int : int
  axiom kw_not_def: forall s p [kw_not s p]. kw_not s p = if ch s p = 110 /\ ch s (p + 1) = 111 /\ ch s (p + 2) = 116 /\ not isother (ch s (p + 3)) then skip s (p + 3) else -1
  function kw_and string_t int : int
  axiom kw_and_def: forall s p [kw_and s p]. kw_and s p = if ch s p = 97 /\ ch s (p + 1) = 110 /\ ch s (p + 2) = 100 /\ not isother (ch s (p + 3)) then skip s (p + 3) else -1
  function kw_or string_t int : int
  axiom kw_or_def: forall s p [kw_or s p]. kw_or s p = if ch s p = 111 /\ ch s (p + 1) = 114 /\ not isother (ch s (p + 2)) then skip s (p + 2) else -1
  function kw_implies string_t int : int
  axiom kw_implies_def: forall s p [kw_implies s p]. kw_implies s p = if ch s p = 105 /\ ch s (p + 1) = 109 /\ ch s (p + 2) = 112 /\ ch s (p + 3) = 108 /\ ch s (p + 4) = 105 /\ ch s (p + 5) = 101 /\ ch s (p + 6) = 115 /\ not isother (ch s (p + 7)) then skip s (p + 7) else -1
  function kw_iff string_t int : int
  axiom kw_iff_def: forall s p [kw_iff s p]. kw_iff s p = if ch s p = 105 /\ ch s (p + 1) = 102 /\ ch s (p + 2) = 102 /\ not isother (ch s (p + 3)) then skip s (p + 3) else -1
  function kw_xor string_t int : int
  axiom kw_xor_def: forall s p [kw_xor s p]. kw_xor s p = if ch s p = 120 /\ ch s (p + 1) = 111 /\ ch s (p + 2) = 114 /\ not isother (ch s (p + 3)) then skip s (p + 3) else -1
  function kw_always string_t int : int
  axiom kw_always_def: forall s p [kw_always s p]. kw_always s p = if ch s p = 97 /\ ch s (p + 1) = 108 /\ ch s (p + 2) = 119 /\ ch s (p + 3) = 97 /\ ch s (p + 4) = 121 /\ ch s (p + 5) = 115 /\ not isother (ch s (p + 6)) then skip s (p + 6) else -1
  function kw_eventually string_t int : int
  axiom kw_eventually_def: forall s p [kw_eventually s p]. kw_eventually s p = if ch s p = 101 /\ ch s (p + 1) = 118 /\ ch s (p + 2) = 101 /\ ch s (p + 3) = 110 /\ ch s (p + 4) = 116 /\ ch s (p + 5) = 117 /\ ch s (p + 6) = 97 /\ ch s (p + 7) = 108 /\ ch s (p + 8) = 108 /\ ch s (p + 9) = 121 /\ not isother (ch s (p + 10)) then skip s (p + 10) else -1
  function kw_until string_t int : int
  axiom kw_until_def: forall s p [kw_until s p]. kw_until s p = if ch s p = 117 /\ ch s (p + 1) = 110 /\ ch s (p + 2) = 116 /\ ch s (p + 3) = 105 /\ ch s (p + 4) = 108 /\ not isother (ch s (p + 5)) then skip s (p + 5) else -1
  function kw_define string_t int : int
  axiom kw_define_def: forall s p [kw_define s p]. kw_define s p = if ch s p = 100 /\ ch s (p + 1) = 101 /\ ch s (p + 2) = 102 /\ ch s (p + 3) = 105 /\ ch s (p + 4) = 110 /\ ch s (p + 5) = 101 /\ ch s (p + 6) = 45 /\ ch s (p + 7) = 102 /\ ch s (p + 8) = 111 /\ ch s (p + 9) = 114 /\ ch s (p + 10) = 109 /\ ch s (p + 11) = 117 /\ ch s (p + 12) = 108 /\ ch s (p + 13) = 97 /\ not isother (ch s (p + 14)) then skip s (p + 14) else -1
  function kw_assert string_t int : int
  axiom kw_assert_def: forall s p [kw_assert s p]. kw_assert s p = if ch s p = 97 /\ ch s (p + 1) = 115 /\ ch s (p + 2) = 115 /\ ch s (p + 3) = 101 /\ ch s (p + 4) = 114 /\ ch s (p + 5) = 116 /\ not isother (ch s (p + 6)) then skip s (p + 6) else -1
  function sym_lt string_t int : int
  axiom sym_lt_def: forall s p [sym_lt s p]. sym_lt s p = if ch s p = 60 /\ ch s (p + 1) <> 60 /\ ch s (p + 1) <> 61 then skip s (p + 1) else -1
  function sym_gt string_t int : int
  axiom sym_gt_def: forall s p [sym_gt s p]. sym_gt s p = if ch s p = 62 /\ ch s (p + 1) <> 62 /\ ch s (p + 1) <> 61 then skip s (p + 1) else -1
  function sym_le string_t int : int
  axiom sym_le_def: forall s p [sym_le s p]. sym_le s p = if ch s p = 60 /\ ch s (p + 1) = 61 then skip s (p + 2) else -1
  function sym_ge string_t int : int
  axiom sym_ge_def: forall s p [sym_ge s p]. sym_ge s p = if ch s p = 62 /\ ch s (p + 1) = 61 then skip s (p + 2) else -1
  (* the value of the digits from p to q *)
  function decimal string_t int int : int
  axiom decimal_sub: forall s a b q [decimal (ssub s a b) 0 q]. 0 <= a <= b <= slen s -> 0 <= q <= b - a -> decimal (ssub s a b) 0 q = decimal s a (a + q)
  axiom digits_sub: forall s a b [digits (ssub s a b) 0]. 0 <= a <= b <= slen s -> digits s a <= b -> digits (ssub s a b) 0 = digits s a - a
end
(* the meaning of specifications *)
module Spec
  use int.Int
  use real.RealInfix
  use OpsI
  use Str
  use Text
  use Lex
  use Forms
  use Seq_elist
  use Map_emap
  use Size
  type prim = PBool bool | PInt int | PReal real
  val is_PBool (x: prim) : bool ensures { result <-> match x with PBool _ -> true | _ -> false end }
  val is_PInt (x: prim) : bool ensures { result <-> match x with PInt _ -> true | _ -> false end }
  val is_PReal (x: prim) : bool ensures { result <-> match x with PReal _ -> true | _ -> false end }
  val get_PBool (x: prim) : bool requires { match x with PBool _ -> true | _ -> false end } ensures { x = PBool result }
  val get_PInt (x: prim) : int requires { match x with PInt _ -> true | _ -> false end } ensures { x = PInt result }
  val get_PReal (x: prim) : real requires { match x with PReal _ -> true | _ -> false end } ensures { x = PReal result }
  (* numbers: [dbl s p] is the end of the number with point or exponent at p, p if there is none, -1 if it is broken *)
  function expo string_t int : int
  axiom expo_def: forall s p [expo s p]. expo s p =
    let q = if ch s (p + 1) = 43 \/ ch s (p + 1) = 45 then p + 2 else p + 1 in if isdigit (ch s q) then digits s q else -1
  predicate ise (c: int) = c = 101 \/ c = 69
  function dbl string_t int : int
  axiom dbl_def: forall s p [dbl s p]. dbl s p =
    let d = digits s p in
    if d = p then p
    else if ch s d = 46 /\ isdigit (ch s (d + 1)) then (let e = digits s (d + 1) in if ise (ch s e) then expo s e else e)
    else let e = (if ch s d = 46 then d + 1 else d) in if ise (ch s e) then expo s e else p
  (* the double nearest to the number from p to q; too large numbers are rejected *)
  function dval string_t int int : real
  predicate dval_ok string_t int int
  axiom dval_sub: forall s a b q [dval (ssub s a b) 0 q]. 0 <= a <= b <= slen s -> 0 <= q <= b - a -> dval (ssub s a b) 0 q = dval s a (a + q)
  axiom dval_ok_sub: forall s a b q [dval_ok (ssub s a b) 0 q]. 0 <= a <= b <= slen s -> 0 <= q <= b - a -> (dval_ok (ssub s a b) 0 q <-> dval_ok s a (a + q))
  axiom dbl_sub: forall s a b [dbl (ssub s a b) 0]. 0 <= a <= b <= slen s -> dbl s a <= b -> dbl s a > a -> dbl (ssub s a b) 0 = dbl s a - a
  type nres = NFail | NErr | NOk int prim
  function numeral string_t int : nres
  axiom numeral_def: forall s p [numeral s p]. numeral s p =
    let d = dbl s p in
    if d < 0 then NErr
    else if d > p then (if dval_ok s p d then NOk (skip s d) (PReal (dval s p d)) else NErr)
    else let e = digits s p in
      if e = p then NFail
      else if decimal s p e <= 9223372036854775807 then NOk (skip s e) (PInt (decimal s p e)) else NErr
  function flip (o: comparisonop) : comparisonop = match o with LT -> GT | LE -> GE | GT -> LT | GE -> LE end
  type pres = PFail | PErr | POk int expr
  function mkpred (n: string_t) (o: comparisonop) (v: prim) : expr =
    EPred { predicate_name = n; predicate_op = o; predicate_rhs = match v with PInt i -> rnd i | PReal r -> r | PBool _ -> 0.0 end }
  function predform (s: string_t) (p: int) (o: comparisonop) : pres
  axiom predform_def: forall s p o [predform s p o]. predform s p o =
    let q = ident s p in
    if q > p then match numeral s (skip s q) with NOk r v -> POk r (mkpred (ssub s p q) o v) | _ -> PErr end
    else match numeral s p with
    | NOk r v -> let t = ident s r in if t > r then POk (skip s t) (mkpred (ssub s r t) (flip o) v) else PErr
    | _ -> PErr end
  function predterm (s: string_t) (p: int) : pres
  axiom predterm_def: forall s p [predterm s p]. predterm s p =
    if sym_lt s p >= 0 then predform s (sym_lt s p) LT
    else if sym_gt s p >= 0 then predform s (sym_gt s p) GT
    else if sym_le s p >= 0 then predform s (sym_le s p) LE
    else if sym_ge s p >= 0 then predform s (sym_ge s p) GE
    else PFail
  (* the functions that build formulas (what they build is the subject of other contracts) *)
  function f_not expr : expr
  function f_and elist : expr
  function f_or elist : expr
  function f_implies expr expr : expr
  function f_iff expr expr : expr
  function f_xor expr expr : expr
  function f_always expr : expr
  function f_eventually expr : expr
  function f_until expr expr : expr
  (* lists of operands *)
  constant enil : elist
  function esnoc elist expr : elist
  axiom enil_len: elist_len enil = 0
  axiom enil_unique: forall l [elist_len l]. elist_len l = 0 -> l = enil
  axiom esnoc_def: forall l e r [elist_snoced l e r]. elist_snoced l e r -> r = esnoc l e
  axiom esnoc_len: forall l e [esnoc l e]. elist_len (esnoc l e) = elist_len l + 1
  axiom esnoc_nth: forall l e i [elist_nth (esnoc l e) i]. 0 <= i <= elist_len l -> elist_nth (esnoc l e) i = if i = elist_len l then e else elist_nth l i
  type tres = TErr | TOk int elist
  (* [term s f p] is the term at p, where f has the formulas defined before: its end and its formula *)
  function term (s: string_t) (f: emap) (p: int) : pres
  function terms (s: string_t) (f: emap) (p: int) (l: elist) : tres
  function terms_body (s: string_t) (f: emap) (p: int) (l: elist) : tres
  axiom terms_body_def: forall s f p l [terms_body s f p l]. terms_body s f p l =
    match term s f p with PFail -> TOk p l | PErr -> TErr | POk q e -> terms s f q (esnoc l e) end
  axiom terms_def: forall s f p l [terms_body s f p l]. terms s f p l = terms_body s f p l
  axiom terms_ge: forall s f p l [terms s f p l]. match terms s f p l with TOk q _ -> (0 <= p <= slen s -> p <= q <= slen s) | _ -> true end
  function t_not (s: string_t) (f: emap) (p: int) : pres
  axiom t_not_def: forall s f p [t_not s f p]. t_not s f p = match term s f p with POk q e -> POk q (f_not e) | _ -> PErr end
  function t_always (s: string_t) (f: emap) (p: int) : pres
  axiom t_always_def: forall s f p [t_always s f p]. t_always s f p = match term s f p with POk q e -> POk q (f_always e) | _ -> PErr end
  function t_eventually (s: string_t) (f: emap) (p: int) : pres
  axiom t_eventually_def: forall s f p [t_eventually s f p]. t_eventually s f p = match term s f p with POk q e -> POk q (f_eventually e) | _ -> PErr end
  function t_implies (s: string_t) (f: emap) (p: int) : pres
  axiom t_implies_def: forall s f p [t_implies s f p]. t_implies s f p =
    match term s f p with POk q e -> (match term s f q with POk r d -> POk r (f_implies e d) | _ -> PErr end) | _ -> PErr end
  function t_iff (s: string_t) (f: emap) (p: int) : pres
  axiom t_iff_def: forall s f p [t_iff s f p]. t_iff s f p =
    match term s f p with POk q e -> (match term s f q with POk r d -> POk r (f_iff e d) | _ -> PErr end) | _ -> PErr end
  function t_xor (s: string_t) (f: emap) (p: int) : pres
  axiom t_xor_def: forall s f p [t_xor s f p]. t_xor s f p =
    match term s f p with POk q e -> (match term s f q with POk r d -> POk r (f_xor e d) | _ -> PErr end) | _ -> PErr end
  function t_until (s: string_t) (f: emap) (p: int) : pres
  axiom t_until_def: forall s f p [t_until s f p]. t_until s f p =
    match term s f p with POk q e -> (match term s f q with POk r d -> POk r (f_until e d) | _ -> PErr end) | _ -> PErr end
  function t_and (s: string_t) (f: emap) (p: int) : pres
  axiom t_and_def: forall s f p [t_and s f p]. t_and s f p =
    match terms s f p enil with TOk q l -> if elist_len l >= 2 then POk q (f_and l) else PErr | TErr -> PErr end
  function t_or (s: string_t) (f: emap) (p: int) : pres
  axiom t_or_def: forall s f p [t_or s f p]. t_or s f p =
    match terms s f p enil with TOk q l -> if elist_len l >= 2 then POk q (f_or l) else PErr | TErr -> PErr end
  (* what may be between brackets *)
  function inner (s: string_t) (f: emap) (p: int) : pres
  axiom inner_def: forall s f p [inner s f p]. inner s f p =
    match predterm s p with
    | PFail ->
      if kw_not s p >= 0 then t_not s f (kw_not s p) else
      if kw_and s p >= 0 then t_and s f (kw_and s p) else
      if kw_or s p >= 0 then t_or s f (kw_or s p) else
      if kw_implies s p >= 0 then t_implies s f (kw_implies s p) else
      if kw_iff s p >= 0 then t_iff s f (kw_iff s p) else
      if kw_xor s p >= 0 then t_xor s f (kw_xor s p) else
      if kw_always s p >= 0 then t_always s f (kw_always s p) else
      if kw_eventually s p >= 0 then t_eventually s f (kw_eventually s p) else
      if kw_until s p >= 0 then t_until s f (kw_until s p) else
      term s f p
    | r -> r end
  function term_body (s: string_t) (f: emap) (p: int) : pres
  axiom term_body_def: forall s f p [term_body s f p]. term_body s f p =
    if lpar s p >= 0 then
      match inner s f (lpar s p) with POk q e -> if rpar s q >= 0 then POk (rpar s q) e else PErr | _ -> PErr end
    else if kw_true s p >= 0 then POk (kw_true s p) (EConst { const_value = true })
    else if kw_false s p >= 0 then POk (kw_false s p) (EConst { const_value = false })
    else let q = ident s p in
      if q = p then PFail else
      if emap_has f (ssub s p q) then POk (skip s q) (emap_at f (ssub s p q)) else PErr
  axiom term_def: forall s f p [term_body s f p]. term s f p = term_body s f p
  axiom term_ge: forall s f p [term s f p]. match term s f p with POk q _ -> (0 <= p <= slen s -> p < q <= slen s) | _ -> true end
  (* commands *)
  type cres = CFail | CErr | COk int emap emap
  function command (s: string_t) (f a: emap) (p: int) : cres
  axiom command_def: forall s f a p [command s f a p]. command s f a p =
    if kw_assert s p >= 0 then
      let b = kw_assert s p in let q = ident s b in
      if q = b then CErr else
      match term s f (skip s q) with POk r e -> if emap_has a (ssub s b q) then CErr else COk r f (emap_addf a (ssub s b q) e) | _ -> CErr end
    else if kw_define s p >= 0 then
      let b = kw_define s p in let q = ident s b in
      if q = b then CErr else
      match term s f (skip s q) with POk r e -> if emap_has f (ssub s b q) then CErr else COk r (emap_addf f (ssub s b q) e) a | _ -> CErr end
    else CErr
  function commands (s: string_t) (f a: emap) (p: int) : cres
  function commands_body (s: string_t) (f a: emap) (p: int) : cres
  axiom commands_body_def: forall s f a p [commands_body s f a p]. commands_body s f a p =
    if p >= slen s then COk p f a
    else if lpar s p < 0 then CErr
    else match command s f a (lpar s p) with
      | COk q g b -> if rpar s q < 0 then CErr else commands s g b (skip s (rpar s q))
      | _ -> CErr end
  axiom commands_def: forall s f a p [commands_body s f a p]. commands s f a p = commands_body s f a p
  (* the definitions and assertions of a specification, if it is one *)
  function spec (s: string_t) : cres = commands s emap_nil emap_nil (skip s 0)
end
(* PEGTL: input and the rules that are not defined here *)
module Pegtl
  use int.Int
  use Str
  use Text
  use Lex
  use Spec
  type input_t = { itext: string_t; ipos: int }
  predicate okin (x: input_t) = 0 <= x.ipos <= slen x.itext
  predicate sametext (x y: input_t) = x.itext = y.itext /\ x.ipos <= y.ipos /\ okin y
  val p_input (s: string_t) : input_t ensures { result.itext = s /\ result.ipos = 0 }
  (* the content of a file *)
  function filetext string_t : string_t
  val p_file (n: string_t) : string_t ensures { result = filetext n }
  val p_ch (x: input_t) (k: int) : int ensures { result = ch x.itext (x.ipos + k) }
  val p_adv (x: input_t) (n: int) : input_t
    requires { 0 <= n /\ x.ipos + n <= slen x.itext } ensures { result = { x with ipos = x.ipos + n } }
  val p_goto (x: input_t) (p: int) : input_t ensures { result = { x with ipos = p } }
  val p_rest (x: input_t) : int ensures { result = slen x.itext - x.ipos }
  val p_isfirst (c: int) : bool ensures { result <-> isfirst c }
  (* star<digit>, star<identifier_other>; the length of the line end here *)
  val p_digits (x: input_t) : input_t ensures { result = { x with ipos = digits x.itext x.ipos } }
    ensures { isdigit (ch x.itext (x.ipos - 1)) -> result.ipos = digits x.itext (x.ipos - 1) }
  val p_word (x: input_t) : input_t ensures { result = { x with ipos = wordend x.itext x.ipos } }
  val p_eol (x: input_t) : int ensures { result = if ch x.itext x.ipos = 10 then 1 else if ch x.itext x.ipos = 13 /\ ch x.itext (x.ipos + 1) = 10 then 2 else 0 }
  predicate moved (a b: input_t) (p: int) = b = { a with ipos = p } /\ okin b
  val p_identifier (x: input_t) : input_t ensures { result = { x with ipos = ident x.itext x.ipos } }
  val p_between (x y: input_t) : string_t
    requires { x.itext = y.itext /\ 0 <= x.ipos <= y.ipos <= slen x.itext } ensures { result = ssub x.itext x.ipos y.ipos }
end
(* numbers from texts *)
module Stol
  use int.Int
  use real.RealInfix
  use Str
  use Text
  use Lex
  use Spec
  use Exc
  val p_stol (t: string_t) : int
    requires { [@expl:stol of a number] isdigit (ch t 0) }
    ensures { result = decimal t 0 (digits t 0) /\ result <= 9223372036854775807 }
    raises { Out_of_range -> decimal t 0 (digits t 0) > 9223372036854775807 }
  val p_stod (t: string_t) : real
    requires { [@expl:stod of a number with point or exponent] dbl t 0 > 0 }
    requires { [@expl:stod of a number with point or exponent] dbl t 0 = slen t \/ isspace (ch t (dbl t 0)) \/ ch t (dbl t 0) = 59 }
    ensures { result = dval t 0 (dbl t 0) /\ dval_ok t 0 (dbl t 0) }
    raises { Out_of_range -> not dval_ok t 0 (dbl t 0) }
end
$OPT expr Forms
$OPT prim Spec
$OPT comparisonop Forms
