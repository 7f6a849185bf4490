module Exc
  exception Invalid_argument
  exception Out_of_range
  exception Logic_error
  exception Runtime_error
  exception Not_implemented
  exception Parse_error
  exception Bad_access
end
(* C++ integers: mathematical integers; unsigned subtraction must not wrap *)
module Ints
  use int.Int
  use int.ComputerDivision
  val p_any_int () : int
  val p_iadd (a b: int) : int ensures { result = a + b }
  val p_isub (a b: int) : int ensures { result = a - b }
  val p_usub (a b: int) : int requires { [@expl:unsigned subtraction does not wrap] a >= b } ensures { result = a - b }
  val p_imul (a b: int) : int ensures { result = a * b }
  val p_idiv (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = div a b }
  val p_imod (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = mod a b }
  val p_ineg (a: int) : int ensures { result = - a }
  val p_ilt (a b: int) : bool ensures { result <-> a < b }
  val p_ile (a b: int) : bool ensures { result <-> a <= b }
  val p_igt (a b: int) : bool ensures { result <-> a > b }
  val p_ige (a b: int) : bool ensures { result <-> a >= b }
  val p_ieq (a b: int) : bool ensures { result <-> a = b }
  val p_ine (a b: int) : bool ensures { result <-> a <> b }
  val p_imax (a b: int) : int ensures { result = if a < b then b else a }
  val p_imin (a b: int) : int ensures { result = if b < a then b else a }
  val p_beq (a b: bool) : bool ensures { result <-> a = b }
  val p_tounsigned (a: int) : int requires { [@expl:conversion to unsigned does not wrap] a >= 0 } ensures { result = a }
  (* conversion to an integer type that may not have the value: some value of that type if so *)
  val p_narrow (lo hi a: int) : int ensures { lo <= result < hi } ensures { lo <= a < hi -> result = a }
  (* an iterator moves k elements in a container of length n *)
  val p_iter_move (p k n: int) : int
    requires { [@expl:iterator stays in range] 0 <= p + k <= n } ensures { result = p + k }
end
(* doubles as real numbers *)
module OpsR
  use real.RealInfix
  use real.FromInt
  use ArithBase
  use export Infty
  val p_add (a b: real) : real ensures { result = a +. b }
  val p_sub (a b: real) : real ensures { result = a -. b }
  val p_mul (a b: real) : real ensures { result = dmul a b }
  val p_div (a b: real) : real requires { [@expl:division by zero] b <> 0.0 } ensures { result = ddiv a b }
  val p_neg (a: real) : real ensures { result = -. a }
  val p_abs (a: real) : real ensures { result = if a >=. 0.0 then a else -. a }
  val p_lt (a b: real) : bool ensures { result <-> a <. b }
  val p_le (a b: real) : bool ensures { result <-> a <=. b }
  val p_gt (a b: real) : bool ensures { result <-> a >. b }
  val p_ge (a b: real) : bool ensures { result <-> a >=. b }
  val p_eq (a b: real) : bool ensures { result <-> a = b }
  val p_ne (a b: real) : bool ensures { result <-> a <> b }
  val p_max (a b: real) : real ensures { result = if a <. b then b else a }
  val p_min (a b: real) : real ensures { result = if b <. a then b else a }
  val p_isinf (a: real) : bool ensures { result <-> (a = infty \/ a = -. infty) }
  val p_isnan (a: real) : bool ensures { not result }
  val p_i2r (a: int) : real ensures { result = from_int a }
end
(* IEEE doubles as far as it matters for time stamps: a total order on the numbers, comparisons with a NaN
   are false, and the results of arithmetic are arbitrary but for the listed facts about rounding *)
module OpsI
  use int.Int
  use real.RealInfix
  use real.FromInt
  use export Infty
  predicate nan real
  axiom infty_num: not nan infty
  axiom minfty_num: not nan (-. infty)
  predicate fin (a: real) = not nan a /\ -. infty <. a <. infty
  axiom zero_num: not nan 0.0
  (* rounded addition: monotonic, and a number unless two opposite infinities are added *)
  function fadd real real : real
  axiom fadd_num: forall a b [fadd a b]. fin a -> not nan b -> not nan (fadd a b) /\ (0.0 <=. b -> a <=. fadd a b)
  axiom fadd_mono: forall a b c [fadd a b, fadd a c]. fin a -> not nan b -> not nan c -> b <=. c -> fadd a b <=. fadd a c
  val p_add (a b: real) : real ensures { result = fadd a b }
  val p_sub (a b: real) : real
    ensures { not nan a -> not nan b -> b <=. a -> nan result \/ result >=. 0.0 }
  val p_mul (a b: real) : real
  val p_div (a b: real) : real
  val p_neg (a: real) : real ensures { nan result <-> nan a } ensures { not nan a -> result = -. a }
  val p_abs (a: real) : real ensures { nan result <-> nan a }
  val p_lt (a b: real) : bool ensures { result <-> (not nan a /\ not nan b /\ a <. b) }
  val p_le (a b: real) : bool ensures { result <-> (not nan a /\ not nan b /\ a <=. b) }
  val p_gt (a b: real) : bool ensures { result <-> (not nan a /\ not nan b /\ a >. b) }
  val p_ge (a b: real) : bool ensures { result <-> (not nan a /\ not nan b /\ a >=. b) }
  val p_eq (a b: real) : bool ensures { result <-> (not nan a /\ not nan b /\ a = b) }
  val p_ne (a b: real) : bool ensures { result <-> not (not nan a /\ not nan b /\ a = b) }
  val p_max (a b: real) : real ensures { result = if not nan a /\ not nan b /\ a <. b then b else a }
  val p_min (a b: real) : real ensures { result = if not nan a /\ not nan b /\ b <. a then b else a }
  val p_isinf (a: real) : bool ensures { result <-> (a = infty \/ a = -. infty) }
  val p_isnan (a: real) : bool ensures { result <-> nan a }
  (* conversion of integers *)
  function rnd int : real
  axiom rnd_num: forall a [rnd a]. not nan (rnd a) /\ (0 <= a -> 0.0 <=. rnd a)
  axiom rnd_mono: forall a b [rnd a, rnd b]. a <= b -> rnd a <=. rnd b
  val p_i2r (a: int) : real ensures { result = rnd a }
end
module Sample
  use real.RealInfix
  type sample = { time: real; value: real; derivative: real }
end
module Str
  type string_t
  val eq_string_t (a b: string_t) : bool ensures { result <-> a = b }
  (* the empty string *)
  constant str_empty : string_t
end
module Forms
  use int.Int
  use real.RealInfix
  use Str
  type comparisonop = GT | GE | LT | LE
  val eq_comparisonop (a b: comparisonop) : bool ensures { result <-> a = b }
  type num = NInt int | NReal real
  val is_NInt (x: num) : bool ensures { result <-> match x with NInt _ -> true | _ -> false end }
  val is_NReal (x: num) : bool ensures { result <-> match x with NReal _ -> true | _ -> false end }
  val get_NInt (x: num) : int requires { exists y. x = NInt y } ensures { x = NInt result }
  val get_NReal (x: num) : real requires { exists y. x = NReal y } ensures { x = NReal result }
  type const_t = { const_value: bool }
  type predicate_t = { predicate_name: string_t; predicate_op: comparisonop; predicate_rhs: real }
  type interval_t = { interval_low: num; interval_high: num }
  type elist
  type expr = EConst const_t | EPred predicate_t | ENot not_t | EAnd and_t | EOr or_t
            | EAlways always_t | EEventually eventually_t | EUntil until_t
  with not_t = { not_arg: expr }
  with and_t = { and_args: elist }
  with or_t = { or_args: elist }
  with always_t = { always_arg: expr; always_interval: interval_t }
  with eventually_t = { eventually_arg: expr; eventually_interval: interval_t }
  with until_t = { until_args: tup_expr_expr; until_interval: interval_t }
  with tup_expr_expr = { tup_expr_expr_0: expr; tup_expr_expr_1: expr }
$VARIANT expr EConst:const_t EPred:predicate_t ENot:not_t EAnd:and_t EOr:or_t EAlways:always_t EEventually:eventually_t EUntil:until_t
end
(* size of formulas, for termination *)
module Size
  use int.Int
  use Forms
  use Seq_elist
  function size expr : int
  axiom size_pos: forall e. size e >= 0
  axiom size_not: forall a. size a.not_arg < size (ENot a)
  axiom size_and: forall a i [elist_nth a.and_args i, EAnd a | size (EAnd a), elist_nth a.and_args i]. 0 <= i < elist_len a.and_args -> size (elist_nth a.and_args i) < size (EAnd a)
  axiom size_or: forall a i [elist_nth a.or_args i, EOr a | size (EOr a), elist_nth a.or_args i]. 0 <= i < elist_len a.or_args -> size (elist_nth a.or_args i) < size (EOr a)
  axiom size_always: forall a. size a.always_arg < size (EAlways a)
  axiom size_eventually: forall a. size a.eventually_arg < size (EEventually a)
  axiom size_until0: forall a. size a.until_args.tup_expr_expr_0 < size (EUntil a)
  axiom size_until1: forall a. size a.until_args.tup_expr_expr_1 < size (EUntil a)
end
$SEQ sseq sample Sample
$SEQ rseq real -
$SEQ strseq string_t Str
$SEQ elist expr Forms notype
module Signals
  use export Sample
  use export Seq_sseq
  type tup_sseq_sseq = { tup_sseq_sseq_0: sseq; tup_sseq_sseq_1: sseq }
  type tup_real_real = { tup_real_real_0: real; tup_real_real_1: real }
end
$SEQ ssseq sseq Seq_sseq
$MAP tmap sseq Seq_sseq
$MAP emap expr Forms
