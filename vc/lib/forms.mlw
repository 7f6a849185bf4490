(* the values of interval bounds, and formulas that the constructors accept *)
module NumR
  use int.Int
  use real.RealInfix
  use real.FromInt
  use Forms
  use OpsR
  function num2r (x: num) : real = match x with NInt k -> from_int k | NReal r -> r end
  predicate wfn (x y: num) = match x, y with NInt a, NInt b -> 0 <= a < b | NReal a, NReal b -> 0.0 <=. a <. b | _, _ -> false end
end
module NumI
  use int.Int
  use real.RealInfix
  use Forms
  use OpsI
  function num2r (x: num) : real = match x with NInt k -> rnd k | NReal r -> r end
  predicate wfn (x y: num) = match x, y with NInt a, NInt b -> 0 <= a < b | NReal a, NReal b -> not nan a /\ not nan b /\ 0.0 <=. a <. b | _, _ -> false end
end
module $WfDef
  use int.Int
  use real.RealInfix
  use Forms
  use Seq_elist
  use $Num
  inductive wfe expr =
  | wfe_const: forall c. wfe (EConst c)
  | wfe_pred: forall c. wfe (EPred c)
  | wfe_not: forall a. wfe a.not_arg -> wfe (ENot a)
  | wfe_and: forall a. elist_len a.and_args >= 2 -> (forall i. 0 <= i < elist_len a.and_args -> wfe (elist_nth a.and_args i)) -> wfe (EAnd a)
  | wfe_or: forall a. elist_len a.or_args >= 2 -> (forall i. 0 <= i < elist_len a.or_args -> wfe (elist_nth a.or_args i)) -> wfe (EOr a)
  | wfe_always: forall a. wfn a.always_interval.interval_low a.always_interval.interval_high -> wfe a.always_arg -> wfe (EAlways a)
  | wfe_eventually: forall a. wfn a.eventually_interval.interval_low a.eventually_interval.interval_high -> wfe a.eventually_arg -> wfe (EEventually a)
  | wfe_until: forall a. wfn a.until_interval.interval_low a.until_interval.interval_high -> wfe a.until_args.tup_expr_expr_0 -> wfe a.until_args.tup_expr_expr_1 -> wfe (EUntil a)
end
module $WfL
  use int.Int
  use real.RealInfix
  use Forms
  use Seq_elist
  use $Num
  (* the intervals of the formula are well-formed, and its conjunctions and disjunctions have two operands *)
  predicate wfe expr
  axiom wfe_const: forall c [wfe (EConst c)]. wfe (EConst c)
  axiom wfe_pred: forall c [wfe (EPred c)]. wfe (EPred c)
  axiom wfe_not: forall a [wfe (ENot a)]. wfe (ENot a) <-> wfe a.not_arg
  axiom wfe_and: forall a [wfe (EAnd a)]. wfe (EAnd a) <-> (elist_len a.and_args >= 2 /\ forall i [elist_nth a.and_args i]. 0 <= i < elist_len a.and_args -> wfe (elist_nth a.and_args i))
  axiom wfe_or: forall a [wfe (EOr a)]. wfe (EOr a) <-> (elist_len a.or_args >= 2 /\ forall i [elist_nth a.or_args i]. 0 <= i < elist_len a.or_args -> wfe (elist_nth a.or_args i))
  axiom wfe_always: forall a [wfe (EAlways a)]. wfe (EAlways a) <-> (wfn a.always_interval.interval_low a.always_interval.interval_high /\ wfe a.always_arg)
  axiom wfe_eventually: forall a [wfe (EEventually a)]. wfe (EEventually a) <-> (wfn a.eventually_interval.interval_low a.eventually_interval.interval_high /\ wfe a.eventually_arg)
  axiom wfe_until: forall a [wfe (EUntil a)]. wfe (EUntil a) <-> (wfn a.until_interval.interval_low a.until_interval.interval_high /\ wfe a.until_args.tup_expr_expr_0 /\ wfe a.until_args.tup_expr_expr_1)
end
module $WfImpl
  use $WfDef
  clone $WfL with predicate wfe = wfe, lemma .
end
(* negation, constants, until *)
module RelDef
  use int.Int
  use real.RealInfix
  use Signals
  use Arith
  use Infty
  use SigR
  use TimesR
  use Values
  use SyncR
  use Resample
  opaque predicate negof (x s: sseq) =
    (forall t. indom s t <-> indom x t) /\ (forall t. indom s t -> value_at s t = -. value_at x t)
  let lemma neg_done0 (x s: sseq)
    requires { good x /\ good s /\ sametimes x s /\ forall i. 0 <= i < len s -> (nth s i).value = -. (nth x i).value }
    ensures { negof x s }
  = assert { forall t. indom s t <-> indom x t };
    let lemma one (t: real) requires { indom s t } ensures { value_at s t = -. value_at x t }
    = let ghost k = pure { idx s t } in
      assert { seg s k t };
      if k = len s - 1 then begin
        assert { t = (nth s k).time /\ t = (nth x k).time };
        assert { value_at s t = (nth s k).value };
        assert { value_at x t = (nth x k).value } end
      else begin
        assert { (nth x k).time = (nth s k).time /\ (nth x (k+1)).time = (nth s (k+1)).time };
        val_seg s k t; val_seg x k t
      end in assert { $UNFOLD(negof, x, s) }
  lemma neg_done: forall x s. good x -> good s -> sametimes x s -> (forall i. 0 <= i < len s -> (nth s i).value = -. (nth x i).value) -> negof x s
  opaque predicate constsig (mn mx v: real) (s: sseq) =
    len s > 0 /\ (forall t. indom s t <-> (t = mn \/ mn <=. t <=. mx)) /\ (forall t. indom s t -> value_at s t = v)
  let lemma const_done0 (mn mx v: real) (s: sseq)
    requires { good s /\ len s > 0 /\ (nth s 0).time = mn /\ (nth s (len s - 1)).time = (if mn <. mx then mx else mn) /\ forall i. 0 <= i < len s -> (nth s i).value = v }
    ensures { constsig mn mx v s }
  = let lemma one (t: real) requires { indom s t } ensures { value_at s t = v }
    = let ghost k = pure { idx s t } in
      assert { seg s k t };
      if k = len s - 1 then begin assert { t = (nth s k).time }; assert { value_at s t = (nth s k).value } end
      else begin val_seg s k t; assert { (nth s k).value = v /\ (nth s (k+1)).value = v }; assert { (nth s k).time <. (nth s (k+1)).time } end in
    assert { forall t. indom s t <-> (t = mn \/ mn <=. t <=. mx) };
    assert { $UNFOLD(constsig, mn, mx, v, s) }
  lemma const_done: forall mn mx v s. good s -> len s > 0 -> (nth s 0).time = mn -> (nth s (len s - 1)).time = (if mn <. mx then mx else mn) -> (forall i. 0 <= i < len s -> (nth s i).value = v) -> constsig mn mx v s
  (* v is the largest over all j >= i of the least of y_j and x_i .. x_(j-1), at the sample times of s *)
  opaque predicate untilat (x y s: sseq) (i: int) (v: real) =
    0 <= i <= len s /\
    (v <=. -. infty \/ exists j. i <= j < len s /\ v <=. value_at y (nth s j).time /\ forall k [nth s k]. i <= k < j -> v <=. value_at x (nth s k).time) /\
    (forall j [nth s j]. i <= j < len s -> value_at y (nth s j).time <=. v \/ exists k. i <= k < j /\ value_at x (nth s k).time <=. v)
  opaque predicate untilrel (x y s: sseq) =
    synced s x y /\ forall i [nth s i]. 0 <= i < len s -> untilat x y s i (nth s i).value
  lemma untilat_start: forall x y s i v. i = len s -> v = -. infty -> untilat x y s i v
  lemma untilat_state: forall x y s i v. untilat x y s i v -> 0 <= i <= len s
  let lemma untilat_step0 (x y s: sseq) (i p: int) (a b v v' m: real)
    requires { untilat x y s i v /\ i > 0 /\ p = i - 1 /\ a = value_at x (nth s p).time /\ b = value_at y (nth s p).time }
    requires { m = (if v <. a then v else a) /\ v' = (if b <. m then m else b) }
    ensures { untilat x y s p v' }
  = if pure { b <. m } then begin
      assert { v' <=. v /\ v' <=. a };
      if pure { v <=. -. infty } then assert { v' <=. -. infty } else begin
        assert { exists j. i <= j < len s /\ v <=. value_at y (nth s j).time /\ forall p [nth s p]. i <= p < j -> v <=. value_at x (nth s p).time };
        assert { exists j. p <= j < len s /\ v' <=. value_at y (nth s j).time /\ forall q [nth s q]. p <= q < j -> v' <=. value_at x (nth s q).time }
      end;
      assert { v' <=. -. infty \/ exists j. p <= j < len s /\ v' <=. value_at y (nth s j).time /\ forall q [nth s q]. p <= q < j -> v' <=. value_at x (nth s q).time }
    end else begin
      assert { exists j. p <= j < len s /\ v' <=. value_at y (nth s j).time /\ forall q [nth s q]. p <= q < j -> v' <=. value_at x (nth s q).time by j = p };
      assert { v' <=. -. infty \/ exists j. p <= j < len s /\ v' <=. value_at y (nth s j).time /\ forall q [nth s q]. p <= q < j -> v' <=. value_at x (nth s q).time }
    end;
    assert { v' <=. -. infty \/ exists j. p <= j < len s /\ v' <=. value_at y (nth s j).time /\ forall q [nth s q]. p <= q < j -> v' <=. value_at x (nth s q).time };
    assert { value_at y (nth s p).time <=. v' };
    assert { v <=. v' \/ value_at x (nth s p).time <=. v' };
    assert { forall j. i <= j < len s -> value_at y (nth s j).time <=. v \/ exists q. i <= q < j /\ value_at x (nth s q).time <=. v };
    assert { forall j. p <= j < len s -> value_at y (nth s j).time <=. v' \/ exists q. p <= q < j /\ value_at x (nth s q).time <=. v' };
    assert { $UNFOLD(untilat, x, y, s, p, v') }
  let lemma untilat_times0 (x y r s: sseq) (i: int) (v: real)
    requires { untilat x y r i v /\ sametimes r s } ensures { untilat x y s i v }
  = assert { forall j. 0 <= j < len s -> (nth s j).time = (nth r j).time };
    assert { $UNFOLD(untilat, x, y, s, i, v) }
  let lemma until_done0 (x y r s: sseq)
    requires { sametimes r s /\ synced r x y /\ forall i. 0 <= i < len s -> untilat x y r i (nth s i).value }
    ensures { untilrel x y s }
  = assert { len r = len s /\ forall i. 0 <= i < len r -> (nth r i).time = (nth s i).time };
    assert { forall t. hastime r t <-> hastime s t };
    assert { forall t. indom r t <-> indom s t };
    let lemma one (i: int) requires { 0 <= i < len s } ensures { untilat x y s i (nth s i).value } = untilat_times0 x y r s i (nth s i).value in
    assert { $UNFOLD(untilrel, x, y, s) }
  lemma until_done: forall x y r s. sametimes r s -> synced r x y -> (forall i. 0 <= i < len s -> untilat x y r i (nth s i).value) -> untilrel x y s
  lemma until_sync: forall x y s. untilrel x y s -> synced s x y
end
module RelL
  use int.Int
  use real.RealInfix
  use Signals
  use Arith
  use Infty
  use SigR
  use TimesR
  use Values
  use SyncR
  use Resample
  predicate negof (x s: sseq)
  axiom neg_done: forall x s [negof x s]. good x -> good s -> sametimes x s -> (forall i. 0 <= i < len s -> (nth s i).value = -. (nth x i).value) -> negof x s
  predicate constsig (mn mx v: real) (s: sseq)
  axiom const_done: forall mn mx v s [constsig mn mx v s]. good s -> len s > 0 -> (nth s 0).time = mn -> (nth s (len s - 1)).time = (if mn <. mx then mx else mn) ->
    (forall i. 0 <= i < len s -> (nth s i).value = v) -> constsig mn mx v s
  predicate untilat (x y s: sseq) (i: int) (v: real)
  predicate untilrel (x y s: sseq)
  axiom untilat_start: forall x y s i v [untilat x y s i v]. i = len s -> v = -. infty -> untilat x y s i v
  axiom untilat_state: forall x y s i v [untilat x y s i v]. untilat x y s i v -> 0 <= i <= len s
  axiom untilat_step: forall x y s i k v v' [untilat x y s i v, untilat x y s k v']. untilat x y s i v -> i > 0 -> k = i - 1 ->
    (let a = value_at x (nth s k).time in let b = value_at y (nth s k).time in let m = (if v <. a then v else a) in v' = (if b <. m then m else b)) -> untilat x y s k v'
  axiom until_done: forall x y r s [untilrel x y s, synced r x y]. sametimes r s -> synced r x y -> (forall i. 0 <= i < len s -> untilat x y r i (nth s i).value) -> untilrel x y s
  axiom until_sync: forall x y s [untilrel x y s]. untilrel x y s -> synced s x y
end
module RelImpl
  use RelDef
  clone RelL with predicate negof = negof, predicate constsig = constsig, predicate untilat = untilat, predicate untilrel = untilrel, lemma .
end
module RobBase
  use int.Int
  use Map_tmap
  use real.RealInfix
  use Signals
  use Forms
  use Infty
  use SigR
  use TimesR
  use NumR
  (* the interval [0,inf) *)
  predicate unb (i: interval_t) = num2r i.interval_low = 0.0 /\ num2r i.interval_high = infty
  (* mn, mx: first begin time and last end time of the first n signals of the trace *)
  predicate extent (tr: tmap) (n: int) (mn mx: real) =
    (forall i [tmap_val tr i]. 0 <= i < n -> mn <=. begt (tmap_val tr i) /\ endt (tmap_val tr i) <=. mx) /\
    mn <=. infty /\ -. infty <=. mx /\
    (mn = infty \/ exists i. 0 <= i < n /\ mn = begt (tmap_val tr i)) /\
    (mx = -. infty \/ exists i. 0 <= i < n /\ mx = endt (tmap_val tr i))
  opaque predicate predsig (p: predicate_t) (x s: sseq) =
    sametimes x s /\ forall i [nth s i]. 0 <= i < len s -> (nth s i).value = match p.predicate_op with GT | GE -> (nth x i).value -. p.predicate_rhs | LT | LE -> p.predicate_rhs -. (nth x i).value end
end
(* s is the robustness of the formula on the trace; mn, mx: first begin time, last end time *)
module RobDef
  use int.Int
  use real.RealInfix
  use Signals
  use Forms
  use Seq_elist
  use Seq_ssseq
  use Map_tmap
  use Arith
  use Infty
  use SigR
  use TimesR
  use Values
  use SyncR
  use Resample
  use MinOpt
  use MaxOpt
  use MinNaryL
  use MaxNaryL
  use MinSeqL
  use MaxSeqL
  use RelL
  use NumR
  use RobBase
  inductive rob tmap real real expr sseq =
  | rob_const: forall tr mn mx c s. constsig mn mx (if c.const_value then infty else -. infty) s -> rob tr mn mx (EConst c) s
  | rob_pred: forall tr mn mx p s. tmap_has tr p.predicate_name -> predsig p (tmap_at tr p.predicate_name) s -> rob tr mn mx (EPred p) s
  | rob_not: forall tr mn mx a x s. rob tr mn mx a.not_arg x -> negof x s -> rob tr mn mx (ENot a) s
  | rob_and: forall tr mn mx a ys n s. n = elist_len a.and_args -> ssseq_len ys = n -> (forall i [elist_nth a.and_args i]. 0 <= i < n -> rob tr mn mx (elist_nth a.and_args i) (ssseq_nth ys i)) -> minnary ys n s -> rob tr mn mx (EAnd a) s
  | rob_or: forall tr mn mx a ys n s. n = elist_len a.or_args -> ssseq_len ys = n -> (forall i [elist_nth a.or_args i]. 0 <= i < n -> rob tr mn mx (elist_nth a.or_args i) (ssseq_nth ys i)) -> maxnary ys n s -> rob tr mn mx (EOr a) s
  | rob_always: forall tr mn mx a x s. rob tr mn mx a.always_arg x -> unb a.always_interval -> mintail x s -> rob tr mn mx (EAlways a) s
  | rob_always_b: forall tr mn mx a x s. rob tr mn mx a.always_arg x -> not unb a.always_interval -> minwinrel (num2r a.always_interval.interval_low) (num2r a.always_interval.interval_high) x s -> rob tr mn mx (EAlways a) s
  | rob_eventually: forall tr mn mx a x s. rob tr mn mx a.eventually_arg x -> unb a.eventually_interval -> maxtail x s -> rob tr mn mx (EEventually a) s
  | rob_eventually_b: forall tr mn mx a x s. rob tr mn mx a.eventually_arg x -> not unb a.eventually_interval -> maxwinrel (num2r a.eventually_interval.interval_low) (num2r a.eventually_interval.interval_high) x s -> rob tr mn mx (EEventually a) s
  | rob_until: forall tr mn mx a x y s. rob tr mn mx a.until_args.tup_expr_expr_0 x -> rob tr mn mx a.until_args.tup_expr_expr_1 y -> unb a.until_interval -> untilrel x y s -> rob tr mn mx (EUntil a) s
end
module RobL
  use int.Int
  use real.RealInfix
  use Signals
  use Forms
  use Seq_elist
  use Seq_ssseq
  use Map_tmap
  use Arith
  use Infty
  use SigR
  use TimesR
  use Values
  use SyncR
  use Resample
  use MinOpt
  use MaxOpt
  use MinNaryL
  use MaxNaryL
  use MinSeqL
  use MaxSeqL
  use RelL
  use NumR
  use RobBase
  predicate rob (tr: tmap) (mn mx: real) (e: expr) (s: sseq)
  axiom rob_const: forall tr mn mx c s [rob tr mn mx (EConst c) s]. constsig mn mx (if c.const_value then infty else -. infty) s -> rob tr mn mx (EConst c) s
  axiom rob_pred: forall tr mn mx p s [rob tr mn mx (EPred p) s]. tmap_has tr p.predicate_name -> predsig p (tmap_at tr p.predicate_name) s -> rob tr mn mx (EPred p) s
  axiom rob_not: forall tr mn mx a x s [rob tr mn mx a.not_arg x, rob tr mn mx (ENot a) s]. rob tr mn mx a.not_arg x -> negof x s -> rob tr mn mx (ENot a) s
  axiom rob_and: forall tr mn mx a ys n s [minnary ys n s, rob tr mn mx (EAnd a) s]. n = elist_len a.and_args -> ssseq_len ys = n -> (forall i [elist_nth a.and_args i]. 0 <= i < n -> rob tr mn mx (elist_nth a.and_args i) (ssseq_nth ys i)) -> minnary ys n s -> rob tr mn mx (EAnd a) s
  axiom rob_or: forall tr mn mx a ys n s [maxnary ys n s, rob tr mn mx (EOr a) s]. n = elist_len a.or_args -> ssseq_len ys = n -> (forall i [elist_nth a.or_args i]. 0 <= i < n -> rob tr mn mx (elist_nth a.or_args i) (ssseq_nth ys i)) -> maxnary ys n s -> rob tr mn mx (EOr a) s
  axiom rob_always: forall tr mn mx a x s [rob tr mn mx a.always_arg x, rob tr mn mx (EAlways a) s]. rob tr mn mx a.always_arg x -> unb a.always_interval -> mintail x s -> rob tr mn mx (EAlways a) s
  axiom rob_always_b: forall tr mn mx a x s [rob tr mn mx a.always_arg x, rob tr mn mx (EAlways a) s]. rob tr mn mx a.always_arg x -> not unb a.always_interval -> minwinrel (num2r a.always_interval.interval_low) (num2r a.always_interval.interval_high) x s -> rob tr mn mx (EAlways a) s
  axiom rob_eventually: forall tr mn mx a x s [rob tr mn mx a.eventually_arg x, rob tr mn mx (EEventually a) s]. rob tr mn mx a.eventually_arg x -> unb a.eventually_interval -> maxtail x s -> rob tr mn mx (EEventually a) s
  axiom rob_eventually_b: forall tr mn mx a x s [rob tr mn mx a.eventually_arg x, rob tr mn mx (EEventually a) s]. rob tr mn mx a.eventually_arg x -> not unb a.eventually_interval -> maxwinrel (num2r a.eventually_interval.interval_low) (num2r a.eventually_interval.interval_high) x s -> rob tr mn mx (EEventually a) s
  axiom rob_until: forall tr mn mx a x y s [rob tr mn mx a.until_args.tup_expr_expr_0 x, rob tr mn mx a.until_args.tup_expr_expr_1 y, rob tr mn mx (EUntil a) s]. rob tr mn mx a.until_args.tup_expr_expr_0 x -> rob tr mn mx a.until_args.tup_expr_expr_1 y -> unb a.until_interval -> untilrel x y s -> rob tr mn mx (EUntil a) s
end
module RobImpl
  use RobDef
  clone RobL with predicate rob = rob, lemma .
end
(* a name of the formula is not in the trace; it has a bounded until *)
module FailDef
  use int.Int
  use Forms
  use Seq_elist
  use Map_tmap
  use NumR
  use RobBase
  inductive missing tmap expr =
  | missing_pred: forall tr p. not (tmap_has tr p.predicate_name) -> missing tr (EPred p)
  | missing_not: forall tr a. missing tr a.not_arg -> missing tr (ENot a)
  | missing_always: forall tr a. missing tr a.always_arg -> missing tr (EAlways a)
  | missing_eventually: forall tr a. missing tr a.eventually_arg -> missing tr (EEventually a)
  | missing_until0: forall tr a. missing tr a.until_args.tup_expr_expr_0 -> missing tr (EUntil a)
  | missing_until1: forall tr a. missing tr a.until_args.tup_expr_expr_1 -> missing tr (EUntil a)
  | missing_and: forall tr a i. 0 <= i < elist_len a.and_args -> missing tr (elist_nth a.and_args i) -> missing tr (EAnd a)
  | missing_or: forall tr a i. 0 <= i < elist_len a.or_args -> missing tr (elist_nth a.or_args i) -> missing tr (EOr a)
  inductive buntil expr =
  | buntil_until: forall a. not (unb a.until_interval) -> buntil (EUntil a)
  | buntil_not: forall a. buntil a.not_arg -> buntil (ENot a)
  | buntil_always: forall a. buntil a.always_arg -> buntil (EAlways a)
  | buntil_eventually: forall a. buntil a.eventually_arg -> buntil (EEventually a)
  | buntil_until0: forall a. buntil a.until_args.tup_expr_expr_0 -> buntil (EUntil a)
  | buntil_until1: forall a. buntil a.until_args.tup_expr_expr_1 -> buntil (EUntil a)
  | buntil_and: forall a i. 0 <= i < elist_len a.and_args -> buntil (elist_nth a.and_args i) -> buntil (EAnd a)
  | buntil_or: forall a i. 0 <= i < elist_len a.or_args -> buntil (elist_nth a.or_args i) -> buntil (EOr a)
end
module FailL
  use int.Int
  use Forms
  use Seq_elist
  use Map_tmap
  use NumR
  use RobBase
  predicate missing tmap expr
  axiom missing_pred: forall tr p [missing tr (EPred p)]. not (tmap_has tr p.predicate_name) -> missing tr (EPred p)
  axiom missing_not: forall tr a [missing tr (ENot a), missing tr a.not_arg]. missing tr a.not_arg -> missing tr (ENot a)
  axiom missing_always: forall tr a [missing tr (EAlways a), missing tr a.always_arg]. missing tr a.always_arg -> missing tr (EAlways a)
  axiom missing_eventually: forall tr a [missing tr (EEventually a), missing tr a.eventually_arg]. missing tr a.eventually_arg -> missing tr (EEventually a)
  axiom missing_until0: forall tr a [missing tr (EUntil a), missing tr a.until_args.tup_expr_expr_0]. missing tr a.until_args.tup_expr_expr_0 -> missing tr (EUntil a)
  axiom missing_until1: forall tr a [missing tr (EUntil a), missing tr a.until_args.tup_expr_expr_1]. missing tr a.until_args.tup_expr_expr_1 -> missing tr (EUntil a)
  axiom missing_and: forall tr a i [missing tr (EAnd a), missing tr (elist_nth a.and_args i)]. 0 <= i < elist_len a.and_args -> missing tr (elist_nth a.and_args i) -> missing tr (EAnd a)
  axiom missing_or: forall tr a i [missing tr (EOr a), missing tr (elist_nth a.or_args i)]. 0 <= i < elist_len a.or_args -> missing tr (elist_nth a.or_args i) -> missing tr (EOr a)
  predicate buntil expr
  axiom buntil_until: forall a [buntil (EUntil a)]. not (unb a.until_interval) -> buntil (EUntil a)
  axiom buntil_not: forall a [buntil (ENot a), buntil a.not_arg]. buntil a.not_arg -> buntil (ENot a)
  axiom buntil_always: forall a [buntil (EAlways a), buntil a.always_arg]. buntil a.always_arg -> buntil (EAlways a)
  axiom buntil_eventually: forall a [buntil (EEventually a), buntil a.eventually_arg]. buntil a.eventually_arg -> buntil (EEventually a)
  axiom buntil_until0: forall a [buntil (EUntil a), buntil a.until_args.tup_expr_expr_0]. buntil a.until_args.tup_expr_expr_0 -> buntil (EUntil a)
  axiom buntil_until1: forall a [buntil (EUntil a), buntil a.until_args.tup_expr_expr_1]. buntil a.until_args.tup_expr_expr_1 -> buntil (EUntil a)
  axiom buntil_and: forall a i [buntil (EAnd a), buntil (elist_nth a.and_args i)]. 0 <= i < elist_len a.and_args -> buntil (elist_nth a.and_args i) -> buntil (EAnd a)
  axiom buntil_or: forall a i [buntil (EOr a), buntil (elist_nth a.or_args i)]. 0 <= i < elist_len a.or_args -> buntil (elist_nth a.or_args i) -> buntil (EOr a)
end
module FailImpl
  use FailDef
  clone FailL with predicate missing = missing, predicate buntil = buntil, lemma .
end
(* time stamps of results, for IEEE doubles *)
module KeptDef
  use int.Int
  use real.RealInfix
  use Signals
  use Seq_ssseq
  use SigI
  use TimesI
  use SyncI
  (* s covers the common range of x and y, and has all sample times in it *)
  opaque predicate spans (s x y: sseq) =
    (forall t. indom s t <-> (indom x t /\ indom y t)) /\
    (forall i [nth x i]. 0 <= i < len x -> indom y (nth x i).time -> hastime s (nth x i).time) /\
    (forall i [nth y i]. 0 <= i < len y -> indom x (nth y i).time -> hastime s (nth y i).time)
  opaque predicate kept (o x: sseq) (n: int) =
    0 <= n <= len x /\ (n = 0 -> len o = 0) /\
    (n > 0 -> len o > 0 /\ (nth o 0).time = (nth x 0).time /\ (nth o (len o - 1)).time = (nth x (n - 1)).time) /\
    (forall k [nth x k]. 0 <= k < n -> hastime o (nth x k).time)
  lemma kept_none: forall o x n. n = 0 -> len o = 0 -> kept o x n
  let lemma pushed_has (o o': sseq) (t v: real) requires { pushed o t v o' } ensures { hastime o' t } ensures { forall u [hastime o' u]. hastime o u -> hastime o' u }
  = assert { (nth o' (len o)).time = t }; assert { forall i. 0 <= i < len o -> (nth o' i).time = (nth o i).time }
  let lemma kept_push0 (o x o': sseq) (n: int) (t v: real)
    requires { kept o x n /\ pushed o t v o' /\ n < len x /\ t = (nth x n).time }
    ensures { kept o' x (n+1) }
  = pushed_has o o' t v; assert { $UNFOLD(kept, o', x, n+1) }
  lemma kept_push: forall o x o' n m t v. kept o x n -> pushed o t v o' -> n < len x -> m = n + 1 -> t = (nth x n).time -> kept o' x m
  let lemma kept_push2 (o x o1 o2: sseq) (n: int) (c w t v: real)
    requires { kept o x n /\ pushed o c w o1 /\ pushed o1 t v o2 /\ 0 < n < len x /\ t = (nth x n).time }
    ensures { kept o2 x (n+1) }
  = pushed_has o o1 c w; pushed_has o1 o2 t v; assert { len o2 = len o + 2 /\ (nth o2 0).time = (nth o1 0).time /\ (nth o1 0).time = (nth o 0).time };
    assert { (nth o2 (len o1)).time = t }; assert { $UNFOLD(kept, o2, x, n+1) }
  lemma kept_mid: forall o x o1 o2 n m c w t v. kept o x n -> pushed o c w o1 -> pushed o1 t v o2 -> 0 < n < len x -> m = n + 1 -> t = (nth x n).time -> kept o2 x m
  let lemma kept_done0 (s x y: sseq) requires { wf s /\ wf x /\ wf y /\ kept s x (len x) /\ sametimes x y } ensures { spans s x y }
  = if len x > 0 then begin
      assert { len s > 0 /\ (nth s 0).time = (nth x 0).time /\ (nth s (len s - 1)).time = (nth x (len x - 1)).time };
      assert { len y > 0 /\ (nth y 0).time = (nth x 0).time /\ (nth y (len y - 1)).time = (nth x (len x - 1)).time };
      assert { forall t. indom s t <-> (indom x t /\ indom y t) };
      assert { forall i. 0 <= i < len y -> (nth y i).time = (nth x i).time };
      assert { $UNFOLD(spans, s, x, y) }
    end else assert { $UNFOLD(spans, s, x, y) }
  let lemma kept_sync0 (s x y p q: sseq) requires { wf s /\ wf x /\ wf y /\ kept s x (len x) /\ sametimes x y /\ synced x p q /\ synced y p q } ensures { spans s p q }
  = kept_done0 s x y;
    assert { forall t. indom x t <-> indom y t };
    assert { forall t. indom s t <-> (indom p t /\ indom q t) };
    assert { forall t. hastime x t -> hastime s t };
    assert { $UNFOLD(spans, s, p, q) }
  lemma kept_done: forall s x y n. wf s -> wf x -> wf y -> kept s x n -> n = len x -> sametimes x y -> spans s x y
  lemma kept_sync: forall s x y p q n. wf s -> wf x -> wf y -> kept s x n -> n = len x -> sametimes x y -> synced x p q -> synced y p q -> spans s p q
  lemma kept_state: forall o x n. kept o x n -> 0 <= n <= len x
  inductive nspans ssseq int sseq =
  | nspans_one: forall xs n s. n = 1 -> 1 <= ssseq_len xs -> s = ssseq_nth xs 0 -> nspans xs n s
  | nspans_step: forall xs n s s' y. nspans xs n s -> n < ssseq_len xs -> y = ssseq_nth xs n -> spans s' s y -> nspans xs (n+1) s'
  lemma nspans_pair: forall xs x y n s. spans s x y -> n = 2 -> 2 <= ssseq_len xs -> x = ssseq_nth xs 0 -> y = ssseq_nth xs 1 -> (nspans xs n s by nspans xs 1 x)
end
module KeptL
  use int.Int
  use real.RealInfix
  use Signals
  use Seq_ssseq
  use SigI
  use TimesI
  use SyncI
  predicate spans (s x y: sseq)
  predicate kept (o x: sseq) (n: int)
  predicate nspans (xs: ssseq) (n: int) (s: sseq)
  axiom kept_none: forall o x n [kept o x n]. n = 0 -> len o = 0 -> kept o x n
  axiom kept_state: forall o x n [kept o x n]. kept o x n -> 0 <= n <= len x
  axiom kept_push: forall o x o' n m t v [kept o x n, pushed o t v o', kept o' x m]. kept o x n -> pushed o t v o' -> n < len x -> m = n + 1 -> t = (nth x n).time -> kept o' x m
  axiom kept_mid: forall o x o1 o2 n m c w t v [kept o x n, pushed o c w o1, pushed o1 t v o2, kept o2 x m]. kept o x n -> pushed o c w o1 -> pushed o1 t v o2 -> 0 < n < len x -> m = n + 1 -> t = (nth x n).time -> kept o2 x m
  axiom kept_done: forall s x y n [kept s x n, spans s x y]. wf s -> wf x -> wf y -> kept s x n -> n = len x -> sametimes x y -> spans s x y
  axiom kept_sync: forall s x y p q n [kept s x n, spans s p q, synced y p q]. wf s -> wf x -> wf y -> kept s x n -> n = len x -> sametimes x y -> synced x p q -> synced y p q -> spans s p q
  axiom nspans_one: forall xs n s [nspans xs n s]. n = 1 -> 1 <= ssseq_len xs -> s = ssseq_nth xs 0 -> nspans xs n s
  axiom nspans_step: forall xs n s s' y [nspans xs n s, spans s' s y]. nspans xs n s -> n < ssseq_len xs -> y = ssseq_nth xs n -> spans s' s y -> nspans xs (n+1) s'
  axiom nspans_pair: forall xs x y n s [spans s x y, nspans xs n s]. spans s x y -> n = 2 -> 2 <= ssseq_len xs -> x = ssseq_nth xs 0 -> y = ssseq_nth xs 1 -> nspans xs n s
end
module KeptImpl
  use KeptDef
  clone KeptL with predicate spans = spans, predicate kept = kept, predicate nspans = nspans, lemma .
end
(* the sample times of s are those the evaluation of the formula has to give *)
module RobtDef
  use int.Int
  use real.RealInfix
  use Signals
  use Seq_ssseq
  use SigI
  use TimesI
  use SyncI
  use Forms
  use Seq_elist
  use Map_tmap
  use Infty
  use KeptL
  inductive robt tmap real real expr sseq =
  | robt_const: forall tr mn mx c s. 0 < len s -> (nth s 0).time = mn -> (nth s (len s - 1)).time = (if mn <. mx then mx else mn) -> robt tr mn mx (EConst c) s
  | robt_pred: forall tr mn mx p s. tmap_has tr p.predicate_name -> sametimes (tmap_at tr p.predicate_name) s -> robt tr mn mx (EPred p) s
  | robt_not: forall tr mn mx a x s. robt tr mn mx a.not_arg x -> sametimes x s -> robt tr mn mx (ENot a) s
  | robt_always: forall tr mn mx a x s. robt tr mn mx a.always_arg x -> sametimes x s -> robt tr mn mx (EAlways a) s
  | robt_eventually: forall tr mn mx a x s. robt tr mn mx a.eventually_arg x -> sametimes x s -> robt tr mn mx (EEventually a) s
  | robt_until: forall tr mn mx a x y s. robt tr mn mx a.until_args.tup_expr_expr_0 x -> robt tr mn mx a.until_args.tup_expr_expr_1 y -> synced s x y -> robt tr mn mx (EUntil a) s
  | robt_and: forall tr mn mx a ys n s. n = elist_len a.and_args -> ssseq_len ys = n -> (forall i [elist_nth a.and_args i]. 0 <= i < n -> robt tr mn mx (elist_nth a.and_args i) (ssseq_nth ys i)) -> nspans ys n s -> robt tr mn mx (EAnd a) s
  | robt_or: forall tr mn mx a ys n s. n = elist_len a.or_args -> ssseq_len ys = n -> (forall i [elist_nth a.or_args i]. 0 <= i < n -> robt tr mn mx (elist_nth a.or_args i) (ssseq_nth ys i)) -> nspans ys n s -> robt tr mn mx (EOr a) s
end
module RobtL
  use int.Int
  use real.RealInfix
  use Signals
  use Seq_ssseq
  use SigI
  use TimesI
  use SyncI
  use Forms
  use Seq_elist
  use Map_tmap
  use Infty
  use KeptL
  predicate robt (tr: tmap) (mn mx: real) (e: expr) (s: sseq)
  axiom robt_const: forall tr mn mx c s [robt tr mn mx (EConst c) s]. 0 < len s -> (nth s 0).time = mn -> (nth s (len s - 1)).time = (if mn <. mx then mx else mn) -> robt tr mn mx (EConst c) s
  axiom robt_pred: forall tr mn mx p s [robt tr mn mx (EPred p) s]. tmap_has tr p.predicate_name -> sametimes (tmap_at tr p.predicate_name) s -> robt tr mn mx (EPred p) s
  axiom robt_not: forall tr mn mx a x s [robt tr mn mx a.not_arg x, robt tr mn mx (ENot a) s]. robt tr mn mx a.not_arg x -> sametimes x s -> robt tr mn mx (ENot a) s
  axiom robt_always: forall tr mn mx a x s [robt tr mn mx a.always_arg x, robt tr mn mx (EAlways a) s]. robt tr mn mx a.always_arg x -> sametimes x s -> robt tr mn mx (EAlways a) s
  axiom robt_eventually: forall tr mn mx a x s [robt tr mn mx a.eventually_arg x, robt tr mn mx (EEventually a) s]. robt tr mn mx a.eventually_arg x -> sametimes x s -> robt tr mn mx (EEventually a) s
  axiom robt_until: forall tr mn mx a x y s [robt tr mn mx a.until_args.tup_expr_expr_0 x, robt tr mn mx a.until_args.tup_expr_expr_1 y, robt tr mn mx (EUntil a) s]. robt tr mn mx a.until_args.tup_expr_expr_0 x -> robt tr mn mx a.until_args.tup_expr_expr_1 y -> synced s x y -> robt tr mn mx (EUntil a) s
  axiom robt_and: forall tr mn mx a ys n s [nspans ys n s, robt tr mn mx (EAnd a) s]. n = elist_len a.and_args -> ssseq_len ys = n -> (forall i [elist_nth a.and_args i]. 0 <= i < n -> robt tr mn mx (elist_nth a.and_args i) (ssseq_nth ys i)) -> nspans ys n s -> robt tr mn mx (EAnd a) s
  axiom robt_or: forall tr mn mx a ys n s [nspans ys n s, robt tr mn mx (EOr a) s]. n = elist_len a.or_args -> ssseq_len ys = n -> (forall i [elist_nth a.or_args i]. 0 <= i < n -> robt tr mn mx (elist_nth a.or_args i) (ssseq_nth ys i)) -> nspans ys n s -> robt tr mn mx (EOr a) s
end
module RobtImpl
  use RobtDef
  clone RobtL with predicate robt = robt, lemma .
end
