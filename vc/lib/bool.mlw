(* the same formulas in the same order *)
module Same
  use int.Int
  use Forms
  use Seq_elist
  predicate esame (a b: elist) = elist_len a = elist_len b /\ forall i [elist_nth a i | elist_nth b i]. 0 <= i < elist_len a -> elist_nth a i = elist_nth b i
end
(* the Boolean meaning of formulas; predicates and temporal formulas are atoms *)
module BoolDef
  use int.Int
  use Forms
  use Seq_elist
  use Size
  type valuation
  predicate atom valuation expr
  inductive holds valuation expr =
  | holds_const: forall v c. c.const_value = true -> holds v (EConst c)
  | holds_pred: forall v c. atom v (EPred c) -> holds v (EPred c)
  | holds_always: forall v c. atom v (EAlways c) -> holds v (EAlways c)
  | holds_eventually: forall v c. atom v (EEventually c) -> holds v (EEventually c)
  | holds_until: forall v c. atom v (EUntil c) -> holds v (EUntil c)
  | holds_not: forall v a. breaks v a.not_arg -> holds v (ENot a)
  | holds_and: forall v a. (forall i. 0 <= i < elist_len a.and_args -> holds v (elist_nth a.and_args i)) -> holds v (EAnd a)
  | holds_or: forall v a i. 0 <= i < elist_len a.or_args -> holds v (elist_nth a.or_args i) -> holds v (EOr a)
  with breaks valuation expr =
  | breaks_const: forall v c. c.const_value = false -> breaks v (EConst c)
  | breaks_pred: forall v c. not (atom v (EPred c)) -> breaks v (EPred c)
  | breaks_always: forall v c. not (atom v (EAlways c)) -> breaks v (EAlways c)
  | breaks_eventually: forall v c. not (atom v (EEventually c)) -> breaks v (EEventually c)
  | breaks_until: forall v c. not (atom v (EUntil c)) -> breaks v (EUntil c)
  | breaks_not: forall v a. holds v a.not_arg -> breaks v (ENot a)
  | breaks_and: forall v a i. 0 <= i < elist_len a.and_args -> breaks v (elist_nth a.and_args i) -> breaks v (EAnd a)
  | breaks_or: forall v a. (forall i. 0 <= i < elist_len a.or_args -> breaks v (elist_nth a.or_args i)) -> breaks v (EOr a)
  let rec lemma two (v: valuation) (e: expr) : unit
    ensures { holds v e <-> not (breaks v e) } variant { size e }
  = match e with
    | ENot a -> two v a.not_arg
    | EAnd a -> 
      let lemma each (i: int) requires { 0 <= i < elist_len a.and_args } ensures { holds v (elist_nth a.and_args i) <-> not (breaks v (elist_nth a.and_args i)) }
      = two v (pure { elist_nth a.and_args i }) in ()
    | EOr a ->
      let lemma each (i: int) requires { 0 <= i < elist_len a.or_args } ensures { holds v (elist_nth a.or_args i) <-> not (breaks v (elist_nth a.or_args i)) }
      = two v (pure { elist_nth a.or_args i }) in ()
    | _ -> ()
    end
end
module BoolL
  use int.Int
  use Forms
  use Seq_elist
  type valuation
  predicate holds valuation expr
  axiom bool_const: forall v c [holds v (EConst c)]. holds v (EConst c) <-> c.const_value = true
  axiom bool_not: forall v a [holds v (ENot a)]. holds v (ENot a) <-> not (holds v a.not_arg)
  axiom bool_and: forall v a [holds v (EAnd a)]. holds v (EAnd a) <-> (forall i [elist_nth a.and_args i]. 0 <= i < elist_len a.and_args -> holds v (elist_nth a.and_args i))
  axiom bool_or: forall v a [holds v (EOr a)]. holds v (EOr a) <-> (exists i. 0 <= i < elist_len a.or_args /\ holds v (elist_nth a.or_args i))
end
module BoolImpl
  use BoolDef
  clone BoolL with type valuation = valuation, predicate holds = holds, lemma .
end
