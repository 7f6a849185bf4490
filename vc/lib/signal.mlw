module SigI
  use int.Int
  use real.RealInfix
  use Signals
  use OpsI
  opaque predicate wf (s: sseq) =
    (forall i j. 0 <= i < j < len s -> (nth s i).time <. (nth s j).time)
    /\ (forall i. 0 <= i < len s -> fin (nth s i).time)
  predicate good (s: sseq) = wf s
  predicate oktime (t: real) = fin t
end
module SigR
  use int.Int
  use real.RealInfix
  use Signals
  use ArithBase
  opaque predicate wf (s: sseq) = forall i j. 0 <= i < j < len s -> (nth s i).time <. (nth s j).time
  predicate oktime (t: real) = true
  predicate cohat (s: sseq) (i: int) =
    (nth s i).derivative = slope (nth s i).time (nth s i).value (nth s (i+1)).time (nth s (i+1)).value
  opaque predicate coh (s: sseq) =
    (forall i [nth s i]. 0 <= i < len s - 1 -> cohat s i)
    /\ (len s > 0 -> (nth s (len s - 1)).derivative = 0.0)
  predicate good (s: sseq) = wf s /\ coh s
  function interp (p: sample) (t: real) : real = p.value +. dmul p.derivative (t -. p.time)
end
(* facts on time stamps, the same for both *)
module $Times
  use int.Int
  use real.RealInfix
  use Signals
  use $Sig
  function begt (s: sseq) : real = if len s = 0 then 0.0 else (nth s 0).time
  function endt (s: sseq) : real = if len s = 0 then 0.0 else (nth s (len s - 1)).time
  opaque predicate indom (s: sseq) (t: real) = len s > 0 /\ (nth s 0).time <=. t <=. (nth s (len s - 1)).time
  (* s' is s with a sample at t of value v at its end *)
  opaque predicate pushed (s: sseq) (t v: real) (s': sseq) =
    len s' = len s + 1 /\
    (forall i. 0 <= i < len s -> (nth s' i).time = (nth s i).time /\ (nth s' i).value = (nth s i).value) /\
    (forall i. 0 <= i < len s - 1 -> nth s' i = nth s i) /\
    (nth s' (len s)).time = t /\ (nth s' (len s)).value = v
  lemma pushed_last: forall s t v s' [pushed s t v s']. pushed s t v s' -> len s' = len s + 1 /\ (nth s' (len s)).time = t /\ (nth s' (len s)).value = v
  opaque predicate sametimes (a b: sseq) =
    len a = len b /\ forall i [(nth a i).time | (nth b i).time]. 0 <= i < len a -> (nth a i).time = (nth b i).time
  opaque predicate samepoints (a b: sseq) =
    len a = len b /\ forall i [nth a i | nth b i]. 0 <= i < len a -> (nth a i).time = (nth b i).time /\ (nth a i).value = (nth b i).value
  lemma wf_le: forall s i j [wf s, nth s i, nth s j]. wf s -> 0 <= i <= j < len s -> (nth s i).time <=. (nth s j).time
  opaque predicate incr (s: sseq) (n: int) = forall i j. 0 <= i < j < n -> (nth s i).time <. (nth s j).time
end
module Values
  use int.Int
  use real.RealInfix
  use Signals
  use Arith
  use SigR
  use TimesR
  predicate seg (s: sseq) (i: int) (t: real) = 0 <= i < len s /\ (nth s i).time <=. t /\ (i + 1 < len s -> t <. (nth s (i+1)).time)
  (* the last sample at or before t *)
  function idx (s: sseq) (t: real) : int
  function value_at (s: sseq) (t: real) : real
  axiom idx_seg: forall s t [idx s t]. wf s -> len s > 0 -> (nth s 0).time <=. t -> seg s (idx s t) t
  axiom seg_uniq: forall s i j t [seg s i t, seg s j t]. wf s -> seg s i t -> seg s j t -> i = j
  axiom seg_val: forall s i t [value_at s t, nth s i]. wf s -> 0 <= i < len s -> (nth s i).time <=. t -> (i + 1 < len s -> t <. (nth s (i+1)).time) -> value_at s t = interp (nth s i) t
  axiom val_seg_l: forall s i t. good s -> 0 <= i < len s - 1 -> (nth s i).time <=. t <=. (nth s (i+1)).time ->
    value_at s t = lin (nth s i).time (nth s i).value (nth s (i+1)).time (nth s (i+1)).value t
  axiom val_nth: forall s i [value_at s (nth s i).time | good s, nth s i]. good s -> 0 <= i < len s -> value_at s (nth s i).time = (nth s i).value
  axiom pb_val1: forall s s' x v t [pushed s x v s', value_at s' t | pushed s x v s', value_at s t]. good s -> good s' -> len s > 0 -> pushed s x v s' ->
    (nth s 0).time <=. t <=. (nth s (len s-1)).time -> value_at s' t = value_at s t
  axiom pb_val2_l: forall s s' x v t. good s -> good s' -> len s > 0 -> pushed s x v s' ->
    (nth s (len s-1)).time <=. t <=. x -> value_at s' t = lin (nth s (len s-1)).time (nth s (len s-1)).value x v t
  (* behind the last sample the value stays *)
  axiom val_end: forall s t [value_at s t]. good s -> len s > 0 -> endt s <=. t -> value_at s t = (nth s (len s - 1)).value
  let ghost val_seg (s: sseq) (i: int) (t: real)
    requires { good s /\ 0 <= i < len s - 1 /\ (nth s i).time <=. t <=. (nth s (i+1)).time }
    ensures { value_at s t = lin (nth s i).time (nth s i).value (nth s (i+1)).time (nth s (i+1)).value t } = ()
  let ghost pb_val2 (s s': sseq) (x v t: real)
    requires { good s /\ good s' /\ len s > 0 /\ pushed s x v s' }
    requires { (nth s (len s-1)).time <=. t <=. x }
    ensures { value_at s' t = lin (nth s (len s-1)).time (nth s (len s-1)).value x v t } = ()
end
module ValuesDef
  use int.Int
  use real.RealInfix
  use Signals
  use Arith
  use SigR
  use TimesR
  predicate seg (s: sseq) (i: int) (t: real) = 0 <= i < len s /\ (nth s i).time <=. t /\ (i + 1 < len s -> t <. (nth s (i+1)).time)
  (* the last of the first n samples at or before t *)
  let rec ghost function idxto (s: sseq) (t: real) (n: int) : int
    requires { 1 <= n <= len s } variant { n }
    requires { wf s }
    ensures { 0 <= result < n }
    ensures { (nth s 0).time <=. t -> (nth s result).time <=. t }
    ensures { forall j. result < j < n -> t <. (nth s j).time }
  = if n <= 1 then 0 else if (nth s (n-1)).time <=. t then n-1 else idxto s t (n-1)
  let ghost function idx (s: sseq) (t: real) : int requires { wf s /\ len s > 0 } = idxto s t (len s)
  function value_at (s: sseq) (t: real) : real = interp (nth s (idxto s t (len s))) t
  lemma seg_uniq: forall s i j t. wf s -> seg s i t -> seg s j t -> i = j
  let lemma idx_seg (s: sseq) (t: real) 
    requires { wf s /\ len s > 0 /\ (nth s 0).time <=. t } ensures { seg s (idxto s t (len s)) t } = ()
  lemma seg_val: forall s i t. wf s -> seg s i t -> value_at s t = interp (nth s i) t
  lemma lin_end: forall t0 v0 t1 v1. t0 <. t1 -> lin t0 v0 t1 v1 t1 = v1
  lemma lin_start: forall t0 v0 t1 v1. lin t0 v0 t1 v1 t0 = v0
  let lemma val_seg (s: sseq) (i: int) (t: real)
    requires { good s /\ 0 <= i < len s - 1 /\ (nth s i).time <=. t <=. (nth s (i+1)).time }
    ensures { value_at s t = lin (nth s i).time (nth s i).value (nth s (i+1)).time (nth s (i+1)).value t }
  = if t <. (nth s (i+1)).time then assert { seg s i t } else begin assert { t = (nth s (i+1)).time }; assert {seg s (i+1) t }; assert { value_at s t = (nth s (i+1)).value } end
  lemma val_nth: forall s i. good s -> 0 <= i < len s -> value_at s (nth s i).time = (nth s i).value
  (* appending a sample *)
  let lemma pb_val1 (s s': sseq) (x v t: real)
    requires { good s /\ good s' /\ len s > 0 /\ pushed s x v s' }
    requires { (nth s 0).time <=. t <=. (nth s (len s-1)).time }
    ensures { value_at s' t = value_at s t }
   = let i = idxto s t (len s) in
     assert { seg s i t };
     if i < len s - 1 then assert { seg s' i t } else begin assert { t = (nth s i).time }; assert { seg s' i t }; assert { value_at s' t = (nth s i).value };  assert { value_at s t = (nth s i).value } end
  let lemma pb_val2 (s s': sseq) (x v t: real)
    requires { good s /\ good s' /\ len s > 0 /\ pushed s x v s' }
    requires { (nth s (len s-1)).time <=. t <=. x }
    ensures { value_at s' t = lin (nth s (len s-1)).time (nth s (len s-1)).value x v t }
   = val_seg s' (len s - 1) t
  lemma val_end: forall s t. good s -> len s > 0 -> endt s <=. t -> value_at s t = (nth s (len s - 1)).value
end
module ValuesImpl
  use ValuesDef
  clone ValuesAx with predicate seg = seg, function idx = idx, function value_at = value_at, lemma .
end
