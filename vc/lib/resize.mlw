(* s has samples of the first k of x only, and begins with the first of them *)
module $SubDef
  use int.Int
  use real.RealInfix
  use Signals
  use $Sig
  use $Times
  opaque predicate subof (s x: sseq) (k: int) =
    (forall i [nth s i]. 0 <= i < len s -> exists j. 0 <= j < k /\ (nth s i).time = (nth x j).time /\ (nth s i).value = (nth x j).value)
    /\ (len s > 0 <-> k > 0) /\ (k > 0 -> (nth s 0).time = (nth x 0).time) /\ 0 <= k <= len x
  lemma subof_zero: forall s x k. len s = 0 -> k = 0 -> subof s x k
  lemma subof_skip: forall s x k. subof s x k -> 0 < k < len x -> subof s x (k+1)
  let lemma subof_push (s s' x: sseq) (k: int) (t v: real)
    requires { subof s x k /\ pushed s t v s' /\ 0 <= k < len x /\ t = (nth x k).time /\ v = (nth x k).value } ensures { subof s' x (k+1) }
  = assert { forall i. 0 <= i < len s -> exists j. 0 <= j < k /\ (nth s' i).time = (nth x j).time /\ (nth s' i).value = (nth x j).value };
    assert { $UNFOLD(subof, s', x, k+1) }
  let lemma subof_last (s s' x: sseq) (k: int) (t v: real)
    requires { subof s x k /\ pushed s t v s' /\ 0 < k = len x /\ t = (nth x (k-1)).time /\ v = (nth x (k-1)).value } ensures { subof s' x k }
  = assert { forall i. 0 <= i < len s -> exists j. 0 <= j < k /\ (nth s' i).time = (nth x j).time /\ (nth s' i).value = (nth x j).value };
    assert { (nth s' (len s)).time = (nth x (k-1)).time };
    assert { $UNFOLD(subof, s', x, k) }
  let lemma subof_end (s x: sseq) (k: int) requires { wf x /\ subof s x k /\ k > 0 } ensures { endt s <=. (nth x (k-1)).time }
  = assert { exists j. 0 <= j < k /\ (nth s (len s - 1)).time = (nth x j).time }
end
module $SubL
  use int.Int
  use real.RealInfix
  use Signals
  use $Sig
  use $Times
  predicate subof (s x: sseq) (k: int)
  axiom subof_zero: forall s x k [subof s x k]. len s = 0 -> k = 0 -> subof s x k
  axiom subof_size: forall s x k [subof s x k]. subof s x k -> 0 <= k <= len x /\ (len s > 0 <-> k > 0)
  axiom subof_begin: forall s x k [subof s x k]. subof s x k -> k > 0 -> (nth s 0).time = (nth x 0).time
  axiom subof_skip: forall s x k [subof s x k]. subof s x k -> 0 < k < len x -> subof s x (k+1)
  axiom subof_push: forall s s' x k t v [subof s x k, pushed s t v s']. subof s x k -> pushed s t v s' -> 0 <= k < len x -> t = (nth x k).time -> v = (nth x k).value -> subof s' x (k+1)
  axiom subof_last: forall s s' x k t v [subof s x k, pushed s t v s']. subof s x k -> pushed s t v s' -> 0 < k -> k = len x -> t = (nth x (k-1)).time -> v = (nth x (k-1)).value -> subof s' x k
  axiom subof_end: forall s x k [subof s x k]. wf x -> subof s x k -> k > 0 -> endt s <=. (nth x (k-1)).time
  axiom subof_at: forall s x k i [subof s x k, nth s i]. subof s x k -> 0 <= i < len s -> exists j. 0 <= j < k /\ (nth s i).time = (nth x j).time /\ (nth s i).value = (nth x j).value
end
module $SubImpl
  use $SubDef
  clone $SubL with predicate subof = subof, lemma .
end
(* the loop of simplify *)
module SimpDef
  use int.Int
  use real.RealInfix
  use Signals
  use Arith
  use SigR
  use TimesR
  use Values
  (* s agrees with the first k samples of x; behind the end of s they are constant *)
  opaque predicate follows (s x: sseq) (k: int) =
    0 <= k <= len x /\ (len s > 0 <-> k > 0) /\
    (k > 0 -> (nth s 0).time = (nth x 0).time /\ endt s <=. (nth x (k-1)).time) /\
    (k > 0 -> (nth s (len s - 1)).value = (nth x (k-1)).value) /\
    (k > 0 -> endt s <. (nth x (k-1)).time -> (nth x (k-1)).derivative = 0.0) /\
    (forall t. k > 0 -> (nth x 0).time <=. t <=. (nth x (k-1)).time -> value_at s t = value_at x t)
  opaque predicate agrees (s x: sseq) = begt s = begt x /\ endt s = endt x /\ (len s = 0 <-> len x = 0) /\ forall t. indom x t -> value_at s t = value_at x t
  lemma fol_zero: forall s x k. len s = 0 -> k = 0 -> follows s x k
  let lemma fol_skip (s x: sseq) (k: int)
    requires { good s /\ good x /\ follows s x k /\ 0 < k < len x /\ (nth s (len s - 1)).value = (nth x k).value /\ (nth x k).derivative = 0.0 }
    ensures { follows s x (k+1) }
  = let lemma one (t: real) requires { (nth x 0).time <=. t <=. (nth x k).time } ensures { value_at s t = value_at x t }
    = if t >. (nth x (k-1)).time then begin
        val_seg x (k-1) t;
        assert { value_at x t = (nth x k).value };
        assert { endt s <=. t }
      end in
    assert { forall t. (nth x 0).time <=. t <=. (nth x k).time -> value_at s t = value_at x t };
    assert { $UNFOLD(follows, s, x, k+1) }
  let lemma fol_push (s s' x: sseq) (k: int) (t v: real)
    requires { good s /\ good s' /\ good x /\ follows s x k /\ pushed s t v s' /\ 0 <= k < len x /\ t = (nth x k).time /\ v = (nth x k).value }
    ensures { follows s' x (k+1) }
  = if k = 0 then begin
      assert { value_at s' t = v }; assert { value_at x t = v };
      assert { endt s' = t };
      assert { forall u. (nth x 0).time <=. u <=. (nth x k).time -> u = t };
      assert { forall u. (nth x 0).time <=. u <=. (nth x k).time -> value_at s' u = value_at x u }
    end else begin
      assert { cohat x (k-1) };
      assert { (nth x (k-1)).derivative = slope (nth x (k-1)).time (nth x (k-1)).value (nth x k).time (nth x k).value };
      assert { endt s <. (nth x (k-1)).time -> (nth x (k-1)).value = (nth x k).value };
      let lemma one (u: real) requires { (nth x 0).time <=. u <=. (nth x k).time } ensures { value_at s' u = value_at x u }
      = if u <=. (nth s (len s - 1)).time then begin assert { value_at s' u = value_at s u }; assert { value_at s u = value_at x u } end
        else begin
          pb_val2 s s' t v u;
          if (nth s (len s - 1)).time <. (nth x (k-1)).time then begin
            assert { value_at s' u = v };
            if u <=. (nth x (k-1)).time then assert { value_at s u = value_at x u /\ value_at s u = v }
            else begin val_seg x (k-1) u; assert { value_at x u = v } end
          end else val_seg x (k-1) u
        end in
      assert { forall u. (nth x 0).time <=. u <=. (nth x k).time -> value_at s' u = value_at x u }
    end;
    assert { endt s' = t /\ (nth s' (len s' - 1)).value = v };
    assert { $UNFOLD(follows, s', x, k+1) }
  let lemma fol_done (s x: sseq) (k: int)
    requires { good s /\ good x /\ follows s x k /\ k = len x /\ (k > 0 -> endt s = endt x) } ensures { agrees s x }
  = assert { $UNFOLD(agrees, s, x) }
  let lemma fol_last (s s' x: sseq) (k: int) (t v: real)
    requires { good s /\ good s' /\ good x /\ follows s x k /\ pushed s t v s' /\ 0 < k = len x /\ t = (nth x (k-1)).time /\ v = (nth x (k-1)).value }
    ensures { agrees s' x }
  = let lemma one (u: real) requires { indom x u } ensures { value_at s' u = value_at x u }
    = if u <=. (nth s (len s - 1)).time then begin assert { value_at s' u = value_at s u }; assert { value_at s u = value_at x u } end
      else begin pb_val2 s s' t v u; assert { value_at s' u = v }; assert { value_at s u = v }; assert { value_at s u = value_at x u } end in
    assert { forall u. indom x u -> value_at s' u = value_at x u };
    assert { $UNFOLD(agrees, s', x) }
end
module SimpL
  use int.Int
  use real.RealInfix
  use Signals
  use Arith
  use SigR
  use TimesR
  use Values
  predicate follows (s x: sseq) (k: int)
  predicate agrees (s x: sseq)
  axiom agrees_def: forall s x [agrees s x]. agrees s x -> begt s = begt x /\ endt s = endt x /\ (len s = 0 <-> len x = 0) /\ forall t. indom x t -> value_at s t = value_at x t
  axiom fol_zero: forall s x k [follows s x k]. len s = 0 -> k = 0 -> follows s x k
  axiom fol_last_value: forall s x k [follows s x k]. follows s x k -> k > 0 -> (nth s (len s - 1)).value = (nth x (k-1)).value
  axiom fol_end: forall s x k [follows s x k]. follows s x k -> k > 0 -> len s > 0 /\ endt s <=. (nth x (k-1)).time
  axiom fol_empty: forall s x k [follows s x k]. follows s x k -> (len s > 0 <-> k > 0)
  axiom fol_skip: forall s x k [follows s x k]. good s -> good x -> follows s x k -> 0 < k < len x -> (nth s (len s - 1)).value = (nth x k).value -> (nth x k).derivative = 0.0 -> follows s x (k+1)
  axiom fol_push: forall s s' x k t v [follows s x k, pushed s t v s']. good s -> good s' -> good x -> follows s x k -> pushed s t v s' -> 0 <= k < len x -> t = (nth x k).time -> v = (nth x k).value -> follows s' x (k+1)
  axiom fol_done: forall s x k [follows s x k, agrees s x]. good s -> good x -> follows s x k -> k = len x -> (k > 0 -> endt s = endt x) -> agrees s x
  axiom fol_last: forall s s' x k t v [follows s x k, pushed s t v s']. good s -> good s' -> good x -> follows s x k -> pushed s t v s' -> 0 < k -> k = len x -> t = (nth x (k-1)).time -> v = (nth x (k-1)).value -> agrees s' x
end
module SimpImpl
  use SimpDef
  clone SimpL with predicate follows = follows, predicate agrees = agrees, lemma .
end
(* the loop of resize: s begins at a, and is x as far as it goes *)
module ResizeDef
  use int.Int
  use real.RealInfix
  use Signals
  use Arith
  use SigR
  use TimesR
  use Values
  opaque predicate cut (s x: sseq) (a: real) = len s > 0 /\ (nth s 0).time = a /\ forall t. a <=. t <=. endt s -> indom x t -> value_at s t = value_at x t
  let lemma cut_one (s s' x: sseq) (a v: real)
    requires { good s' /\ good x /\ len s = 0 /\ pushed s a v s' /\ (indom x a -> v = value_at x a) } ensures { cut s' x a }
  = assert { len s' = 1 /\ endt s' = a };
    assert { forall t. a <=. t <=. endt s' -> t = a };
    assert { value_at s' a = v };
    assert { $UNFOLD(cut, s', x, a) }
  let ghost push (s s' x: sseq) (a t v: real)
    requires { good s /\ good s' /\ good x /\ cut s x a /\ pushed s t v s' /\ endt s <. t /\ (indom x t -> v = value_at x t) }
    requires { forall u. endt s <. u <. t -> indom x u -> value_at s' u = value_at x u }
    ensures { cut s' x a }
  = assert { len s' = len s + 1 /\ endt s' = t };
    assert { value_at s' t = v };
    assert { forall u. (nth s 0).time <=. u <=. endt s -> value_at s' u = value_at s u };
    assert { forall u. a <=. u <=. endt s' -> indom x u -> value_at s' u = value_at x u };
    assert { $UNFOLD(cut, s', x, a) }
  let lemma cut_in (s s' x: sseq) (a t v: real) (i: int)
    requires { good s /\ good s' /\ good x /\ cut s x a /\ pushed s t v s' /\ endt s <. t }
    requires { 0 <= i < len x - 1 /\ (nth x i).time <=. endt s /\ t <=. (nth x (i+1)).time /\ v = value_at x t }
    ensures { cut s' x a }
  = let ghost e = endt s in
    let lemma one (u: real) requires { e <. u <. t /\ indom x u } ensures { value_at s' u = value_at x u }
    = pb_val2 s s' t v u;
      assert { (nth s (len s - 1)).value = value_at s e };
      assert { indom x e };
      assert { value_at s e = value_at x e };
      val_seg x i e; val_seg x i t; val_seg x i u;
      assert { lin e (value_at x e) t (value_at x t) u = value_at x u } in
    assert { forall u. endt s <. u <. t -> indom x u -> value_at s' u = value_at x u };
    push s s' x a t v
  lemma cut_next: forall s s' x a t v k. good s -> good s' -> good x -> cut s x a -> pushed s t v s' -> endt s <. t ->
    0 < k < len x -> (nth x (k-1)).time <=. endt s -> t = (nth x k).time -> v = (nth x k).value -> (cut s' x a by v = value_at x t so (nth x ((k-1)+1)).time = t)
  lemma cut_until: forall s s' x a t v k. good s -> good s' -> good x -> cut s x a -> pushed s t v s' -> endt s <. t ->
    0 < k < len x -> (nth x (k-1)).time <=. endt s -> t <=. (nth x k).time -> v = interp (nth x (k-1)) t -> (cut s' x a by v = value_at x t so t <=. (nth x ((k-1)+1)).time)
  lemma cut_first: forall s s' x a b v k. good s' -> good x -> len s = 0 -> pushed s b v s' -> b = a -> 0 <= k < len x - 1 -> (nth x k).time <=. a -> a <=. (nth x (k+1)).time -> v = interp (nth x k) a -> (cut s' x a by v = value_at x a)
  let lemma cut_before (s s' x: sseq) (a t v: real)
    requires { good s /\ good s' /\ good x /\ cut s x a /\ pushed s t v s' /\ endt s <. t }
    requires { len x > 0 /\ t <=. (nth x 0).time /\ (t = (nth x 0).time -> v = (nth x 0).value) }
    ensures { cut s' x a }
  = assert { forall u. endt s <. u <. t -> not indom x u };
    push s s' x a t v
  let lemma cut_after (s s' x: sseq) (a t v: real)
    requires { good s /\ good s' /\ good x /\ cut s x a /\ pushed s t v s' /\ endt s <. t }
    requires { len x = 0 \/ endt x <=. endt s }
    ensures { cut s' x a }
  = assert { forall u. endt s <. u <=. t -> not indom x u };
    push s s' x a t v
  (* moved in time *)
  opaque predicate shifted (x: sseq) (dt: real) (r: sseq) =
    len r = len x /\ forall i [nth r i | nth x i]. 0 <= i < len x -> (nth r i).time = (nth x i).time +. dt /\ (nth r i).value = (nth x i).value /\ (nth r i).derivative = (nth x i).derivative
  lemma idx_pos: forall s t. wf s -> len s > 0 -> (nth s 0).time <=. t -> 0 <= idx s t < len s /\ (nth s (idx s t)).time <=. t
  lemma shift_good: forall x dt r. good x -> shifted x dt r -> good r
  let lemma shift_val (x r: sseq) (dt t: real) requires { good x /\ shifted x dt r /\ indom x t } ensures { indom r (t +. dt) /\ value_at r (t +. dt) = value_at x t }
  = let ghost i = pure { idx x t } in
    assert { seg x i t };
    assert { good r };
    assert { seg r i (t +. dt) };
    assert { value_at r (t +. dt) = interp (nth r i) (t +. dt) };
    assert { value_at x t = interp (nth x i) t };
    assert { (t +. dt) -. (nth r i).time = t -. (nth x i).time }
end
module ResizeL
  use int.Int
  use real.RealInfix
  use Signals
  use Arith
  use SigR
  use TimesR
  use Values
  predicate cut (s x: sseq) (a: real)
  axiom cut_at: forall s x a t [cut s x a, value_at s t]. cut s x a -> a <=. t <=. endt s -> indom x t -> value_at s t = value_at x t
  axiom cut_begin: forall s x a [cut s x a]. cut s x a -> len s > 0 /\ (nth s 0).time = a
  axiom cut_one: forall s s' x a b v [pushed s b v s', cut s' x a]. good s' -> good x -> len s = 0 -> pushed s b v s' -> b = a -> (indom x a -> v = value_at x a) -> cut s' x a
  axiom cut_in: forall s s' x a t v i [cut s x a, pushed s t v s', nth x i]. good s -> good s' -> good x -> cut s x a -> pushed s t v s' -> endt s <. t ->
    0 <= i < len x - 1 -> (nth x i).time <=. endt s -> t <=. (nth x (i+1)).time -> v = value_at x t -> cut s' x a
  axiom cut_next: forall s s' x a t v k [cut s x a, pushed s t v s', nth x k]. good s -> good s' -> good x -> cut s x a -> pushed s t v s' -> endt s <. t ->
    0 < k < len x -> (nth x (k-1)).time <=. endt s -> t = (nth x k).time -> v = (nth x k).value -> cut s' x a
  axiom cut_until: forall s s' x a t v k [cut s x a, pushed s t v s', nth x k]. good s -> good s' -> good x -> cut s x a -> pushed s t v s' -> endt s <. t ->
    0 < k < len x -> (nth x (k-1)).time <=. endt s -> t <=. (nth x k).time -> v = interp (nth x (k-1)) t -> cut s' x a
  axiom cut_first: forall s s' x a b v k [pushed s b v s', cut s' x a, nth x k]. good s' -> good x -> len s = 0 -> pushed s b v s' -> b = a -> 0 <= k < len x - 1 -> (nth x k).time <=. a -> a <=. (nth x (k+1)).time -> v = interp (nth x k) a -> cut s' x a
  axiom cut_before: forall s s' x a t v [cut s x a, pushed s t v s']. good s -> good s' -> good x -> cut s x a -> pushed s t v s' -> endt s <. t ->
    len x > 0 -> t <=. (nth x 0).time -> (t = (nth x 0).time -> v = (nth x 0).value) -> cut s' x a
  axiom cut_after: forall s s' x a t v [cut s x a, pushed s t v s']. good s -> good s' -> good x -> cut s x a -> pushed s t v s' -> endt s <. t ->
    (len x = 0 \/ endt x <=. endt s) -> cut s' x a
  predicate shifted (x: sseq) (dt: real) (r: sseq)
  axiom shifted_def: forall x dt r [shifted x dt r]. shifted x dt r <-> len r = len x /\ forall i [nth r i | nth x i]. 0 <= i < len x -> (nth r i).time = (nth x i).time +. dt /\ (nth r i).value = (nth x i).value /\ (nth r i).derivative = (nth x i).derivative
  axiom shift_good: forall x dt r [shifted x dt r]. good x -> shifted x dt r -> good r
  axiom shift_val: forall x r dt t [shifted x dt r, value_at x t]. good x -> shifted x dt r -> indom x t -> indom r (t +. dt) /\ value_at r (t +. dt) = value_at x t
end
module ResizeImpl
  use ResizeDef
  clone ResizeL with predicate cut = cut, predicate shifted = shifted, lemma .
end
