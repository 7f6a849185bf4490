module InvR
  use int.Int
  use Signals
  use Seq_ssseq
  use Map_tmap
  use SigR
  predicate sgood (s: ssseq) = forall i [ssseq_nth s i]. 0 <= i < ssseq_len s -> good (ssseq_nth s i)
  predicate tgood (m: tmap) = forall i [tmap_val m i]. 0 <= i < tmap_len m -> good (tmap_val m i)
end
module InvI
  use int.Int
  use Signals
  use Seq_ssseq
  use Map_tmap
  use SigI
  predicate sgood (s: ssseq) = forall i [ssseq_nth s i]. 0 <= i < ssseq_len s -> good (ssseq_nth s i)
  predicate tgood (m: tmap) = forall i [tmap_val m i]. 0 <= i < tmap_len m -> good (tmap_val m i)
end
(* sampling two signals at the same times *)
module $SyncDef
  use int.Int
  use real.RealInfix
  use Signals
  use $Sig
  use $Times
  opaque predicate hastime (s: sseq) (t: real) = exists k. 0 <= k < len s /\ (nth s k).time = t
  (* r has exactly the sample times of x or y in the range of both *)
  opaque predicate synced (r x y: sseq) =
    (forall t. indom r t <-> (indom x t /\ indom y t)) /\
    (forall k. 0 <= k < len r -> hastime x (nth r k).time \/ hastime y (nth r k).time) /\
    (forall i. 0 <= i < len x -> indom y (nth x i).time -> hastime r (nth x i).time) /\
    (forall i. 0 <= i < len y -> indom x (nth y i).time -> hastime r (nth y i).time)
  (* state of the loop of synchronize; n samples of x are done, m of y *)
  opaque predicate syncing (r x y: sseq) (n m: int) =
    (forall i j. 0 <= i < j < len r -> (nth r i).time <. (nth r j).time) /\
    (forall k [nth r k]. 0 <= k < len r -> indom x (nth r k).time /\ indom y (nth r k).time) /\
    (forall k [nth r k]. 0 <= k < len r -> hastime x (nth r k).time \/ hastime y (nth r k).time) /\
    (forall k [nth r k]. 0 <= k < len r -> n < len x -> (nth r k).time <. (nth x n).time) /\
    (forall k [nth r k]. 0 <= k < len r -> m < len y -> (nth r k).time <. (nth y m).time) /\
    (forall i [nth x i]. 0 <= i < n -> indom y (nth x i).time -> hastime r (nth x i).time) /\
    (forall i [nth y i]. 0 <= i < m -> indom x (nth y i).time -> hastime r (nth y i).time) /\
    (m = 0 -> n < len x -> 0 < len y -> (nth y 0).time <=. (nth x n).time) /\
    (n = 0 -> m < len y -> 0 < len x -> (nth x 0).time <=. (nth y m).time) /\
    (m > 0 -> n < len x -> (nth y (m - 1)).time <. (nth x n).time) /\
    (n > 0 -> m < len y -> (nth x (n - 1)).time <. (nth y m).time)
  let lemma has_snoc (r: sseq) (s: sample) (r': sseq) requires { sseq_snoced r s r' }
    ensures { hastime r' s.time } ensures { forall t [hastime r t]. hastime r t -> hastime r' t } = ()
  lemma has_nth: forall s i [nth s i]. 0 <= i < len s -> hastime s (nth s i).time
  lemma sync_start: forall r x y n m. wf x -> wf y -> len r = 0 -> 0 <= n <= len x -> 0 <= m <= len y ->
    (let b = if begt x <. begt y then begt y else begt x in
     (forall i. 0 <= i < n -> (nth x i).time <. b) -> (forall i. 0 <= i < m -> (nth y i).time <. b) ->
     (n < len x -> b <=. (nth x n).time) -> (m < len y -> b <=. (nth y m).time) -> 0 < len x -> 0 < len y -> syncing r x y n m)
  lemma sync_start0: forall r x y n m. wf x -> wf y -> len r = 0 -> 0 <= n <= len x -> 0 <= m <= len y -> (len x = 0 \/ len y = 0) -> syncing r x y n m
  let lemma sync_both (r: sseq) (s: sample) (r' x y: sseq) (n m: int)
    requires { wf x /\ wf y /\ sseq_snoced r s r' /\ syncing r x y n m /\ 0 <= n < len x /\ 0 <= m < len y /\ (nth x n).time = s.time /\ (nth y m).time = s.time }
    ensures { syncing r' x y (n+1) (m+1) }
  = has_snoc r s r'; assert { hastime r' s.time }; assert { indom x s.time /\ indom y s.time };
    assert { $UNFOLD(syncing, r', x, y, n+1, m+1) }
  let lemma sync_fst (r: sseq) (s: sample) (r' x y: sseq) (n m: int)
    requires { wf x /\ wf y /\ sseq_snoced r s r' /\ syncing r x y n m /\ 0 <= n < len x /\ 0 <= m < len y /\ (nth x n).time = s.time /\ s.time <. (nth y m).time }
    ensures { syncing r' x y (n+1) m }
  = has_snoc r s r'; assert { hastime r' s.time }; assert { indom x s.time /\ indom y s.time };
    assert { $UNFOLD(syncing, r', x, y, n+1, m) }
  let lemma sync_snd (r: sseq) (s: sample) (r' x y: sseq) (n m: int)
    requires { wf x /\ wf y /\ sseq_snoced r s r' /\ syncing r x y n m /\ 0 <= n < len x /\ 0 <= m < len y /\ (nth y m).time = s.time /\ s.time <. (nth x n).time }
    ensures { syncing r' x y n (m+1) }
  = has_snoc r s r'; assert { hastime r' s.time }; assert { indom x s.time /\ indom y s.time };
    assert { $UNFOLD(syncing, r', x, y, n, m+1) }
  let lemma synced_times0 (r s x y: sseq) requires { sametimes r s /\ synced r x y } ensures { synced s x y }
  = assert { len r = len s /\ forall i. 0 <= i < len r -> (nth r i).time = (nth s i).time };
    assert { forall t. hastime r t <-> hastime s t };
    assert { forall t. indom r t <-> indom s t };
    assert { forall k. 0 <= k < len s -> hastime x (nth s k).time \/ hastime y (nth s k).time };
    assert { $UNFOLD(synced, s, x, y) }
  lemma synced_times: forall r s x y. sametimes r s -> synced r x y -> synced s x y
  let lemma sync_done (r r' x y: sseq) (n m: int)
    requires { wf x /\ wf y /\ wf r' /\ syncing r x y n m /\ samepoints r r' }
    requires { 0 <= n <= len x /\ 0 <= m <= len y /\ (n = len x \/ m = len y) }
    ensures { synced r' x y }
  = assert { forall t. hastime r t -> hastime r' t };
    assert { forall i. 0 <= i < len x -> indom y (nth x i).time -> hastime r' (nth x i).time
             by i < n \/ (m = len y /\ (nth y (m - 1)).time <. (nth x n).time <=. (nth x i).time) };
    assert { forall i. 0 <= i < len y -> indom x (nth y i).time -> hastime r' (nth y i).time
             by i < m \/ (n = len x /\ (nth x (n - 1)).time <. (nth y m).time <=. (nth y i).time) };
    assert { forall u. hastime r' u -> indom r' u };
    let ghost a = pure { if (nth x 0).time <=. (nth y 0).time then (nth y 0).time else (nth x 0).time } in
    let ghost b = pure { if (nth x (len x - 1)).time <=. (nth y (len y - 1)).time then (nth x (len x - 1)).time else (nth y (len y - 1)).time } in
    assert { forall t. indom x t -> indom y t -> a <=. t <=. b };
    assert { forall t. indom x t -> indom y t -> indom x a /\ indom y a /\ indom x b /\ indom y b };
    assert { forall t. indom x t -> indom y t -> hastime r' a /\ hastime r' b };
    assert { forall t. indom r' a -> indom r' b -> a <=. t <=. b -> indom r' t };
    assert { forall t. indom x t -> indom y t -> indom r' t };
    assert { forall t. indom r' t -> indom x t /\ indom y t }
end
module $Sync
  use int.Int
  use real.RealInfix
  use Signals
  use $Sig
  use $Times
  predicate hastime (s: sseq) (t: real)
  axiom hastime_def: forall s t [hastime s t]. hastime s t <-> exists k. 0 <= k < len s /\ (nth s k).time = t
  predicate synced (r x y: sseq)
  axiom synced_dom: forall r x y t [synced r x y, indom r t | synced r x y, indom x t | synced r x y, indom y t]. synced r x y -> (indom r t <-> (indom x t /\ indom y t))
  axiom synced_from: forall r x y k [synced r x y, nth r k]. synced r x y -> 0 <= k < len r -> hastime x (nth r k).time \/ hastime y (nth r k).time
  axiom synced_fst: forall r x y i [synced r x y, nth x i]. synced r x y -> 0 <= i < len x -> indom y (nth x i).time -> hastime r (nth x i).time
  axiom synced_snd: forall r x y i [synced r x y, nth y i]. synced r x y -> 0 <= i < len y -> indom x (nth y i).time -> hastime r (nth y i).time
  axiom synced_times: forall r s x y [sametimes r s, synced r x y]. sametimes r s -> synced r x y -> synced s x y
  predicate syncing (r x y: sseq) (n m: int)
  axiom syncing_incr: forall r x y n m. syncing r x y n m -> incr r (len r)
  axiom syncing_prev: forall r x y n m. syncing r x y n m -> 0 <= n < len x -> 0 <= m < len y ->
    (m = 0 -> (nth y 0).time <=. (nth x n).time) /\ (n = 0 -> (nth x 0).time <=. (nth y m).time) /\
    (m > 0 -> (nth y (m - 1)).time <. (nth x n).time) /\ (n > 0 -> (nth x (n - 1)).time <. (nth y m).time)
  axiom sync_start: forall r x y n m [syncing r x y n m]. wf x -> wf y -> len r = 0 -> 0 <= n <= len x -> 0 <= m <= len y ->
    (let b = if begt x <. begt y then begt y else begt x in
     (forall i. 0 <= i < n -> (nth x i).time <. b) -> (forall i. 0 <= i < m -> (nth y i).time <. b) ->
     (n < len x -> b <=. (nth x n).time) -> (m < len y -> b <=. (nth y m).time) -> syncing r x y n m)
  axiom sync_both: forall r s r' x y n m [sseq_snoced r s r', syncing r x y n m]. wf x -> wf y -> sseq_snoced r s r' -> syncing r x y n m ->
     0 <= n < len x -> 0 <= m < len y -> (nth x n).time = s.time -> (nth y m).time = s.time -> syncing r' x y (n+1) (m+1)
  axiom sync_fst: forall r s r' x y n m [sseq_snoced r s r', syncing r x y n m]. wf x -> wf y -> sseq_snoced r s r' -> syncing r x y n m ->
     0 <= n < len x -> 0 <= m < len y -> (nth x n).time = s.time -> s.time <. (nth y m).time -> syncing r' x y (n+1) m
  axiom sync_snd: forall r s r' x y n m [sseq_snoced r s r', syncing r x y n m]. wf x -> wf y -> sseq_snoced r s r' -> syncing r x y n m ->
     0 <= n < len x -> 0 <= m < len y -> (nth y m).time = s.time -> s.time <. (nth x n).time -> syncing r' x y n (m+1)
  axiom sync_done: forall r r' x y n m [syncing r x y n m, samepoints r r']. wf x -> wf y -> wf r' -> syncing r x y n m -> samepoints r r' ->
    0 <= n <= len x -> 0 <= m <= len y -> (n = len x \/ m = len y) -> synced r' x y
end
module $SyncImpl
  use $SyncDef
  clone $Sync with predicate hastime = hastime, predicate synced = synced, predicate syncing = syncing, lemma .
end
module ResampleDef
  use int.Int
  use real.RealInfix
  use Signals
  use Arith
  use SigR
  use TimesR
  use Values
  use SyncR
  (* the samples of r are points of x *)
  opaque predicate points (r x: sseq) = forall k [nth r k]. 0 <= k < len r -> indom x (nth r k).time /\ (nth r k).value = value_at x (nth r k).time
  opaque predicate samevalues (r x: sseq) = forall t [value_at r t]. indom r t -> value_at r t = value_at x t
  lemma points_here: forall r s r' x i. sseq_snoced r s r' -> good x -> points r x ->
    0 <= i < len x -> s.time = (nth x i).time -> s.value = (nth x i).value -> points r' x
  let lemma points_between (r: sseq) (s: sample) (r' x: sseq) (i: int)
    requires { sseq_snoced r s r' /\ good x /\ points r x }
    requires { 0 <= i < len x - 1 /\ (nth x i).time <=. s.time /\ s.time <. (nth x (i+1)).time /\ s.value = interp (nth x i) s.time }
    ensures { points r' x }
  = assert { seg x i s.time }; assert { s.value = value_at x s.time }; assert { indom x s.time }
  let ghost resample (r x: sseq)
    requires { good x /\ good r /\ points r x }
    requires { forall i. 0 <= i < len x -> indom r (nth x i).time -> hastime r (nth x i).time }
    ensures { samevalues r x }
  = let lemma one (t: real)
      requires { indom r t } ensures { value_at r t = value_at x t }
    = let k = pure { idx r t } in
      assert { seg r k t };
      if k = len r - 1 then begin
        assert { t = (nth r k).time };
        assert { value_at r t = (nth r k).value }; assert { value_at x (nth r k).time = (nth r k).value }; assert { value_at r t = value_at x t }
      end else begin
        let a = (nth r k).time in
        let b = (nth r (k + 1)).time in
        let i = pure { idx x a } in
        assert { seg x i a };
        if i = len x - 1 then begin
          assert { t = a };
          assert { value_at r t = (nth r k).value }; assert { value_at x (nth r k).time = (nth r k).value }; assert { value_at r t = value_at x t }
        end else begin
          let c = (nth x (i + 1)).time in
          if c <. b then begin
            assert { (nth r 0).time <=. a };
            assert { b <=. (nth r (len r - 1)).time };
            assert { indom r c };
            assert { hastime r c };
            assert { forall k'. 0 <= k' <= k -> (nth r k').time <=. a };
            assert { forall k'. k < k' < len r -> b <=. (nth r k').time };
            assert { false }
          end;
          val_seg x i a; val_seg x i b; val_seg x i t; val_seg r k t;
          assert { value_at x a = (nth r k).value };
          assert { value_at x b = (nth r (k + 1)).value };
          assert { lin a (value_at x a) b (value_at x b) t = value_at x t };
          assert { value_at r t = lin a (value_at x a) b (value_at x b) t };
          assert { value_at r t = value_at x t }
        end
      end in ()
  let lemma resample_synced1 (r x y: sseq) requires { good x /\ good r /\ points r x /\ synced r x y } ensures { samevalues r x }
  = assert { forall t. indom r t -> indom y t }; resample r x
  let lemma resample_synced2 (r x y: sseq) requires { good x /\ good r /\ points r x /\ synced r y x } ensures { samevalues r x }
  = assert { forall t. indom r t -> indom y t }; resample r x
end
module Resample
  use int.Int
  use real.RealInfix
  use Signals
  use Arith
  use SigR
  use TimesR
  use Values
  use SyncR
  predicate points (r x: sseq)
  predicate samevalues (r x: sseq)
  axiom points_empty: forall r x [points r x]. len r = 0 -> points r x
  axiom points_here: forall r s r' x i [sseq_snoced r s r', points r x, nth x i]. sseq_snoced r s r' -> good x -> points r x ->
    0 <= i < len x -> s.time = (nth x i).time -> s.value = (nth x i).value -> points r' x
  axiom points_between: forall r s r' x i [sseq_snoced r s r', points r x, nth x i]. sseq_snoced r s r' -> good x -> points r x ->
    0 <= i < len x - 1 -> (nth x i).time <=. s.time -> s.time <. (nth x (i+1)).time -> s.value = interp (nth x i) s.time -> points r' x
  axiom points_same: forall r r' x [points r x, samepoints r r']. points r x -> samepoints r r' -> points r' x
  axiom points_at: forall r x k [points r x, nth r k]. points r x -> 0 <= k < len r -> indom x (nth r k).time /\ (nth r k).value = value_at x (nth r k).time
  axiom same_at: forall r x t [samevalues r x, value_at r t]. samevalues r x -> indom r t -> value_at r t = value_at x t
  axiom resample_synced1: forall r x y [points r x, synced r x y]. good x -> good r -> points r x -> synced r x y -> samevalues r x
  axiom resample_synced2: forall r x y [points r x, synced r y x]. good x -> good r -> points r x -> synced r y x -> samevalues r x
end
module ResampleImpl
  use ResampleDef
  clone Resample with predicate points = points, predicate samevalues = samevalues, lemma .
end
