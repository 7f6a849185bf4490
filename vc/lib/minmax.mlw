module @COpt
  use int.Int
  use real.RealInfix
  use Signals
  use SigR
  use TimesR
  use Values
  function @O2 (a b: real) : real = if a @LE b then a else b
  (* s is the minimum/maximum of x and y *)
  opaque predicate @Opair (x y s: sseq) =
    (forall t [indom s t | indom x t, indom y t]. indom s t <-> (indom x t /\ indom y t)) /\
    (forall t [value_at s t]. indom s t -> value_at s t = @O2 (value_at x t) (value_at y t))
end
module @CPairDef
  use int.Int
  use real.RealInfix
  use Signals
  use Arith
  use SigR
  use TimesR
  use Values
  use SyncR
  use Resample
  use @COpt
  (* o is the minimum/maximum of the first n samples of x and y *)
  opaque predicate @Opicking (o x y: sseq) (n: int) =
    0 <= n <= len x /\ n <= len y /\ (n = 0 -> len o = 0) /\
    (n > 0 -> len o > 0 /\ (nth o 0).time = (nth x 0).time /\ (nth o (len o - 1)).time = (nth x (n-1)).time /\
       (nth o (len o - 1)).value = @O2 (nth x (n-1)).value (nth y (n-1)).value /\
       forall t [value_at o t]. (nth x 0).time <=. t <=. (nth x (n-1)).time -> value_at o t = @O2 (value_at x t) (value_at y t))
  lemma pick_none: forall o x y. len o = 0 -> @Opicking o x y 0
  lemma lin_ends: forall t0 v0 t1 v1. t0 <. t1 -> lin t0 v0 t1 v1 t0 = v0 /\ lin t0 v0 t1 v1 t1 = v1
  let lemma pick_first (o x y o': sseq) (t v: real)
    requires { good x /\ good y /\ good o /\ good o' /\ sametimes x y /\ @Opicking o x y 0 /\ pushed o t v o' /\ 0 < len x }
    requires { t = (nth x 0).time /\ v = @O2 (nth x 0).value (nth y 0).value }
    ensures { @Opicking o' x y 1 }
  = assert { value_at o' t = v }; assert { value_at x t = (nth x 0).value }; assert { value_at y t = (nth y 0).value }
  (* the values of a stretch without crossing *)
  let ghost stretch (x y: sseq) (i: int) (a b t: real)
    requires { good x /\ good y /\ sametimes x y /\ 0 <= i < len x - 1 }
    requires { (nth x i).time <=. a <. b /\ b <=. (nth x (i+1)).time /\ a <=. t <=. b }
    requires { (value_at x a @LE value_at y a /\ value_at x b @LE value_at y b) \/ (value_at y a @LE value_at x a /\ value_at y b @LE value_at x b) }
    ensures { lin a (@O2 (value_at x a) (value_at y a)) b (@O2 (value_at x b) (value_at y b)) t = @O2 (value_at x t) (value_at y t) }
  = assert { (nth y i).time = (nth x i).time /\ (nth y (i+1)).time = (nth x (i+1)).time };
    val_seg x i a; val_seg x i b; val_seg x i t; val_seg y i a; val_seg y i b; val_seg y i t;
    assert { lin a (value_at x a) b (value_at x b) t = value_at x t };
    assert { lin a (value_at y a) b (value_at y b) t = value_at y t };
    if pure { value_at x a @LE value_at y a /\ value_at x b @LE value_at y b } then begin
      assert { value_at x t @LE value_at y t };
      assert { @O2 (value_at x a) (value_at y a) = value_at x a };
      assert { @O2 (value_at x b) (value_at y b) = value_at x b };
      assert { @O2 (value_at x t) (value_at y t) = value_at x t }
    end else begin
      assert { value_at y t @LE value_at x t };
      assert { @O2 (value_at x a) (value_at y a) = value_at y a };
      assert { @O2 (value_at x b) (value_at y b) = value_at y b };
      assert { @O2 (value_at x t) (value_at y t) = value_at y t }
    end
  (* o has the right values up to a; a sample at b is added *)
  let ghost extend (o o' x y: sseq) (i: int) (a b v: real)
    requires { good x /\ good y /\ good o /\ good o' /\ sametimes x y /\ 0 <= i < len x - 1 /\ len o > 0 }
    requires { (nth x i).time <=. a <. b /\ b <=. (nth x (i+1)).time }
    requires { (value_at x a @LE value_at y a /\ value_at x b @LE value_at y b) \/ (value_at y a @LE value_at x a /\ value_at y b @LE value_at x b) }
    requires { (nth o 0).time = (nth x 0).time /\ (nth o (len o - 1)).time = a /\ (nth o (len o - 1)).value = @O2 (value_at x a) (value_at y a) }
    requires { forall t. (nth x 0).time <=. t <=. a -> value_at o t = @O2 (value_at x t) (value_at y t) }
    requires { pushed o b v o' /\ v = @O2 (value_at x b) (value_at y b) }
    ensures { forall t. (nth x 0).time <=. t <=. b -> value_at o' t = @O2 (value_at x t) (value_at y t) }
  = assert { forall t. (nth x 0).time <=. t <=. a -> value_at o' t = value_at o t };
    let lemma one (t: real) requires { a <=. t <=. b } ensures { value_at o' t = @O2 (value_at x t) (value_at y t) }
    = stretch x y i a b t;
      pb_val2 o o' b v t in
    assert { forall t. a <=. t <=. b -> value_at o' t = @O2 (value_at x t) (value_at y t) }
  let lemma pick_straight (o x y o': sseq) (n: int) (t v: real)
    requires { good x /\ good y /\ good o /\ good o' /\ sametimes x y /\ @Opicking o x y n /\ pushed o t v o' /\ 0 < n < len x }
    requires { t = (nth x n).time /\ v = @O2 (nth x n).value (nth y n).value }
    requires { ((nth x (n-1)).value @LE (nth y (n-1)).value /\ (nth x n).value @LE (nth y n).value) \/
               ((nth y (n-1)).value @LE (nth x (n-1)).value /\ (nth y n).value @LE (nth x n).value) }
    ensures { @Opicking o' x y (n+1) }
  = let ghost a = (nth x (n-1)).time in
    assert { value_at x a = (nth x (n-1)).value }; assert { value_at y (nth y (n-1)).time = (nth y (n-1)).value };
    assert { value_at x t = (nth x n).value }; assert { value_at y (nth y n).time = (nth y n).value };
    assert { (nth y (n-1)).time = a /\ (nth y n).time = t /\ a <. t };
    assert { value_at y a = (nth y (n-1)).value /\ value_at y t = (nth y n).value };
    assert { (nth o (len o - 1)).time = a /\ (nth o (len o - 1)).value = @O2 (value_at x a) (value_at y a) /\ (nth o 0).time = (nth x 0).time };
    assert { forall t. (nth x 0).time <=. t <=. a -> value_at o t = @O2 (value_at x t) (value_at y t) };
    assert { v = @O2 (value_at x t) (value_at y t) };
    extend o o' x y (n-1) a t v;
    assert { len o' = len o + 1 /\ (nth o' 0).time = (nth o 0).time /\ (nth o' (len o)).time = t /\ (nth o' (len o)).value = v };
    assert { $UNFOLD(@Opicking, o', x, y, n+1) }
  opaque predicate @Ocrossing (o x y o1 o2: sseq) (n: int) (c w t v: real) =
    good x /\ good y /\ good o /\ good o1 /\ good o2 /\ sametimes x y /\ @Opicking o x y n /\ pushed o c w o1 /\ pushed o1 t v o2 /\ 0 < n < len x
    /\ t = (nth x n).time /\ v = @O2 (nth x n).value (nth y n).value
    /\ (nth x (n-1)).time <. c <. (nth x n).time
    /\ w = interp (nth x (n-1)) c /\ w = interp (nth y (n-1)) c
  let lemma pick_cross0 (o x y o1 o2: sseq) (n: int) (c w t v: real)
    requires { @Ocrossing o x y o1 o2 n c w t v }
    ensures { @Opicking o2 x y (n+1) }
  = let ghost a = (nth x (n-1)).time in
    assert { value_at x a = (nth x (n-1)).value }; assert { value_at y (nth y (n-1)).time = (nth y (n-1)).value };
    assert { value_at x t = (nth x n).value }; assert { value_at y (nth y n).time = (nth y n).value };
    assert { (nth y (n-1)).time = a /\ (nth y n).time = t /\ a <. t };
    assert { value_at y a = (nth y (n-1)).value /\ value_at y t = (nth y n).value };
    assert { (nth o (len o - 1)).time = a /\ (nth o (len o - 1)).value = @O2 (value_at x a) (value_at y a) /\ (nth o 0).time = (nth x 0).time };
    assert { forall t. (nth x 0).time <=. t <=. a -> value_at o t = @O2 (value_at x t) (value_at y t) };
    assert { v = @O2 (value_at x t) (value_at y t) };
    assert { seg x (n-1) c }; assert { seg y (n-1) c };
    assert { value_at x c = w /\ value_at y c = w };
    assert { @O2 w w = w };
    extend o o1 x y (n-1) a c w;
    assert { len o1 = len o + 1 /\ (nth o1 0).time = (nth o 0).time /\ (nth o1 (len o)).time = c /\ (nth o1 (len o)).value = w };
    extend o1 o2 x y (n-1) c t v;
    assert { len o2 = len o1 + 1 /\ (nth o2 0).time = (nth o1 0).time /\ (nth o2 (len o1)).time = t /\ (nth o2 (len o1)).value = v };
    assert { $UNFOLD(@Opicking, o2, x, y, n+1) }
  lemma pick_cross: forall o x y o1 o2 n c w t v [@Opicking o x y n, pushed o c w o1, pushed o1 t v o2].
    good x -> good y -> good o -> good o1 -> good o2 -> sametimes x y -> @Opicking o x y n -> pushed o c w o1 -> pushed o1 t v o2 -> 0 < n < len x ->
    t = (nth x n).time -> v = @O2 (nth x n).value (nth y n).value -> 
    (nth x (n-1)).time <. c -> c <. (nth x n).time -> w = interp (nth x (n-1)) c -> w = interp (nth y (n-1)) c -> (@Opicking o2 x y (n+1) by @Ocrossing o x y o1 o2 n c w t v)
  (* the point at which two crossing lines meet *)
  let lemma meet (x y: sseq) (n: int) (s0 v0 t0 s1 v1 t1: real)
    requires { good x /\ good y /\ sametimes x y /\ 0 < n < len x }
    requires { ((nth x (n-1)).value @LE (nth y (n-1)).value /\ (nth y n).value @LE (nth x n).value) \/
               ((nth y (n-1)).value @LE (nth x (n-1)).value /\ (nth x n).value @LE (nth y n).value) }
    requires { (nth x (n-1)).value <> (nth y (n-1)).value \/ (nth x n).value <> (nth y n).value }
    requires { (s0 = (nth x (n-1)).derivative /\ v0 = (nth x (n-1)).value /\ t0 = (nth x (n-1)).time /\ s1 = (nth y (n-1)).derivative /\ v1 = (nth y (n-1)).value /\ t1 = (nth y (n-1)).time) \/
               (s0 = (nth y (n-1)).derivative /\ v0 = (nth y (n-1)).value /\ t0 = (nth y (n-1)).time /\ s1 = (nth x (n-1)).derivative /\ v1 = (nth x (n-1)).value /\ t1 = (nth x (n-1)).time) }
    ensures { let c = isect s0 v0 t0 s1 v1 t1 in s0 <> s1 /\ (nth x (n-1)).time <=. c <=. (nth x n).time /\ interp (nth x (n-1)) c = interp (nth y (n-1)) c /\
       (c <> (nth x n).time \/ (nth x n).value = (nth y n).value) /\ (c <> (nth x (n-1)).time \/ (nth x (n-1)).value = (nth y (n-1)).value) }
  = assert { coh x /\ coh y };
    let ghost c = isect s0 v0 t0 s1 v1 t1 in
    let ghost xp = nth x (n-1) in let ghost yp = nth y (n-1) in let ghost xn = nth x n in let ghost yn = nth y n in
    assert { cohat x (n-1) /\ cohat y (n-1) };
    assert { xp.time = yp.time /\ xn.time = yn.time /\ xp.time <. xn.time };
    assert { xp.derivative = slope xp.time xp.value xn.time xn.value };
    assert { yp.derivative = slope yp.time yp.value yn.time yn.value };
    assert { s0 <> s1 };
    assert { lin xp.time xp.value xn.time xn.value c = lin yp.time yp.value yn.time yn.value c };
    assert { interp xp c = lin xp.time xp.value xn.time xn.value c };
    assert { interp yp c = lin yp.time yp.value yn.time yn.value c };
    assert { c = xn.time -> xn.value = yn.value };
    assert { c = xp.time -> xp.value = yp.value }
  lemma pick_meet: forall o x y n s0 v0 t0 s1 v1 t1 [@Opicking o x y n, isect s0 v0 t0 s1 v1 t1]. good x -> good y -> sametimes x y -> @Opicking o x y n -> 0 < n < len x ->
    (((nth x (n-1)).value @LE (nth y (n-1)).value /\ (nth y n).value @LE (nth x n).value) \/
               ((nth y (n-1)).value @LE (nth x (n-1)).value /\ (nth x n).value @LE (nth y n).value)) ->
    ((nth x (n-1)).value <> (nth y (n-1)).value \/ (nth x n).value <> (nth y n).value) ->
    ((s0 = (nth x (n-1)).derivative /\ v0 = (nth x (n-1)).value /\ t0 = (nth x (n-1)).time /\ s1 = (nth y (n-1)).derivative /\ v1 = (nth y (n-1)).value /\ t1 = (nth y (n-1)).time) \/
               (s0 = (nth y (n-1)).derivative /\ v0 = (nth y (n-1)).value /\ t0 = (nth y (n-1)).time /\ s1 = (nth x (n-1)).derivative /\ v1 = (nth x (n-1)).value /\ t1 = (nth x (n-1)).time)) ->
    let c = isect s0 v0 t0 s1 v1 t1 in s0 <> s1 /\ (nth x (n-1)).time <=. c <=. (nth x n).time /\ interp (nth x (n-1)) c = interp (nth y (n-1)) c /\
       (c <> (nth x n).time \/ (nth x n).value = (nth y n).value) /\ (c <> (nth x (n-1)).time \/ (nth x (n-1)).value = (nth y (n-1)).value)
  lemma pick_slopes: forall o x y n [@Opicking o x y n]. good x -> good y -> sametimes x y -> @Opicking o x y n -> 0 < n < len x ->
    (((nth x (n-1)).value @LE (nth y (n-1)).value /\ (nth y n).value @LE (nth x n).value) \/
               ((nth y (n-1)).value @LE (nth x (n-1)).value /\ (nth x n).value @LE (nth y n).value)) ->
    ((nth x (n-1)).value <> (nth y (n-1)).value \/ (nth x n).value <> (nth y n).value) ->
    (nth x (n-1)).derivative <> (nth y (n-1)).derivative
  let lemma pick_done1 (s x y: sseq) requires { good s /\ good x /\ good y /\ sametimes x y /\ @Opicking s x y (len x) } ensures { @Opair x y s }
  = assert { forall t. indom x t <-> indom y t };
    if len x > 0 then begin
      assert { len s > 0 /\ (nth s 0).time = (nth x 0).time /\ (nth s (len s - 1)).time = (nth x (len x-1)).time };
      assert { forall t. indom s t <-> indom x t };
      assert { forall t. indom s t -> value_at s t = @O2 (value_at x t) (value_at y t) }
    end else begin
      assert { len s = 0 };
      assert { forall t. not (indom s t) }; assert { forall t. not (indom x t) }
    end
  let lemma pair_sync (s x y p q: sseq)
    requires { good s /\ good x /\ good y /\ @Opair x y s /\ samevalues x p /\ samevalues y q /\ synced x p q /\ synced y p q } ensures { @Opair p q s }
  = assert { forall t. indom s t <-> indom x t /\ indom y t };
    assert { forall t. indom x t <-> indom p t /\ indom q t };
    assert { forall t. indom y t <-> indom p t /\ indom q t };
    assert { forall t. indom s t <-> indom p t /\ indom q t };
    assert { forall t. indom s t -> value_at x t = value_at p t /\ value_at y t = value_at q t };
    assert { forall t. indom s t -> value_at s t = @O2 (value_at p t) (value_at q t) }
end
module @CPairL
  use int.Int
  use real.RealInfix
  use Signals
  use Arith
  use SigR
  use TimesR
  use Values
  use SyncR
  use Resample
  use @COpt
  predicate @Opicking (o x y: sseq) (n: int)
  axiom pick_none: forall o x y n [@Opicking o x y n]. n = 0 -> len o = 0 -> @Opicking o x y n
  axiom pick_state: forall o x y n [@Opicking o x y n]. @Opicking o x y n -> 0 <= n <= len x /\ (n > 0 -> len o > 0 /\ (nth o (len o - 1)).time = (nth x (n-1)).time)
  axiom pick_first: forall o x y o' n t v [@Opicking o x y n, pushed o t v o']. n = 0 -> good x -> good y -> good o -> good o' -> sametimes x y -> @Opicking o x y n -> pushed o t v o' -> 0 < len x ->
    t = (nth x 0).time -> v = @O2 (nth x 0).value (nth y 0).value -> @Opicking o' x y (n+1)
  axiom pick_straight: forall o x y o' n t v [@Opicking o x y n, pushed o t v o']. good x -> good y -> good o -> good o' -> sametimes x y -> @Opicking o x y n -> pushed o t v o' -> 0 < n < len x ->
    t = (nth x n).time -> v = @O2 (nth x n).value (nth y n).value ->
    (((nth x (n-1)).value @LE (nth y (n-1)).value /\ (nth x n).value @LE (nth y n).value) \/
               ((nth y (n-1)).value @LE (nth x (n-1)).value /\ (nth y n).value @LE (nth x n).value)) ->
    @Opicking o' x y (n+1)
  axiom pick_cross: forall o x y o1 o2 n c w t v [@Opicking o x y n, pushed o c w o1, pushed o1 t v o2].
    good x -> good y -> good o -> good o1 -> good o2 -> sametimes x y -> @Opicking o x y n -> pushed o c w o1 -> pushed o1 t v o2 -> 0 < n < len x ->
    t = (nth x n).time -> v = @O2 (nth x n).value (nth y n).value -> 
    (nth x (n-1)).time <. c -> c <. (nth x n).time -> w = interp (nth x (n-1)) c -> w = interp (nth y (n-1)) c -> @Opicking o2 x y (n+1)
  axiom pick_meet: forall o x y n s0 v0 t0 s1 v1 t1 [@Opicking o x y n, isect s0 v0 t0 s1 v1 t1]. good x -> good y -> sametimes x y -> @Opicking o x y n -> 0 < n < len x ->
    (((nth x (n-1)).value @LE (nth y (n-1)).value /\ (nth y n).value @LE (nth x n).value) \/
               ((nth y (n-1)).value @LE (nth x (n-1)).value /\ (nth x n).value @LE (nth y n).value)) ->
    ((nth x (n-1)).value <> (nth y (n-1)).value \/ (nth x n).value <> (nth y n).value) ->
    ((s0 = (nth x (n-1)).derivative /\ v0 = (nth x (n-1)).value /\ t0 = (nth x (n-1)).time /\ s1 = (nth y (n-1)).derivative /\ v1 = (nth y (n-1)).value /\ t1 = (nth y (n-1)).time) \/
               (s0 = (nth y (n-1)).derivative /\ v0 = (nth y (n-1)).value /\ t0 = (nth y (n-1)).time /\ s1 = (nth x (n-1)).derivative /\ v1 = (nth x (n-1)).value /\ t1 = (nth x (n-1)).time)) ->
    let c = isect s0 v0 t0 s1 v1 t1 in s0 <> s1 /\ (nth x (n-1)).time <=. c <=. (nth x n).time /\ interp (nth x (n-1)) c = interp (nth y (n-1)) c /\
       (c <> (nth x n).time \/ (nth x n).value = (nth y n).value) /\ (c <> (nth x (n-1)).time \/ (nth x (n-1)).value = (nth y (n-1)).value)
  axiom pick_slopes: forall o x y n [@Opicking o x y n]. good x -> good y -> sametimes x y -> @Opicking o x y n -> 0 < n < len x ->
    (((nth x (n-1)).value @LE (nth y (n-1)).value /\ (nth y n).value @LE (nth x n).value) \/
               ((nth y (n-1)).value @LE (nth x (n-1)).value /\ (nth x n).value @LE (nth y n).value)) ->
    ((nth x (n-1)).value <> (nth y (n-1)).value \/ (nth x n).value <> (nth y n).value) ->
    (nth x (n-1)).derivative <> (nth y (n-1)).derivative
  axiom pick_done: forall s x y n [@Opicking s x y n]. good s -> good x -> good y -> sametimes x y -> @Opicking s x y n -> n = len x -> @Opair x y s
  axiom pair_sync: forall s x y p q [@Opair x y s, samevalues x p, samevalues y q]. good s -> good x -> good y -> @Opair x y s -> samevalues x p -> samevalues y q -> synced x p q -> synced y p q -> @Opair p q s
end
module @CPairImpl
  use SigR
  use @CPairDef
  clone @CPairL with predicate @Opicking = @Opicking, lemma .
end

(* n-ary minimum/maximum *)
module @CNaryDef
  use int.Int
  use real.RealInfix
  use Signals
  use Seq_ssseq
  use SigR
  use TimesR
  use Values
  use InvR
  use @COpt
  (* s is the minimum/maximum of the first n signals *)
  opaque predicate @Onary (xs: ssseq) (n: int) (s: sseq) =
    1 <= n <= ssseq_len xs /\
    (forall t. indom s t <-> (forall i [ssseq_nth xs i]. 0 <= i < n -> indom (ssseq_nth xs i) t)) /\
    (forall t. indom s t -> (forall i [ssseq_nth xs i]. 0 <= i < n -> value_at s t @LE value_at (ssseq_nth xs i) t) /\
       (exists i. 0 <= i < n /\ value_at s t = value_at (ssseq_nth xs i) t))
  lemma nary_one: forall xs n s. n = 1 -> 1 <= ssseq_len xs -> s = ssseq_nth xs 0 -> @Onary xs n s
  let lemma nary_step0 (xs: ssseq) (n: int) (s s' y: sseq)
    requires { @Onary xs n s /\ n < ssseq_len xs /\ y = ssseq_nth xs n /\ @Opair s y s' }
    ensures { @Onary xs (n+1) s' }
  = assert { forall t. (forall i. 0 <= i < n + 1 -> indom (ssseq_nth xs i) t) -> indom s t /\ indom y t };
    assert { forall t. indom s t /\ indom y t -> (forall i. 0 <= i < n + 1 -> indom (ssseq_nth xs i) t) };
    assert { forall t. indom s' t -> indom s t /\ indom y t /\ value_at s' t = @O2 (value_at s t) (value_at y t) };
    assert { forall t. indom s' t -> value_at s' t @LE value_at s t /\ value_at s' t @LE value_at y t };
    assert { forall t. indom s' t -> forall i. 0 <= i < n + 1 -> (value_at s' t @LE value_at (ssseq_nth xs i) t by i = n \/ value_at s t @LE value_at (ssseq_nth xs i) t) };
    assert { forall t. indom s' t -> (exists i. 0 <= i < n + 1 /\ value_at s' t = value_at (ssseq_nth xs i) t)
       by (if value_at s t @LE value_at y t then (exists i. 0 <= i < n /\ value_at s t = value_at (ssseq_nth xs i) t) else value_at s' t = value_at (ssseq_nth xs n) t) };
    assert { $UNFOLD(@Onary, xs, n+1, s') }
  lemma nary_step: forall xs n s s' y. @Onary xs n s -> n < ssseq_len xs -> y = ssseq_nth xs n -> @Opair s y s' -> @Onary xs (n+1) s'
  lemma nary_pair: forall xs x y n s. @Opair x y s -> n = 2 -> 2 <= ssseq_len xs -> x = ssseq_nth xs 0 -> y = ssseq_nth xs 1 -> (@Onary xs n s by @Onary xs 1 x)
  lemma nary_state: forall xs n s. @Onary xs n s -> 1 <= n <= ssseq_len xs
end
module @CNaryL
  use int.Int
  use real.RealInfix
  use Signals
  use Seq_ssseq
  use SigR
  use TimesR
  use Values
  use InvR
  use @COpt
  predicate @Onary (xs: ssseq) (n: int) (s: sseq)
  axiom nary_one: forall xs n s [@Onary xs n s]. n = 1 -> 1 <= ssseq_len xs -> s = ssseq_nth xs 0 -> @Onary xs n s
  axiom nary_step: forall xs n s s' y [@Onary xs n s, @Opair s y s']. @Onary xs n s -> n < ssseq_len xs -> y = ssseq_nth xs n -> @Opair s y s' -> @Onary xs (n+1) s'
  axiom nary_pair: forall xs x y n s [@Opair x y s, @Onary xs n s]. @Opair x y s -> n = 2 -> 2 <= ssseq_len xs -> x = ssseq_nth xs 0 -> y = ssseq_nth xs 1 -> @Onary xs n s
  axiom nary_state: forall xs n s [@Onary xs n s]. @Onary xs n s -> 1 <= n <= ssseq_len xs
end
module @CNaryImpl
  use SigR
  use @CNaryDef
  clone @CNaryL with predicate @Onary = @Onary, lemma .
end
(* the minimum/maximum of a signal from a sample or over a window *)
module @CSeqDef
  use int.Int
  use real.RealInfix
  use Signals
  use Arith
  use SigR
  use TimesR
  use Values
  use @COpt
  opaque predicate @Otailat (x: sseq) (i: int) (v: real) =
    0 <= i < len x /\ (forall j [nth x j]. i <= j < len x -> v @LE (nth x j).value) /\ (exists j. i <= j < len x /\ v = (nth x j).value)
  opaque predicate @Owin (x: sseq) (lo hi v: real) =
    (forall t [value_at x t]. lo <=. t <=. hi -> v @LE value_at x t) /\ (exists t. lo <=. t <=. hi /\ v = value_at x t)
  opaque predicate @Otail (x s: sseq) =
    sametimes x s /\ forall i [nth s i | nth x i]. 0 <= i < len s -> @Owin x (nth s i).time (endt x) (nth s i).value
  opaque predicate @Owinrel (a b: real) (x s: sseq) =
    sametimes x s /\ forall i [nth s i | nth x i]. 0 <= i < len s -> @Owin x ((nth s i).time +. a) ((nth s i).time +. b) (nth s i).value
  lemma tailat_last: forall x i v. 0 < len x -> i = len x - 1 -> v = (nth x i).value -> @Otailat x i v
  lemma tailat_state: forall x i v. @Otailat x i v -> 0 <= i < len x
  let lemma tailat_step0 (x: sseq) (i: int) (v v': real)
    requires { @Otailat x i v /\ i > 0 /\ v' = @O2 (nth x (i-1)).value v }
    ensures { @Otailat x (i-1) v' }
  = assert { forall j. i - 1 <= j < len x -> (v' @LE (nth x j).value by v' @LE v) };
    if pure { (nth x (i-1)).value @LE v } then assert { v' = (nth x (i-1)).value } else assert { v' = v };
    assert { exists j. i - 1 <= j < len x /\ v' = (nth x j).value }
  lemma tailat_step: forall x i k v v'. @Otailat x i v -> 0 <= k -> k + 1 = i -> v' = @O2 (nth x k).value v -> (@Otailat x k v' by k = i - 1)
  (* between samples *)
  let ghost between (x: sseq) (i: int) (v t: real)
    requires { good x /\ @Otailat x i v /\ (nth x i).time <=. t <=. (nth x (len x - 1)).time }
    ensures { v @LE value_at x t }
  = let ghost k = pure { idx x t } in
    assert { seg x k t };
    assert { i <= k by (k < i -> (nth x (k+1)).time <=. (nth x i).time) };
    if k = len x - 1 then begin assert { t = (nth x k).time }; assert { value_at x t = (nth x k).value } end
    else begin
      val_seg x k t;
      assert { v @LE (nth x k).value /\ v @LE (nth x (k+1)).value };
      assert { (nth x k).time <. (nth x (k+1)).time };
      assert { (nth x k).value <=. value_at x t \/ (nth x (k+1)).value <=. value_at x t };
      assert { value_at x t <=. (nth x k).value \/ value_at x t <=. (nth x (k+1)).value }
    end
  let lemma tail_done0 (x s: sseq)
    requires { good x /\ sametimes x s /\ forall i. 0 <= i < len s -> @Otailat x i (nth s i).value }
    ensures { @Otail x s }
  = let lemma one (i: int) requires { 0 <= i < len s } ensures { @Owin x (nth s i).time (endt x) (nth s i).value }
    = assert { (nth s i).time = (nth x i).time };
      assert { @Otailat x i (nth s i).value };
      let lemma lb (t: real) requires { (nth x i).time <=. t <=. endt x } ensures { (nth s i).value @LE value_at x t }
      = between x i (nth s i).value t in
      assert { forall t. (nth x i).time <=. t <=. endt x -> (nth s i).value @LE value_at x t };
      assert { exists j. i <= j < len x /\ (nth s i).value = (nth x j).value };
      assert { forall j. i <= j < len x -> (nth x i).time <=. (nth x j).time <=. endt x /\ value_at x (nth x j).time = (nth x j).value };
      assert { exists t. (nth x i).time <=. t <=. endt x /\ (nth s i).value = value_at x t };
      let ghost l0 = pure { (nth x i).time } in let ghost h0 = pure { endt x } in let ghost v0 = pure { (nth s i).value } in
      assert { $UNFOLD(@Owin, x, l0, h0, v0) }
    in assert { $UNFOLD(@Otail, x, s) }
  opaque predicate @Owinning (x: sseq) (lo hi: real) (st i: int) (v: real) =
    st <= i <= len x /\ (forall j [nth x j]. st <= j < i -> v @LE (nth x j).value) /\ v @LE value_at x lo /\ lo <=. hi /\ (exists t. lo <=. t <=. hi /\ v = value_at x t)
  lemma winning_start: forall x lo hi st v. lo <=. hi -> v = value_at x lo -> 0 <= st <= len x -> @Owinning x lo hi st st v
  let lemma winning_step0 (x: sseq) (lo hi: real) (st i: int) (v v': real)
    requires { good x /\ @Owinning x lo hi st i v /\ 0 <= i < len x /\ lo <=. (nth x i).time <=. hi /\ v' = @O2 (nth x i).value v }
    ensures { @Owinning x lo hi st (i+1) v' }
  = assert { v' @LE v };
    assert { forall j. st <= j < i + 1 -> v' @LE (nth x j).value };
    if pure { (nth x i).value @LE v } then assert { v' = value_at x (nth x i).time } else assert { v' = v };
    assert { exists t. lo <=. t <=. hi /\ v' = value_at x t }
  lemma winning_step: forall x lo hi st i v v'. good x -> @Owinning x lo hi st i v -> 0 <= i < len x -> lo <=. (nth x i).time -> (nth x i).time <=. hi ->
    v' = @O2 (nth x i).value v -> @Owinning x lo hi st (i+1) v'
  let lemma winning_done0 (x: sseq) (lo hi: real) (st e: int) (v v': real)
    requires { good x /\ len x > 0 /\ @Owinning x lo hi st e v /\ 0 <= st <= len x /\ begt x <=. lo /\ hi <=. endt x }
    requires { forall i. 0 <= i < st -> (nth x i).time <. lo }
    requires { forall i. e <= i < len x -> (nth x i).time >. hi }
    requires { v' = @O2 (value_at x hi) v }
    ensures { @Owin x lo hi v' }
  = let lemma lb (t: real) requires { lo <=. t <=. hi } ensures { v' @LE value_at x t }
    = let ghost k = pure { idx x t } in
      assert { seg x k t };
      if k = len x - 1 then begin assert { t = (nth x k).time }; assert { value_at x t = (nth x k).value }; assert { st <= k < e } end
      else begin
        let ghost a = pure { if lo <=. (nth x k).time then (nth x k).time else lo } in
        let ghost b = pure { if (nth x (k+1)).time <=. hi then (nth x (k+1)).time else hi } in
        assert { (nth x k).time <=. a <=. t <=. b <=. (nth x (k+1)).time };
        assert { v' @LE v };
        assert { v' @LE value_at x a by if lo <=. (nth x k).time then st <= k < e /\ v' @LE (nth x k).value else a = lo };
        assert { v' @LE value_at x b by if (nth x (k+1)).time <=. hi then st <= k+1 < e /\ v' @LE (nth x (k+1)).value else b = hi };
        if a <. b then begin
          val_seg x k t; val_seg x k a; val_seg x k b;
          assert { lin a (value_at x a) b (value_at x b) t = value_at x t };
          assert { value_at x a <=. value_at x t \/ value_at x b <=. value_at x t };
          assert { value_at x t <=. value_at x a \/ value_at x t <=. value_at x b }
        end else assert { t = a }
      end in
    assert { forall t. lo <=. t <=. hi -> v' @LE value_at x t };
    assert { exists t. lo <=. t <=. hi /\ v' = value_at x t };
    assert { $UNFOLD(@Owin, x, lo, hi, v') }
  lemma winning_done: forall x lo hi st e v v'. good x -> len x > 0 -> @Owinning x lo hi st e v -> 0 <= st <= len x -> begt x <=. lo -> hi <=. endt x ->
    (forall i. 0 <= i < st -> (nth x i).time <. lo) -> (forall i. e <= i < len x -> (nth x i).time >. hi) -> v' = @O2 (value_at x hi) v -> @Owin x lo hi v'
  let lemma win_clamp0 (x: sseq) (lo hi l h v: real)
    requires { good x /\ len x > 0 /\ begt x <=. lo <=. hi /\ l = (if endt x <. lo then endt x else lo) /\ h = (if endt x <. hi then endt x else hi) }
    requires { @Owin x l h v }
    ensures { @Owin x lo hi v }
  = assert { forall t. endt x <=. t -> value_at x t = (nth x (len x - 1)).value };
    assert { forall t. lo <=. t <=. hi -> (v @LE value_at x t by (endt x <=. t /\ value_at x t = value_at x (endt x) /\ l <=. endt x <=. h) \/ l <=. t <=. h) };
    assert { forall t. l <=. t <=. h -> lo <=. t <=. hi \/ (endt x = t /\ value_at x t = value_at x lo) };
    assert { exists t. lo <=. t <=. hi /\ v = value_at x t };
    assert { $UNFOLD(@Owin, x, lo, hi, v) }
  lemma win_clamp: forall x lo hi l h v. good x -> len x > 0 -> begt x <=. lo -> lo <=. hi -> l = (if endt x <. lo then endt x else lo) -> h = (if endt x <. hi then endt x else hi) ->
    @Owin x l h v -> @Owin x lo hi v
  let lemma tail_win0 (x s: sseq) (a b: real)
    requires { good x /\ @Otail x s /\ a = 0.0 /\ endt x -. begt x <=. b }
    ensures { @Owinrel a b x s }
  = let lemma one (i: int) requires { 0 <= i < len s } ensures { @Owin x ((nth s i).time +. a) ((nth s i).time +. b) (nth s i).value }
    = assert { (nth s i).time = (nth x i).time };
      let ghost t0 = pure { (nth s i).time } in let ghost v = pure { (nth s i).value } in
      assert { @Owin x t0 (endt x) v };
      assert { begt x <=. t0 <=. endt x };
      assert { forall t. endt x <=. t -> value_at x t = (nth x (len x - 1)).value };
      assert { t0 +. a = t0 /\ endt x <=. t0 +. b };
      assert { forall t. t0 <=. t <=. t0 +. b -> (v @LE value_at x t by t <=. endt x \/ value_at x t = value_at x (endt x)) };
      assert { exists t. t0 <=. t <=. t0 +. b /\ v = value_at x t };
      let ghost l0 = pure { t0 +. a } in let ghost h0 = pure { t0 +. b } in
      assert { $UNFOLD(@Owin, x, l0, h0, v) }
    in assert { $UNFOLD(@Owinrel, a, b, x, s) }
  lemma tail_win: forall x s a b. good x -> @Otail x s -> a = 0.0 -> endt x -. begt x <=. b -> @Owinrel a b x s
  lemma tail_def: forall x s. @Otail x s -> sametimes x s
  lemma winrel_done: forall a b x s. sametimes x s -> (forall i. 0 <= i < len s -> @Owin x ((nth s i).time +. a) ((nth s i).time +. b) (nth s i).value) -> @Owinrel a b x s
end
module @CSeqL
  use int.Int
  use real.RealInfix
  use Signals
  use Arith
  use SigR
  use TimesR
  use Values
  use @COpt
  (* v is the least/greatest value of the samples from i on *)
  predicate @Otailat (x: sseq) (i: int) (v: real)
  (* v is the least/greatest value of x from lo to hi *)
  predicate @Owin (x: sseq) (lo hi v: real)
  predicate @Otail (x s: sseq)
  predicate @Owinrel (a b: real) (x s: sseq)
  predicate @Owinning (x: sseq) (lo hi: real) (st i: int) (v: real)
  axiom tailat_state: forall x i v [@Otailat x i v]. @Otailat x i v -> 0 <= i < len x
  axiom tailat_last: forall x i v [@Otailat x i v]. 0 < len x -> i = len x - 1 -> v = (nth x i).value -> @Otailat x i v
  axiom tailat_step: forall x i k v v' [@Otailat x i v, @Otailat x k v']. @Otailat x i v -> 0 <= k -> k + 1 = i -> v' = @O2 (nth x k).value v -> @Otailat x k v'
  axiom tail_done: forall x s [@Otail x s]. good x -> sametimes x s -> (forall i. 0 <= i < len s -> @Otailat x i (nth s i).value) -> @Otail x s
  axiom winning_start: forall x lo hi st v [@Owinning x lo hi st st v]. lo <=. hi -> v = value_at x lo -> 0 <= st <= len x -> @Owinning x lo hi st st v
  axiom winning_step: forall x lo hi st i k v v' [@Owinning x lo hi st i v, @Owinning x lo hi st k v']. good x -> @Owinning x lo hi st i v -> 0 <= i < len x -> k = i + 1 -> lo <=. (nth x i).time -> (nth x i).time <=. hi ->
    v' = @O2 (nth x i).value v -> @Owinning x lo hi st k v'
  axiom winning_done1: forall x lo hi st e v [@Owinning x lo hi st e v, value_at x hi]. good x -> len x > 0 -> @Owinning x lo hi st e v -> 0 <= st <= len x -> begt x <=. lo -> hi <=. endt x ->
    (forall i. 0 <= i < st -> (nth x i).time <. lo) -> (forall i. e <= i < len x -> (nth x i).time >. hi) -> @Owin x lo hi (@O2 (value_at x hi) v)
  axiom winning_done: forall x lo hi st e v v' [@Owinning x lo hi st e v, @Owin x lo hi v']. good x -> len x > 0 -> @Owinning x lo hi st e v -> 0 <= st <= len x -> begt x <=. lo -> hi <=. endt x ->
    (forall i. 0 <= i < st -> (nth x i).time <. lo) -> (forall i. e <= i < len x -> (nth x i).time >. hi) -> v' = @O2 (value_at x hi) v -> @Owin x lo hi v'
  axiom win_clamp: forall x lo hi l h v [@Owin x l h v, @Owin x lo hi v]. good x -> len x > 0 -> begt x <=. lo -> lo <=. hi -> l = (if endt x <. lo then endt x else lo) -> h = (if endt x <. hi then endt x else hi) ->
    @Owin x l h v -> @Owin x lo hi v
  axiom tail_win: forall x s a b [@Otail x s, @Owinrel a b x s]. good x -> @Otail x s -> a = 0.0 -> endt x -. begt x <=. b -> @Owinrel a b x s
  axiom tail_times: forall x s [@Otail x s]. @Otail x s -> sametimes x s
  axiom winrel_done: forall a b x s [@Owinrel a b x s]. sametimes x s -> (forall i. 0 <= i < len s -> @Owin x ((nth s i).time +. a) ((nth s i).time +. b) (nth s i).value) -> @Owinrel a b x s
end
module @CSeqImpl
  use SigR
  use @CSeqDef
  clone @CSeqL with predicate @Otailat = @Otailat, predicate @Owin = @Owin, predicate @Otail = @Otail, predicate @Owinrel = @Owinrel, predicate @Owinning = @Owinning, lemma .
end
