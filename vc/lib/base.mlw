(* Real arithmetic of doubles; products and quotients are kept abstract (only the laws below are used). *)
module ArithBase
  use real.RealInfix
  function dmul real real : real
  function ddiv real real : real
  axiom ddiv_zero: forall a b [ddiv a b]. b <> 0.0 -> a = 0.0 -> ddiv a b = 0.0
  function slope real real real real : real
  axiom slope_def: forall t0 v0 t1 v1. slope t0 v0 t1 v1 = ddiv (v1 -. v0) (t1 -. t0)
  axiom slope_zero: forall t0 v0 t1 v1 [slope t0 v0 t1 v1]. t0 <. t1 -> v0 = v1 -> slope t0 v0 t1 v1 = 0.0
end
module Arith
  use real.RealInfix
  use export ArithBase
  axiom dmul_comm: forall a b. dmul a b = dmul b a
  axiom dmul_zero: forall a. dmul a 0.0 = 0.0
  axiom dmul_one: forall a. dmul a 1.0 = a
  axiom dmul_neg: forall a b c [dmul a b, dmul c b]. a = -. c -> dmul a b = -. (dmul c b)
  axiom ddiv_neg: forall a b c [ddiv a b, ddiv c b]. b <> 0.0 -> a = -. c -> ddiv a b = -. (ddiv c b)
  axiom div_mul: forall a b. b <> 0.0 -> dmul (ddiv a b) b = a
  axiom ddiv_sign: forall a b. b >. 0.0 -> ddiv a b = 0.0 -> a = 0.0
  function lin real real real real real : real
  axiom lin_def: forall t0 v0 t1 v1 t. lin t0 v0 t1 v1 t = v0 +. dmul (slope t0 v0 t1 v1) (t -. t0)
  axiom lin_le: forall t0 a0 b0 t1 a1 b1 t. t0 <. t1 -> t0 <=. t <=. t1 -> a0 <=. b0 -> a1 <=. b1 ->
     lin t0 a0 t1 a1 t <=. lin t0 b0 t1 b1 t
  axiom lin_sub: forall t0 x0 t1 x1 a b t. t0 <. t1 -> t0 <=. a <. b -> b <=. t1 -> a <=. t <=. b ->
     lin a (lin t0 x0 t1 x1 a) b (lin t0 x0 t1 x1 b) t = lin t0 x0 t1 x1 t
  axiom lin_const: forall t0 t1 v t. t0 <. t1 -> lin t0 v t1 v t = v
  axiom lin_neg: forall t0 x0 t1 x1 t y0 y1 [lin t0 x0 t1 x1 t, lin t0 y0 t1 y1 t]. t0 <. t1 -> y0 = -. x0 -> y1 = -. x1 -> lin t0 y0 t1 y1 t = -. (lin t0 x0 t1 x1 t)
  axiom lin_ge_min: forall t0 x0 t1 x1 t. t0 <. t1 -> t0 <=. t <=. t1 ->
     (x0 <=. lin t0 x0 t1 x1 t \/ x1 <=. lin t0 x0 t1 x1 t) /\ (lin t0 x0 t1 x1 t <=. x0 \/ lin t0 x0 t1 x1 t <=. x1)
  (* intersection of the lines of slopes s0, s1 through (t0,v0), (t1,v1) *)
  function isect real real real real real real : real
  axiom isect_def: forall s0 v0 t0 s1 v1 t1. isect s0 v0 t0 s1 v1 t1 = ddiv (v0 -. v1 +. dmul s1 t1 -. dmul s0 t0) (s1 -. s0)
  axiom isect_meet: forall s0 v0 t0 s1 v1 t1. s0 <> s1 ->
     let c = isect s0 v0 t0 s1 v1 t1 in v0 +. dmul s0 (c -. t0) = v1 +. dmul s1 (c -. t1)
  axiom slope_diff: forall t0 x0 y0 t1 x1 y1 [slope t0 x0 t1 x1, slope t0 y0 t1 y1]. t0 <. t1 -> y0 <=. x0 -> x1 <=. y1 -> (y0 <. x0 \/ x1 <. y1) ->
     slope t0 x0 t1 x1 <> slope t0 y0 t1 y1
  (* y <= x at t0, x <= y at t1, not both equal *)
  axiom isect_range: forall t0 x0 y0 t1 x1 y1. t0 <. t1 -> y0 <=. x0 -> x1 <=. y1 -> (y0 <. x0 \/ x1 <. y1) ->
     let dx = slope t0 x0 t1 x1 in let dy = slope t0 y0 t1 y1 in
     let c = isect dy y0 t0 dx x0 t0 in dx <> dy /\ t0 <=. c <=. t1 /\ lin t0 x0 t1 x1 c = lin t0 y0 t1 y1 c
     /\ isect dx x0 t0 dy y0 t0 = c
end
module ArithHelp
  use real.RealInfix
  function rmul real real : real
  axiom rmul_is: forall a b. rmul a b = a *. b
  function rdiv real real : real
  axiom rdiv_is: forall a b. rdiv a b = a /. b
  (* q is the quotient of a by b *)
  predicate isq (q a b: real) = q *. b = a
  let ghost div_isq (a b: real) requires { b <> 0.0 } ensures { isq (a /. b) a b } = ()
  let ghost isq_div (q a b: real) requires { b <> 0.0 /\ isq q a b } ensures { a /. b = q }
  = let ghost p = a /. b in assert { p *. b = a }; assert { (p -. q) *. b = 0.0 }
  let ghost mul_le (k a b: real) requires { k >=. 0.0 /\ a <=. b } ensures { k *. a <=. k *. b } = ()
  let ghost swap (q r d: real) ensures { q *. (r *. d) = r *. (q *. d) } = ()
  (* the point at the fraction r of the way *)
  let ghost conv (d s x0 x1 q r: real)
   requires { isq r s d /\ isq q (x1 -. x0) d } ensures { x0 +. q *. s = (1.0 -. r) *. x0 +. r *. x1 }
  = swap q r d; assert { q *. s = r *. (x1 -. x0) }
  let ghost frac (d s r: real) requires { d >. 0.0 /\ 0.0 <=. s <=. d /\ isq r s d } ensures { 0.0 <=. r <=. 1.0 }
  = if r >. 1.0 then assert { (r -. 1.0) *. d >. 0.0 };
    if r <. 0.0 then assert { r *. d <. 0.0 }
  let ghost lin_le0 (d s x0 x1 y0 y1 p q r: real)
   requires { d >. 0.0 /\ 0.0 <=. s <=. d /\ x0 <=. y0 /\ x1 <=. y1 }
   requires { isq r s d /\ isq p (x1 -. x0) d /\ isq q (y1 -. y0) d }
   ensures { x0 +. p *. s <=. y0 +. q *. s }
  = frac d s r; conv d s x0 x1 p r; conv d s y0 y1 q r;
    mul_le r x1 y1; mul_le (1.0 -. r) x0 y0
  let ghost slopes (d x0 x1 y0 y1 dx dy: real)
   requires { d >. 0.0 /\ y0 <=. x0 /\ x1 <=. y1 /\ (y0 <. x0 \/ x1 <. y1) }
   requires { isq dx (x1 -. x0) d /\ isq dy (y1 -. y0) d }
   ensures { dx <. dy }
  = assert { (dy -. dx) *. d = dy *. d -. dx *. d };
    assert { (dy -. dx) *. d = (y1 -. x1) +. (x0 -. y0) };
    if dy <=. dx then assert { (dy -. dx) *. d <=. 0.0 }
  let ghost cross (d x0 x1 y0 y1 dx dy c: real)
   requires { d >. 0.0 /\ y0 <=. x0 /\ x1 <=. y1 /\ (y0 <. x0 \/ x1 <. y1) }
   requires { isq dx (x1 -. x0) d /\ isq dy (y1 -. y0) d /\ isq c (x0 -. y0) (dy -. dx) }
   ensures { dx <. dy }
   ensures { 0.0 <=. c <=. d }
   ensures { x0 +. dx *. c = y0 +. dy *. c }
  = assert { (dy -. dx) *. d = dy *. d -. dx *. d };
    assert { (dy -. dx) *. d = (y1 -. x1) +. (x0 -. y0) };
    if dy <=. dx then assert { (dy -. dx) *. d <=. 0.0 };
    assert { dy -. dx >. 0.0 };
    assert { c *. (dy -. dx) = x0 -. y0 };
    if c <. 0.0 then assert { c *. (dy -. dx) <. 0.0 };
    if c >. d then assert { (c -. d) *. (dy -. dx) >. 0.0 }
  let ghost lin_sub0 (m x0 a b s va vb: real)
   requires { b <> a /\ va = x0 +. m *. a /\ vb = x0 +. m *. b }
   ensures { va +. ((vb -. va) /. (b -. a)) *. (s -. a) = x0 +. m *. s }
  = assert { m *. (b -. a) = vb -. va };
    isq_div m (vb -. va) (b -. a);
    assert { m *. (s -. a) = m *. s -. m *. a }
  function slope real real real real : real
  axiom slope_is: forall t0 v0 t1 v1. slope t0 v0 t1 v1 = rdiv (v1 -. v0) (t1 -. t0)
  function lin real real real real real : real
  axiom lin_is: forall t0 v0 t1 v1 t. lin t0 v0 t1 v1 t = v0 +. rmul (slope t0 v0 t1 v1) (t -. t0)
  function isect real real real real real real : real
  axiom isect_is: forall s0 v0 t0 s1 v1 t1. isect s0 v0 t0 s1 v1 t1 = rdiv (v0 -. v1 +. rmul s1 t1 -. rmul s0 t0) (s1 -. s0)
  let ghost isect_shift (m x0 n y0 t0 q: real)
    requires { m <> n /\ isq q (x0 -. y0) (n -. m) }
    ensures { isect n y0 t0 m x0 t0 = t0 +. q }
    ensures { isect m x0 t0 n y0 t0 = t0 +. q }
  = assert { (t0 +. q) *. (m -. n) = t0 *. (m -. n) -. q *. (n -. m) };
    assert { t0 *. (m -. n) = m *. t0 -. n *. t0 };
    isq_div (t0 +. q) (y0 -. x0 +. m *. t0 -. n *. t0) (m -. n);
    assert { (t0 +. q) *. (n -. m) = t0 *. (n -. m) +. q *. (n -. m) };
    assert { t0 *. (n -. m) = n *. t0 -. m *. t0 };
    isq_div (t0 +. q) (x0 -. y0 +. n *. t0 -. m *. t0) (n -. m)
end
module ArithImpl
  use real.RealInfix
  use ArithHelp
  let lemma lin_le1 (t0 a0 b0 t1 a1 b1 t: real)
    requires { t0 <. t1 /\ t0 <=. t <=. t1 /\ a0 <=. b0 /\ a1 <=. b1 }
    ensures { lin t0 a0 t1 a1 t <=. lin t0 b0 t1 b1 t }
  = lin_le0 (t1 -. t0) (t -. t0) a0 a1 b0 b1 ((a1 -. a0) /. (t1 -. t0)) ((b1 -. b0) /. (t1 -. t0)) ((t -. t0) /. (t1 -. t0))
  let lemma lin_sub1 (t0 x0 t1 x1 a b t: real)
    requires { t0 <. t1 /\ a <. b }
    ensures { lin a (lin t0 x0 t1 x1 a) b (lin t0 x0 t1 x1 b) t = lin t0 x0 t1 x1 t }
  = let ghost m = (x1 -. x0) /. (t1 -. t0) in
    let ghost va = x0 +. m *. (a -. t0) in let ghost vb = x0 +. m *. (b -. t0) in
    lin_sub0 m x0 (a -. t0) (b -. t0) (t -. t0) va vb;
    assert { (b -. t0) -. (a -. t0) = b -. a };
    assert { (t -. t0) -. (a -. t0) = t -. a }
  let lemma lin_const1 (t0 t1 v t: real) requires { t0 <. t1 } ensures { lin t0 v t1 v t = v }
  = isq_div 0.0 (v -. v) (t1 -. t0)
  let lemma lin_neg1 (t0 x0 t1 x1 t: real)
    requires { t0 <. t1 } ensures { lin t0 (-. x0) t1 (-. x1) t = -. (lin t0 x0 t1 x1 t) }
  = let ghost m = (x1 -. x0) /. (t1 -. t0) in
    isq_div (-. m) ((-. x1) -. (-. x0)) (t1 -. t0)
  let lemma lin_ge_min1 (t0 x0 t1 x1 t: real)
    requires { t0 <. t1 /\ t0 <=. t <=. t1 }
    ensures { (x0 <=. lin t0 x0 t1 x1 t \/ x1 <=. lin t0 x0 t1 x1 t) /\ (lin t0 x0 t1 x1 t <=. x0 \/ lin t0 x0 t1 x1 t <=. x1) }
  = let ghost m = if x0 <=. x1 then x0 else x1 in
    let ghost n = if x0 <=. x1 then x1 else x0 in
    lin_le1 t0 m x0 t1 m x1 t; lin_const1 t0 t1 m t;
    lin_le1 t0 x0 n t1 x1 n t; lin_const1 t0 t1 n t
  let lemma isect_meet1 (s0 v0 t0 s1 v1 t1 c: real)
    requires { s0 <> s1 /\ c = isect s0 v0 t0 s1 v1 t1 }
    ensures { v0 +. rmul s0 (c -. t0) = v1 +. rmul s1 (c -. t1) }
  = assert { isq c (v0 -. v1 +. s1 *. t1 -. s0 *. t0) (s1 -. s0) };
    assert { c *. (s1 -. s0) = c *. s1 -. c *. s0 }
  let lemma isect_range1 (t0 x0 y0 t1 x1 y1: real)
    requires { t0 <. t1 /\ y0 <=. x0 /\ x1 <=. y1 /\ (y0 <. x0 \/ x1 <. y1) }
    ensures { let dx = slope t0 x0 t1 x1 in let dy = slope t0 y0 t1 y1 in
     let c = isect dy y0 t0 dx x0 t0 in dx <> dy /\ t0 <=. c <=. t1 /\ lin t0 x0 t1 x1 c = lin t0 y0 t1 y1 c
     /\ isect dx x0 t0 dy y0 t0 = c }
  = let ghost d = t1 -. t0 in
    let ghost dx = slope t0 x0 t1 x1 in let ghost dy = slope t0 y0 t1 y1 in
    let ghost c = isect dy y0 t0 dx x0 t0 in
    div_isq (x1 -. x0) d; div_isq (y1 -. y0) d;
    slopes d x0 x1 y0 y1 dx dy;
    let ghost k = (x0 -. y0) /. (dy -. dx) in
    div_isq (x0 -. y0) (dy -. dx);
    cross d x0 x1 y0 y1 dx dy k;
    isect_shift dx x0 dy y0 t0 k;
    assert { c = t0 +. k };
    assert { c -. t0 = k };
    assert { lin t0 x0 t1 x1 c = x0 +. dx *. k };
    assert { lin t0 y0 t1 y1 c = y0 +. dy *. k }
  clone ArithAll with function dmul = rmul, function ddiv = rdiv, function slope = slope, function lin = lin, function isect = isect, lemma .
end
module Infty
  use real.RealInfix
  val constant infty : real ensures { result >. 0.0 }
end
