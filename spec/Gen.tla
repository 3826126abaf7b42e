-------------------------------- MODULE Gen --------------------------------
(* The built-in curve generators and their parametric equations.             *)
EXTENDS Interp

TwoPi == RMul("2", RPi)
PiTimes(x) == RMul(x, RPi)

\* the parameters of every generator in order, with their defaults
GenDefaults(name) ==
  CASE name = "arc" -> [t_start |-> Zero, t_stop |-> TwoPi, p_count |-> 49, r |-> One, c |-> Zero]
    [] name = "lemniscate_of_bernoulli" -> [t_start |-> Zero, t_stop |-> TwoPi, p_count |-> 101, c |-> One]
    [] name = "archimedean_spiral" -> [t_start |-> Zero, t_stop |-> PiTimes("5"), p_count |-> 200, a |-> "3/2", b |-> "-12/5"]
    [] name = "euler_spiral" -> [t_start |-> PiTimes("-3/2"), t_stop |-> PiTimes("3/2"), p_count |-> 1000]
    [] name = "lissajous" -> [t_start |-> Zero, t_stop |-> TwoPi, p_count |-> 101, a_ampl |-> One, b_ampl |-> One,
                              a |-> "3", b |-> "2", d |-> Zero]
    [] name = "helix" -> [t_start |-> PiTimes("-3"), t_stop |-> PiTimes("3"), p_count |-> 100, a |-> One, b |-> One]
    [] name = "irregular_helix" -> [t_start |-> PiTimes("-4"), t_stop |-> PiTimes("4"), z_start |-> "-2", z_stop |-> "2",
                                    p_count |-> 100]

\* the i-th point, at the parameter value t
GenPoint(name, p, t, i) ==
  LET s == RSin(t)
      c == RCos(t)
  IN CASE name = "arc" -> <<RAdd(RMul(c, p.r), p.c), RAdd(RMul(s, p.r), p.c)>>
       [] name = "lemniscate_of_bernoulli" ->
            LET k == RDiv(RMul(p.c, RSqrt("2")), RAdd(One, RSqr(s)))
            IN <<RMul(k, c), RMul(k, RMul(c, s))>>
       [] name = "archimedean_spiral" -> LET r == RAdd(p.a, RMul(p.b, t)) IN <<RMul(r, c), RMul(r, s)>>
       [] name = "euler_spiral" -> <<RFresnelC(t), RFresnelS(t)>>
       [] name = "lissajous" -> <<RMul(p.a_ampl, RSin(RAdd(RMul(p.a, t), p.d))), RMul(p.b_ampl, RSin(RMul(p.b, t)))>>
       [] name = "helix" -> <<RMul(s, p.a), RMul(c, p.a), RMul(t, p.b)>>
       [] name = "irregular_helix" ->
            LET z == Linspace(p.z_start, p.z_stop, p.p_count)[i]
                r == RAdd(RSqr(z), One)
            IN <<RMul(r, s), RMul(r, c), z>>

\* size of the quantities that are rounded on the way to a point
GenScale(name, p, t) ==
  CASE name = "arc" -> RAdd(RAbs(p.r), RAbs(p.c))
    [] name = "lemniscate_of_bernoulli" -> RMul("2", RAbs(p.c))
    [] name = "archimedean_spiral" -> RAdd(RAbs(p.a), RAbs(RMul(p.b, t)))
    [] name = "euler_spiral" -> RAdd(One, RAbs(t))
    [] name = "lissajous" -> RMul(RAdd(RAbs(p.a_ampl), RAbs(p.b_ampl)),
                                  RAdd(RAdd(One, RAbs(RMul(p.a, t))), RAdd(RAbs(RMul(p.b, t)), RAbs(p.d))))
    [] name = "helix" -> RAdd(RAbs(p.a), RAbs(RMul(p.b, t)))
    [] name = "irregular_helix" -> RAdd(One, RMul("2", RAdd(RSqr(p.z_start), RSqr(p.z_stop))))

GenNames == {"arc", "lemniscate_of_bernoulli", "archimedean_spiral", "euler_spiral", "lissajous", "helix", "irregular_helix"}
=============================================================================
