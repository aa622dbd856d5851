------------------------------- MODULE MegaPre -------------------------------
(***************************************************************************)
(* The precompiled contracts: what a call costs, whether it succeeds and   *)
(* how many bytes it yields.                                               *)
(* An input is described by a record                                       *)
(*   n          its length in bytes                                        *)
(*   q          "ok", or what is wrong with it: "bad" (points, proofs,     *)
(*              signatures, flags ...)                                     *)
(*   bl, el, ml lengths stated for base, exponent and modulus (BIG: beyond *)
(*              any machine word), eb bits of the exponent's first 32 bytes*)
(*   r          rounds asked for                                           *)
(* What the yielded bytes are is not specified here: the harness compares  *)
(* them with the reference implementation's.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

PBIG == 2147483647
PMax(a, b) == IF a > b THEN a ELSE b
PMin(a, b) == IF a < b THEN a ELSE b
PWords(n) == (n + 31) \div 32

DiscountG1 == <<
  1000, 949, 848, 797, 764, 750, 738, 728, 719, 712, 705, 698, 692, 687, 682, 677, 673, 669, 665,
  661, 658, 654, 651, 648, 645, 642, 640, 637, 635, 632, 630, 627, 625, 623, 621, 619, 617, 615,
  613, 611, 609, 608, 606, 604, 603, 601, 599, 598, 596, 595, 593, 592, 591, 589, 588, 586, 585,
  584, 582, 581, 580, 579, 577, 576, 575, 574, 573, 572, 570, 569, 568, 567, 566, 565, 564, 563,
  562, 561, 560, 559, 558, 557, 556, 555, 554, 553, 552, 551, 550, 549, 548, 547, 547, 546, 545,
  544, 543, 542, 541, 540, 540, 539, 538, 537, 536, 536, 535, 534, 533, 532, 532, 531, 530, 529,
  528, 528, 527, 526, 525, 525, 524, 523, 522, 522, 521, 520, 520, 519>>
DiscountG2 == <<
  1000, 1000, 923, 884, 855, 832, 812, 796, 782, 770, 759, 749, 740, 732, 724, 717, 711, 704,
  699, 693, 688, 683, 679, 674, 670, 666, 663, 659, 655, 652, 649, 646, 643, 640, 637, 634, 632,
  629, 627, 624, 622, 620, 618, 615, 613, 611, 609, 607, 606, 604, 602, 600, 598, 597, 595, 593,
  592, 590, 589, 587, 586, 584, 583, 582, 580, 579, 578, 576, 575, 574, 573, 571, 570, 569, 568,
  567, 566, 565, 563, 562, 561, 560, 559, 558, 557, 556, 555, 554, 553, 552, 552, 551, 550, 549,
  548, 547, 546, 545, 545, 544, 543, 542, 541, 541, 540, 539, 538, 537, 537, 536, 535, 535, 534,
  533, 532, 532, 531, 530, 530, 529, 528, 528, 527, 526, 526, 525, 524, 524>>
\* k multiplications at the group's discount; 12 and 22.5 gas per thousandth
MsmG1(k) == k * DiscountG1[PMin(k, 128)] * 12
MsmG2(k) == (k * DiscountG2[PMin(k, 128)] * 45) \div 2

\* ------------------------------------------------- modular exponentiation
Iterations(mult, el, eb) ==
  IF el <= 32 THEN PMax(eb - 1, 1)
  ELSE PMax(mult * (el - 32) + PMax(1, eb) - 1, 1)
Words8(x) == (x + 7) \div 8
\* saturating product of small factors
Times(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF b > PBIG \div a THEN PBIG ELSE a * b
BerlinModexp(d) ==
  LET w == Words8(PMax(d.bl, d.ml))
      x == Times(Times(w, w), IF d.el > 100000000 THEN PBIG ELSE Iterations(8, d.el, d.eb))
  IN IF x = PBIG THEN PBIG ELSE PMax(200, x \div 3)
OsakaModexp(d) ==
  LET x == PMax(d.bl, d.ml)  w == Words8(x)
  IN PMax(500, Times(IF x <= 32 THEN 16 ELSE 2 * w * w, Iterations(16, d.el, d.eb)))

\* ----------------------------------------------------------------- answers
POk(g, o) == [r |-> "Return", g |-> g, out |-> o]
PErr == [r |-> "PrecompileError", g |-> 0, out |-> 0]
POog == [r |-> "PrecompileOOG", g |-> 0, out |-> 0]

\* price g is asked for before the input is looked at; good: whether it is acceptable
Priced(gas, g, good, o) == IF gas < g THEN POog ELSE IF ~good THEN PErr ELSE POk(g, o)
\* shape is looked at before the price
Shaped(shape, gas, g, good, o) == IF ~shape THEN PErr ELSE Priced(gas, g, good, o)

Modexp(mini, d, gas) ==
  LET least == IF mini THEN 500 ELSE 200
      cost  == IF mini THEN OsakaModexp(d) ELSE BerlinModexp(d)
  IN IF gas < least THEN POog
     ELSE IF d.bl = PBIG \/ d.ml = PBIG THEN PErr
     ELSE IF mini /\ (d.bl > 1024 \/ d.ml > 1024 \/ d.el > 1024) THEN PErr
     ELSE IF d.bl = 0 /\ d.ml = 0 THEN POk(least, 0)
     ELSE IF gas < cost THEN POog ELSE POk(cost, d.ml)

\* mini: MINI_REX or later.  Everything else is as on Isthmus on every spec.
Precompiled(mini, p, d, gas) ==
  LET n == d.n  ok == d.q = "ok" IN
  CASE p = "P1"  -> Priced(gas, 3000, TRUE, IF ok THEN 32 ELSE 0)
    [] p = "P2"  -> Priced(gas, 60 + 12 * PWords(n), TRUE, 32)
    [] p = "P3"  -> Priced(gas, 600 + 120 * PWords(n), TRUE, 32)
    [] p = "P4"  -> Priced(gas, 15 + 3 * PWords(n), TRUE, n)
    [] p = "P5"  -> Modexp(mini, d, gas)
    [] p = "P6"  -> Priced(gas, 150, ok, 64)
    [] p = "P7"  -> Priced(gas, 6000, ok, 64)
    [] p = "P8"  -> Shaped(n <= 112687, gas, 45000 + 34000 * (n \div 192), (n % 192) = 0 /\ ok, 32)
    [] p = "P9"  -> Shaped(n = 213, gas, d.r, ok, 64)
    [] p = "P10" -> Priced(gas, IF mini THEN 100000 ELSE 50000, n = 192 /\ ok, 64)
    [] p = "P11" -> Priced(gas, 375, n = 256 /\ ok, 128)
    [] p = "P12" -> IF n > 513760 THEN PErr ELSE Shaped(n > 0 /\ (n % 160) = 0, gas, MsmG1(PMax(1, n \div 160)), ok, 128)
    [] p = "P13" -> Priced(gas, 600, n = 512 /\ ok, 256)
    [] p = "P14" -> IF n > 488448 THEN PErr ELSE Shaped(n > 0 /\ (n % 288) = 0, gas, MsmG2(PMax(1, n \div 288)), ok, 256)
    [] p = "P15" -> IF n > 235008 THEN PErr ELSE Shaped(n > 0 /\ (n % 384) = 0, gas, 37700 + 32600 * (n \div 384), ok, 32)
    [] p = "P16" -> Priced(gas, 5500, n = 64 /\ ok, 128)
    [] p = "P17" -> Priced(gas, 23800, n = 128 /\ ok, 256)
    [] p = "P256" -> Priced(gas, 3450, TRUE, IF n = 160 /\ ok THEN 32 ELSE 0)
    \* a precompile of the operator's own (DynPrecompiles): 777 gas, yields its input
    [] OTHER     -> Priced(gas, 777, d.q # "bad", n)

\* calldata that names an entry point is an ordinary input: no signature to recover
Ordinary(n) == [n |-> n, q |-> "plain", bl |-> 0, el |-> 0, ml |-> 0, eb |-> 0, r |-> 0]
=============================================================================
