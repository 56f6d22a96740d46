-------------------------------- MODULE Flo --------------------------------
(* Integer square roots, and non-negative reals <<m, e>> = m * 2^e with      *)
(* 2^14 <= m < 2^15 (or m = 0): about four digits, enough to judge rounded   *)
(* results of real formulas within TLC's 32-bit integers.                    *)
EXTENDS Integers, Sequences, TLC

RECURSIVE IRootIn(_, _, _)
IRootIn(n, lo, hi) == IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN IRootIn(n, m, hi) ELSE IRootIn(n, lo, m - 1)
\* square root rounded down
ISqrt(n) == IF n < 256 THEN IRootIn(n, 0, 16) ELSE IF n < 65536 THEN IRootIn(n, 16, 256) ELSE IRootIn(n, 256, 46340)

FOne == 16384
RECURSIVE FNorm(_, _)
FNorm(m, e) ==
  IF m = 0 THEN <<0, 0>>
  ELSE IF m >= 8388608 THEN FNorm((m + 128) \div 256, e + 8)
  ELSE IF m >= 32768 THEN FNorm((m + 1) \div 2, e + 1)
  ELSE IF m < 128 THEN FNorm(m * 128, e - 7)
  ELSE IF m < FOne THEN FNorm(m * 2, e - 1)
  ELSE <<m, e>>
FInt(n) == FNorm(n, 0)
FRat(n, d) == LET a == FInt(n) b == FInt(d) IN IF n = 0 THEN <<0, 0>> ELSE FNorm((a[1] * 32768) \div b[1], a[2] - b[2] - 15)
FMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN <<0, 0>> ELSE FNorm(a[1] * b[1], a[2] + b[2])
FDiv(a, b) == IF a[1] = 0 THEN <<0, 0>> ELSE FNorm((a[1] * 32768) \div b[1], a[2] - b[2] - 15)
\* halving an exponent may leave a factor of two
FSqrt(a) == IF a[1] = 0 THEN <<0, 0>>
  ELSE LET m == a[1] * 16384 IN  \* a = m * 2^(e - 14)
       IF a[2] % 2 = 0 THEN FNorm(ISqrt(m), (a[2] - 14) \div 2) ELSE FNorm(ISqrt(m * 2), (a[2] - 15) \div 2)
RECURSIVE FAdd(_, _)
FAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[2] < b[2] THEN FAdd(b, a)
  ELSE IF a[2] - b[2] > 15 THEN a
  ELSE LET k == 2 ^ (a[2] - b[2]) IN
       IF a[2] - b[2] <= 12 THEN FNorm(a[1] * k + b[1], b[2]) ELSE FNorm(a[1] * 4096 + b[1] \div (k \div 4096), a[2] - 12)
\* relative difference at most about (k + 2) 2^-14
FClose(a, b, k) ==
  IF a[1] = 0 \/ b[1] = 0 THEN a[1] = b[1]
  ELSE IF a[2] = b[2] THEN (IF a[1] > b[1] THEN a[1] - b[1] ELSE b[1] - a[1]) <= k + 2
  ELSE IF a[2] = b[2] + 1 THEN 2 * a[1] - b[1] <= 2 * (k + 2)
  ELSE IF b[2] = a[2] + 1 THEN 2 * b[1] - a[1] <= 2 * (k + 2)
  ELSE FALSE

\* exp(-n/1000) in millionths, n >= 0, to about one part in ten thousand
ExpTab == <<1000000, 367879, 135335, 49787, 18316, 6738, 2479, 912, 335, 123, 45, 17, 6, 2, 1>>
ExpNeg(n) ==
  LET k == n \div 1000  f == n % 1000
      t1 == f * 1000  t2 == (t1 * f) \div 2000  t3 == (t2 * f) \div 3000  t4 == (t3 * f) \div 4000
      t5 == (t4 * f) \div 5000  t6 == (t5 * f) \div 6000  t7 == (t6 * f) \div 7000
      t == 1000000 - t1 + t2 - t3 + t4 - t5 + t6 - t7
  IN IF k > 14 THEN 0 ELSE (((ExpTab[k + 1] + 5) \div 10) * ((t + 500) \div 1000) + 50) \div 100
\* natural logarithms of 1..400 in units of 1/100000
LnTab == <<
  0, 69315, 109861, 138629, 160944, 179176, 194591, 207944, 219722, 230259, 239790, 248491, 256495, 263906, 270805, 277259,
  283321, 289037, 294444, 299573, 304452, 309104, 313549, 317805, 321888, 325810, 329584, 333220, 336730, 340120, 343399, 346574,
  349651, 352636, 355535, 358352, 361092, 363759, 366356, 368888, 371357, 373767, 376120, 378419, 380666, 382864, 385015, 387120,
  389182, 391202, 393183, 395124, 397029, 398898, 400733, 402535, 404305, 406044, 407754, 409434, 411087, 412713, 414313, 415888,
  417439, 418965, 420469, 421951, 423411, 424850, 426268, 427667, 429046, 430407, 431749, 433073, 434381, 435671, 436945, 438203,
  439445, 440672, 441884, 443082, 444265, 445435, 446591, 447734, 448864, 449981, 451086, 452179, 453260, 454329, 455388, 456435,
  457471, 458497, 459512, 460517, 461512, 462497, 463473, 464439, 465396, 466344, 467283, 468213, 469135, 470048, 470953, 471850,
  472739, 473620, 474493, 475359, 476217, 477068, 477912, 478749, 479579, 480402, 481218, 482028, 482831, 483628, 484419, 485203,
  485981, 486753, 487520, 488280, 489035, 489784, 490527, 491265, 491998, 492725, 493447, 494164, 494876, 495583, 496284, 496981,
  497673, 498361, 499043, 499721, 500395, 501064, 501728, 502388, 503044, 503695, 504343, 504986, 505625, 506260, 506890, 507517,
  508140, 508760, 509375, 509987, 510595, 511199, 511799, 512396, 512990, 513580, 514166, 514749, 515329, 515906, 516479, 517048,
  517615, 518178, 518739, 519296, 519850, 520401, 520949, 521494, 522036, 522575, 523111, 523644, 524175, 524702, 525227, 525750,
  526269, 526786, 527300, 527811, 528320, 528827, 529330, 529832, 530330, 530827, 531321, 531812, 532301, 532788, 533272, 533754,
  534233, 534711, 535186, 535659, 536129, 536598, 537064, 537528, 537990, 538450, 538907, 539363, 539816, 540268, 540717, 541165,
  541610, 542053, 542495, 542935, 543372, 543808, 544242, 544674, 545104, 545532, 545959, 546383, 546806, 547227, 547646, 548064,
  548480, 548894, 549306, 549717, 550126, 550533, 550939, 551343, 551745, 552146, 552545, 552943, 553339, 553733, 554126, 554518,
  554908, 555296, 555683, 556068, 556452, 556834, 557215, 557595, 557973, 558350, 558725, 559099, 559471, 559842, 560212, 560580,
  560947, 561313, 561677, 562040, 562402, 562762, 563121, 563479, 563835, 564191, 564545, 564897, 565249, 565599, 565948, 566296,
  566643, 566988, 567332, 567675, 568017, 568358, 568698, 569036, 569373, 569709, 570044, 570378, 570711, 571043, 571373, 571703,
  572031, 572359, 572685, 573010, 573334, 573657, 573979, 574300, 574620, 574939, 575257, 575574, 575890, 576205, 576519, 576832,
  577144, 577455, 577765, 578074, 578383, 578690, 578996, 579301, 579606, 579909, 580212, 580513, 580814, 581114, 581413, 581711,
  582008, 582305, 582600, 582895, 583188, 583481, 583773, 584064, 584354, 584644, 584932, 585220, 585507, 585793, 586079, 586363,
  586647, 586930, 587212, 587493, 587774, 588053, 588332, 588610, 588888, 589164, 589440, 589715, 589990, 590263, 590536, 590808,
  591080, 591350, 591620, 591889, 592158, 592426, 592693, 592959, 593225, 593489, 593754, 594017, 594280, 594542, 594803, 595064,
  595324, 595584, 595842, 596101, 596358, 596615, 596871, 597126, 597381, 597635, 597889, 598141, 598394, 598645, 598896, 599146>>
=============================================================================
