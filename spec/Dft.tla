-------------------------------- MODULE Dft ---------------------------------
(* Prediction of visibilities by a sum over point sources, and rotation of the phase
   centre. Angles are in turns; sums are in millionths.
   Directions d[c] = <<l, m, n>> are multiples of 1/den of a wavelength-inverse, and
   coordinates are integers, so every phase is an exact fraction of a turn. *)
EXTENDS Trig
(* flux re/im, phase of -k/den of a turn *)
TermRe(re, im, den, k) == re * Cos6(den, k) + im * Sin6(den, k)
TermIm(re, im, den, k) == im * Cos6(den, k) - re * Sin6(den, k)
DotI(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
(* fr[c], fi[c]: fluxes of this channel and polarisation; dirs[c]: integer
   direction; w: integer coordinates; the phase of component c is -dot/den turns *)
VisRe(fr, fi, dirs, w, den) ==
    SumTo(LAMBDA c : TermRe(fr[c], fi[c], den, DotI(dirs[c], w)), Len(dirs))
VisIm(fr, fi, dirs, w, den) ==
    SumTo(LAMBDA c : TermIm(fr[c], fi[c], den, DotI(dirs[c], w)), Len(dirs))

(* Phase centres <<ra, dec>> in 1/den of a turn. Direction cosines of the new centre
   in the frame of the old one, in millionths. *)
NewDir(o, n, den) ==
    LET sa == Sin6(den, n[1] - o[1])
        ca == Cos6(den, n[1] - o[1])
        s0 == Sin6(den, o[2])
        c0 == Cos6(den, o[2])
        s1 == Sin6(den, n[2])
        c1 == Cos6(den, n[2])
    IN << MulM(c1, sa),
          MulM(c0, s1) - MulM(MulM(s0, c1), ca),
          MulM(s0, s1) + MulM(MulM(c0, c1), ca) >>
(* Phase, in millionths of a turn, by which a visibility at (u, v, w) wavelengths
   turns: the old centre (0, 0, 1) less the new one. *)
ShiftPhase(o, n, den, w) ==
    LET d == NewDir(o, n, den)
    IN -(w[1] * d[1]) - w[2] * d[2] + w[3] * (1000000 - d[3])
(* Coordinates in the new frame: turned by minus the change of right ascension
   about v, then by the change of declination about u; in millionths. *)
Rot(o, n, den, w) ==
    LET a == o[1] - n[1]
        d == n[2] - o[2]
        sa == Sin6(den, a)
        ca == Cos6(den, a)
        sd == Sin6(den, d)
        cd == Cos6(den, d)
    IN << ca * w[1] + sa * w[3],
          MulM(sa, sd) * w[1] + cd * w[2] - MulM(ca, sd) * w[3],
          -(MulM(sa, cd) * w[1]) + sd * w[2] + MulM(ca, cd) * w[3] >>
=============================================================================
